// O01: an orbit does not depend on what is recorded, on the sampling, on the frame, on the partition into runs.
#include "models.h"
#include "orbit.h"
#include "orbit_variational.h"
#include "potential_utils.h"
using namespace vh; using namespace orbit; using coord::PosVelCar; using potential::BasePotential;
typedef std::vector<double> V;
static const char* POTS[]={"type=Plummer mass=2 scaleRadius=0.7","type=MiyamotoNagai mass=1 scaleRadius=2 scaleHeight=0.3","type=Logarithmic v0=0.5 scaleRadius=0.2 p=0.9 q=0.7",
 "type=Logarithmic p=0.9 q=0.7 scaleRadius=0.5 center=@/traj.txt orientation=0.3,0.7,1.1 rotation=@/rot.txt scale=@/scal.txt","file=@/offmul.ini","type=Isochrone ; type=UniformAcceleration file=@/acc.txt","file=@/evol.ini",
 "type=Plummer ; type=KeplerBinary mass=0.3 binary_q=0.5 binary_sma=0.1 binary_ecc=0.4 binary_phase=1","type=Harmonic Omega=1.4 p=0.9 q=0.6","file=@/offcyl.ini","type=Multipole density=Dehnen gamma=1 p=0.8 q=0.6 lmax=4 gridSizeR=15 rmin=0.01 rmax=100"};
static const int NPOT=sizeof(POTS)/sizeof(POTS[0]);
static const bool STATIC[]={1,1,1,0,1,0,0,0,1,1,1};   // energy conserved
static const double TOL[]={1e-6,1e-6,1e-6,2e-5,2e-5,2e-5,2e-5,2e-5,1e-6,2e-5,2e-5};   // splines have limited smoothness
static const double ICS[][6]={{1,0.2,0.3,0.1,0.7,-0.2},{-0.8,0.9,0.1,-0.3,-0.4,0.35},{0.5,-1.5,0.8,0.1,0.2,0.3},{2.1,0.3,-0.4,-0.5,0.1,0.2}};
static const int NIC=4;
struct S6 { double v[6]; }; static S6 s6(const PosVelCar& p) { S6 s; p.unpack_to(s.v); return s; }
static bool bits(const PosVelCar& a,const PosVelCar& b) { S6 x=s6(a),y=s6(b); return memcmp(&x,&y,sizeof x)==0; }
static double dist(const PosVelCar& a,const PosVelCar& b) { S6 x=s6(a),y=s6(b); double d=0; for(int i=0;i<6;i++) d=fmax(d,fabs(x.v[i]-y.v[i])); return d==d?d:INFINITY; }
static PosVelCar rot(const PosVelCar& p,double a) { double c=cos(a),s=sin(a); return PosVelCar(p.x*c-p.y*s,p.y*c+p.x*s,p.z,p.vx*c-p.vy*s,p.vy*c+p.vx*s,p.vz); }
// reference: 4th-order Runge-Kutta with a small fixed step in the inertial frame; the potential is rotated by angle Om*t, the result is in the rotating frame
static void rhs(const BasePotential& P,double Om,double t,const double* x,double* k) { double c=cos(Om*t),s=sin(Om*t); coord::GradCar g; P.eval(coord::PosCar(x[0]*c+x[1]*s,x[1]*c-x[0]*s,x[2]),NULL,&g,NULL,t);
    k[0]=x[3]; k[1]=x[4]; k[2]=x[5]; k[3]=-(g.dx*c-g.dy*s); k[4]=-(g.dy*c+g.dx*s); k[5]=-g.dz; }
static PosVelCar refint(const BasePotential& P,double Om,PosVelCar ic,double t0,double T,int n) { if(T==0) return ic; S6 x=s6(rot(ic,Om*t0)); double h=T/n,k1[6],k2[6],k3[6],k4[6],y[6];
    for(int j=0;j<n;j++) { double t=t0+T*j/n; rhs(P,Om,t,x.v,k1); for(int i=0;i<6;i++) y[i]=x.v[i]+h/2*k1[i]; rhs(P,Om,t+h/2,y,k2); for(int i=0;i<6;i++) y[i]=x.v[i]+h/2*k2[i]; rhs(P,Om,t+h/2,y,k3); for(int i=0;i<6;i++) y[i]=x.v[i]+h*k3[i]; rhs(P,Om,t+h,y,k4); for(int i=0;i<6;i++) x.v[i]+=h/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); }
    return rot(PosVelCar(x.v),-Om*(t0+T)); }
enum { TRA=1, TRB=2, TR0=4, TRI=8, VAR=16, LYA=32 };
struct Rec { Trajectory a,b,z,inf,dev[6]; double lyap; PosVelCar end; bool thrown; Rec(): lyap(NAN), end(0,0,0,0,0,0), thrown(false) {} };
struct Cfg { int coord; double Om,t0,T,da,db; OrbitIntParams par; Cfg(): coord(0),Om(0),t0(0),T(1),da(0.1),db(0.3) {} };
static BaseOrbitIntegrator* mk(const BasePotential& P,const Cfg& c) { if(c.coord==0) return new OrbitIntegrator<coord::Car>(P,c.Om,c.par); if(c.coord==1) return new OrbitIntegrator<coord::Cyl>(P,c.Om,c.par); return new OrbitIntegrator<coord::Sph>(P,c.Om,c.par); }
static void attach(BaseOrbitIntegrator& o,Rec& r,const Cfg& c,int mask,bool reverse=false) {
    std::vector<PtrRuntimeFnc> f;
    if(mask&TRA) f.push_back(PtrRuntimeFnc(new RuntimeTrajectory(o,c.da,r.a))); if(mask&TRB) f.push_back(PtrRuntimeFnc(new RuntimeTrajectory(o,c.db,r.b)));
    if(mask&TR0) f.push_back(PtrRuntimeFnc(new RuntimeTrajectory(o,0,r.z))); if(mask&TRI) f.push_back(PtrRuntimeFnc(new RuntimeTrajectory(o,INFINITY,r.inf)));
    if(mask&(VAR|LYA)) f.push_back(PtrRuntimeFnc(new RuntimeVariational(o,c.da,mask&VAR?r.dev:NULL,mask&LYA?&r.lyap:NULL)));
    for(size_t i=0;i<f.size();i++) o.addRuntimeFnc(f[reverse?f.size()-1-i:i]); }
static Rec go(const BasePotential& P,const PosVelCar& ic,const Cfg& c,int mask,const V& parts=V(),bool reverse=false) {
    Rec r; { std::unique_ptr<BaseOrbitIntegrator> o(mk(P,c)); attach(*o,r,c,mask,reverse); o->init(ic,c.t0); if(parts.empty()) r.end=o->run(c.T); else for(size_t i=0;i<parts.size();i++) r.end=o->run(parts[i]); S.traces++; } return r; }
static void sameTraj(const char* what,const Trajectory& a,const Trajectory& b) { if(!check(a.size()==b.size(),"%s: %d points instead of %d",what,(int)a.size(),(int)b.size())) return; for(size_t i=0;i<a.size();i++) if(!check(a[i].second==b[i].second&&bits(a[i].first,b[i].first),"%s: point %d at t=%.17g is different by %g",what,(int)i,b[i].second,dist(a[i].first,b[i].first))) return; }
static double maxerr=0, maxpart=0, maxsym=0, maxE=0;
static double energy(const BasePotential& P,const PosVelCar& p,double Om,double t) { return P.value(p,t)+0.5*(p.vx*p.vx+p.vy*p.vy+p.vz*p.vz)-Om*(p.x*p.vy-p.y*p.vx); }
// the moments of time and the initial and final points of a trajectory sampled at equal intervals
static void sampling(const char* what,const Trajectory& t,const Cfg& c,double d,const PosVelCar& ic,const PosVelCar& end,double tol) {
    double eps=20*DBL_EPSILON*(fabs(c.t0)+fabs(c.T)); size_t nmin=(size_t)floor((fabs(c.T)-eps)/d)+1, nmax=(size_t)floor((fabs(c.T)+eps)/d)+1;
    if(!check(t.size()>=nmin&&t.size()<=nmax,"%s: %d points instead of %d",what,(int)t.size(),(int)nmax)) return;
    for(size_t i=0;i<t.size();i++) { double tt=c.t0+(c.T<0?-1:1)*d*i; check(fabs(t[i].second-tt)<=eps,"%s: time of the point %d is %.17g instead of %.17g",what,(int)i,t[i].second,tt); S.states++; }
    double e0=dist(t[0].first,ic); check(e0<=1e-12*(1+fabs(c.t0*c.Om)),"%s: the first point differs from the initial conditions by %g",what,e0);
    if(fabs((nmax-1)*d-fabs(c.T))<=eps) { double e1=dist(t.back().first,end); check(e1<=1e-9,"%s: the last point differs from the final state by %g",what,e1); } (void)tol; }
static void mainChecks(int ip,const BasePotential& P,const PosVelCar& ic,Cfg c,bool herm,double scale) {
    double tol=(herm?2e-3:ip==5?6e-5:TOL[ip])*scale*(c.par.accuracy>1e-8?30:1)*(c.coord==2?8:1)*(ip==5&&fabs(c.t0)>100?60:1); static const int ND=8; static const double DIV[ND]={1,2,3,4,7,10,0.37,2.6};
    int full=herm||c.coord? 15:63;
    for(int idiv=0;idiv<ND;idiv++) { c.da=fabs(c.T)/DIV[idiv]; c.db=fabs(c.T)/DIV[(idiv+3)%ND];
        Rec all=go(P,ic,c,full), none=go(P,ic,c,0);
        check(bits(all.end,none.end),"final state depends on the recorded quantities (difference %g)",dist(all.end,none.end));
        sampling("trajectory",all.a,c,c.da,ic,all.end,tol); sampling("second trajectory",all.b,c,c.db,ic,all.end,tol);
        if(check(all.inf.size()==1,"%d points instead of the final one",(int)all.inf.size())) check(all.inf[0].second==c.t0+c.T&&bits(all.inf[0].first,all.end),"final point at t=%.17g differs from the final state by %g",all.inf[0].second,dist(all.inf[0].first,all.end));
        if(check(all.z.size()>=2,"no steps")) { check(all.z[0].second==c.t0&&all.z.back().second==c.t0+c.T,"time range of the natural trajectory is %.17g..%.17g",all.z[0].second,all.z.back().second); check(dist(all.z[0].first,ic)<1e-12*(1+fabs(c.Om*c.t0)),"first point of the natural trajectory differs from the initial conditions by %g",dist(all.z[0].first,ic)); check(bits(all.z.back().first,all.end),"last point of the natural trajectory");
            for(size_t i=1;i<all.z.size();i++) check((all.z[i].second-all.z[i-1].second)*c.T>0,"times are not monotonic"); }
        // accuracy with respect to the reference at the requested times
        if(idiv==5||idiv==7||(thorough()&&idiv!=6)) { size_t n=all.a.size(); PosVelCar x=ic; double tp=c.t0; for(size_t i=1;i<n;i++) { x=refint(P,c.Om,x,tp,all.a[i].second-tp,2000/n+50); tp=all.a[i].second; double e=dist(x,all.a[i].first); maxerr=fmax(maxerr,e/tol); if(!check(e<tol,"point at t=%.17g differs from the reference by %g",tp,e)) break; }
            for(size_t i=0;i<all.z.size();i++) if(STATIC[ip]) { double e=energy(P,all.z[i].first,c.Om,all.z[i].second)-energy(P,ic,c.Om,c.t0); maxE=fmax(maxE,fabs(e)/tol); if(!check(fabs(e)<tol*3,"energy at t=%.17g differs from the initial one by %g",all.z[i].second,e)) break; }
            for(size_t i=0;i<all.b.size();i++) if(STATIC[ip]) { double e=energy(P,all.b[i].first,c.Om,all.b[i].second)-energy(P,ic,c.Om,c.t0); if(!check(fabs(e)<tol*3,"energy at t=%.17g differs from the initial one by %g",all.b[i].second,e)) break; } }
        // subsets of recorded quantities, in both orders
        if(idiv==1||idiv==4||idiv==6||thorough()) for(int mask=1;mask<=full;mask++) for(int rev=0;rev<2;rev++) { if(mask==(mask&-mask)&&rev) continue; Rec r=go(P,ic,c,mask,V(),rev); S.transitions++;
            check(bits(r.end,none.end),"mask %d: final state differs by %g",mask,dist(r.end,none.end)); if(mask&TRA) sameTraj("first",r.a,all.a); if(mask&TRB) sameTraj("second",r.b,all.b); if(mask&TR0) sameTraj("natural",r.z,all.z); if(mask&TRI) sameTraj("final",r.inf,all.inf);
            if((mask&VAR)) for(int k=0;k<6;k++) sameTraj("deviation vectors",r.dev[k],all.dev[k]); if((mask&(VAR|LYA))==(VAR|LYA)) check(r.lyap==all.lyap||(r.lyap!=r.lyap&&all.lyap!=all.lyap),"Lyapunov exponent %g instead of %g",r.lyap,all.lyap); outcome(fmt("mask %d",mask)); }
        // deviation vectors: same times as the trajectory, identity at the start, canonical transformation afterwards
        if(full&VAR) for(int k=0;k<6;k++) if(check(all.dev[k].size()==all.a.size(),"%d deviation vectors for %d points",(int)all.dev[k].size(),(int)all.a.size())) for(size_t i=0;i<all.a.size();i++) check(fabs(all.dev[k][i].second-all.a[i].second)<=20*DBL_EPSILON*(fabs(c.t0)+fabs(c.T)),"deviation vector %d has time %.17g instead of %.17g",k,all.dev[k][i].second,all.a[i].second);
        if((full&VAR)) for(size_t i=0;i<all.a.size();i++) { double D[6][6],m=0; bool ok=true; for(int k=0;k<6;k++) if(i<all.dev[k].size()) all.dev[k][i].first.unpack_to(D[k]); else ok=false; if(!ok) break; for(int k=0;k<6;k++) for(int j=0;j<6;j++) m=fmax(m,fabs(D[k][j]));
            if(i==0) for(int k=0;k<6;k++) for(int j=0;j<6;j++) check(fabs(D[k][j]-(k==j))<1e-12*(1+fabs(c.Om*c.t0)),"initial deviation vector");
            for(int k=0;k<6;k++) for(int j=0;j<k;j++) { double w=0; for(int d=0;d<3;d++) w+=D[k][d]*D[j][d+3]-D[k][d+3]*D[j][d]; double x=(k==j+3)?-1:0; maxsym=fmax(maxsym,fabs(w-x)/(m*m)); if(!check(fabs(w-x)<1.2e-1*m*m*(c.par.accuracy>1e-8?10:1),"deviation vectors %d,%d at t=%.17g: symplectic product %g instead of %g",k,j,all.a[i].second,w,x)) i=all.a.size(); } }
        // ... and the derivatives of the flow
        if((full&VAR)&&(idiv==2)&&TOL[ip]<1e-5) { size_t i=all.a.size()-1; for(int k=0;k<6;k++) { S6 p=s6(ic),m=p; double h=1e-4; p.v[k]+=h; m.v[k]-=h; Cfg q=c; S6 a=s6(go(P,PosVelCar(p.v),q,0).end),b=s6(go(P,PosVelCar(m.v),q,0).end),d=s6(all.dev[k][i].first); double mx=1; for(int j=0;j<6;j++) mx=fmax(mx,fabs(d.v[j])); for(int j=0;j<6;j++) check(fabs((a.v[j]-b.v[j])/(2*h)-d.v[j])<2e-3*mx*scale,"deviation vector %d component %d at the end is %g instead of %g",k,j,d.v[j],(a.v[j]-b.v[j])/(2*h)); } }
    }
    // all partitions into consecutive runs
    c.da=fabs(c.T)/8; c.db=fabs(c.T)/2.6; Rec all=go(P,ic,c,full); double ptol=herm? 2e-3*scale: tol;
    for(int m=0;m<16;m++) { V parts; double last=0; static const double F[5]={0.125,0.4,0.5,0.97,1}; for(int i=0;i<5;i++) if(i==4||(m>>i&1)) { parts.push_back(c.T*F[i]-last); last=c.T*F[i]; } S.transitions+=parts.size();
        Rec r=go(P,ic,c,full,parts); double e=dist(r.end,all.end); maxpart=fmax(maxpart,e/ptol); check(e<ptol,"partition %d: final state differs by %g",m,e);
        if(check(r.a.size()==all.a.size(),"partition %d: %d points instead of %d",m,(int)r.a.size(),(int)all.a.size())) for(size_t i=0;i<r.a.size();i++) { check(fabs(r.a[i].second-all.a[i].second)<=30*DBL_EPSILON*(fabs(c.t0)+fabs(c.T)),"partition %d: time %.17g instead of %.17g",m,r.a[i].second,all.a[i].second); double q=dist(r.a[i].first,all.a[i].first); maxpart=fmax(maxpart,q/ptol); if(!check(q<ptol,"partition %d: point at t=%.17g differs by %g",m,all.a[i].second,q)) break; }
        if(check(r.b.size()==all.b.size(),"partition %d: %d points instead of %d",m,(int)r.b.size(),(int)all.b.size())) for(size_t i=0;i<r.b.size();i++) check(dist(r.b[i].first,all.b[i].first)<ptol,"partition %d: second trajectory point %d differs by %g",m,(int)i,dist(r.b[i].first,all.b[i].first));
        if(!r.inf.empty()) check(bits(r.inf[0].first,r.end),"partition %d: final point",m); for(size_t i=1;i<r.z.size();i++) check((r.z[i].second-r.z[i-1].second)*c.T>0,"partition %d: times are not monotonic",m);
        outcome(fmt("partition %d",m)); }
    // there and back again
    { std::unique_ptr<BaseOrbitIntegrator> o(mk(P,c)); o->init(ic,c.t0); PosVelCar e=o->run(c.T); std::unique_ptr<BaseOrbitIntegrator> q(mk(P,c)); q->init(e,c.t0+c.T); PosVelCar b=q->run(-c.T); check(dist(b,ic)<2*ptol,"backward integration from the end differs from the initial conditions by %g",dist(b,ic)); S.transitions+=2;
      e=o->run(-c.T); check(dist(e,ic)<2*ptol,"reversed run differs from the initial conditions by %g",dist(e,ic)); e=o->run(0); check(dist(e,ic)<2*ptol,"run for zero time"); }
    // limited number of steps, every length up to that of the full orbit; early termination by a runtime function; change of state by a runtime function
    { Cfg q=c; int n=all.z.size()-1; for(int k=1;k<=n+1&&k<=(thorough()?200:12);k++) { q.par.maxNumSteps=k; Rec r=go(P,ic,q,TR0|TRI); size_t w=std::min(k,n)+1; if(check(r.z.size()==w,"%d points for %d steps",(int)r.z.size(),k)) for(size_t i=0;i<w-1;i++) check(bits(r.z[i].first,all.z[i].first)&&r.z[i].second==all.z[i].second,"%d steps: point %d differs",k,(int)i); check(bits(r.z.back().first,r.end)&&bits(r.inf[0].first,r.end),"%d steps: final state",k);
        struct Stop: BaseRuntimeFnc { int n; bool kick; PosVelCar st; double t; Stop(BaseOrbitIntegrator& o,int _n,bool k): BaseRuntimeFnc(o), n(_n), kick(k), st(0,0,0,0,0,0), t(NAN) {} bool processTimestep(double,double tend) { if(--n>0||t==t) return true; st=orbint.getSol(tend); t=tend; if(!kick) return false; st.vx+=0.1; st.x+=0.01; orbint.init(st,tend); return true; } };
        for(int kick=0;kick<2;kick++) { Rec s; std::unique_ptr<BaseOrbitIntegrator> o(mk(P,c)); Stop* f=new Stop(*o,k,kick); attach(*o,s,c,TR0|TRA); o->addRuntimeFnc(PtrRuntimeFnc(f)); o->init(ic,c.t0); s.end=o->run(c.T); S.transitions++;
            if(!kick) { check(s.z.size()==w&&bits(s.end,s.z.back().first),"stopped after %d steps: %d points",k,(int)s.z.size()); for(size_t i=0;i<s.a.size()&&i<all.a.size();i++) check(bits(s.a[i].first,all.a[i].first),"stopped after %d steps: point %d differs by %g",k,(int)i,dist(s.a[i].first,all.a[i].first)); }
            else if(k<n&&fabs(c.T)<10) { Cfg d=c; d.t0=f->t; d.T=c.t0+c.T-f->t; Rec e=go(P,f->st,d,0); check(dist(e.end,s.end)<ptol*2,"state changed at step %d: final state differs by %g",k,dist(e.end,s.end)); check(s.a.size()==all.a.size(),"state changed at step %d: %d points",k,(int)s.a.size()); } } } }
}
int main(int argc,char** argv) {
    vh::init(argc,argv); utils::msg=models::silent; models::auxFiles(); bool T=thorough();
    static const double TS[]={2,-2,0.3,12}, T0[]={0,0.8,-2.5,300}, OM[]={0,0.3,-1.7};
    potential::PtrPotential P[NPOT];
    for(int ip=0;ip<NPOT;ip++) for(int ic=0;ic<(T?NIC:2);ic++) for(int co=0;co<3;co++) for(int it=0;it<4;it++) for(int i0=0;i0<4;i0++) for(int io=0;io<3;io++) for(int v=0;v<3;v++) { // v: accurate, inaccurate, Hermite
        if(v==2&&(co||io||!(STATIC[ip]))) continue; // Hermite: static potentials only (see known_findings)
        if(!T&&((it==3&&(i0>1||ic!=(ip+io+i0)%2))||(i0==3&&it!=0)||(co&&(i0&1))||(v==1&&it!=1))) continue; if(it==3&&(v==2||ip==7||ip==3)) continue;  if(co==2&&it==3) continue;
        if(!begin(fmt("pot=%d ic=%d coord=%d T=%d t0=%d Omega=%d variant=%d",ip,(ic+ip)%NIC,co,it,i0,io,v))) continue;
        if(!P[ip]) P[ip]=models::pot(POTS[ip]);
        Cfg c; c.coord=co; c.T=TS[it]; c.t0=T0[i0]; c.Om=OM[io]; if(v==1) c.par.accuracy=1e-6; c.par.useHermite=v==2; c.par.maxNumSteps=200000;
        mainChecks(ip,*P[ip],PosVelCar(ICS[(ic+ip)%NIC]),c,v==2,it==3?300:1); }
    // trajectory of the convenience routine is that of the class
    for(int ip=0;ip<NPOT;ip++) for(int io=0;io<3;io++) for(int h=0;h<2;h++) { if(h&&(io||!STATIC[ip])) continue; if(!begin(fmt("integrateTraj pot=%d Omega=%d hermite=%d",ip,io,h))) continue; if(!P[ip]) P[ip]=models::pot(POTS[ip]); for(int it=0;it<3;it++) for(int i0=0;i0<4;i0++) for(int d=0;d<4;d++) { Cfg c; c.T=TS[it]; c.t0=T0[i0]; c.Om=OM[io]; c.par.useHermite=h; static const double D[]={0,0.1,0.25,1}; c.da=D[d]; PosVelCar ic(ICS[ip%NIC]); Rec r=go(*P[ip],ic,c,TRA); sameTraj("integrateTraj",integrateTraj(ic,c.T,c.da,*P[ip],c.Om,c.par,c.t0),r.a); outcome(fmt("integrateTraj %d",d)); } }
    // degenerate initial conditions: in planes, along axes, at the centre (not rotated)
    for(int ip=0;ip<NPOT;ip++) for(int m=0;m<64;m++) for(int co=0;co<1;co++) { if(ip==3||ip==5||ip==9||ip==4||ip==7) continue; if(!begin(fmt("degenerate pot=%d mask=%d",ip,m))) continue; if(!P[ip]) P[ip]=models::pot(POTS[ip]); S6 s; for(int k=0;k<6;k++) s.v[k]=(m>>k&1)?ICS[0][k]:0; PosVelCar ic(s.v); Cfg c; c.T=3; c.da=0.5; c.coord=co; c.par.maxNumSteps=20000; Rec r=go(*P[ip],ic,c,TRA|TR0); if(ip==10&&(m&7)==0) continue; // cusp
        check(r.z.back().second==3,"integration stopped at t=%g",r.z.back().second); sampling("degenerate",r.a,c,c.da,ic,r.end,1e-6); PosVelCar e=refint(*P[ip],0,ic,0,3,6000); double sc=ip==10?3e-3:1e-5*(TOL[ip]/1e-6); check(dist(e,r.end)<sc,"final state differs from the reference by %g",dist(e,r.end));
        // orbits confined to a plane stay there exactly
        if(ip<3||ip==8) for(int k=0;k<3;k++) if(!(m>>k&1)&&!(m>>(k+3)&1)) for(size_t i=0;i<r.a.size();i++) { S6 q=s6(r.a[i].first); check(q.v[k]==0&&q.v[k+3]==0,"coordinate %d becomes %g",k,q.v[k]); } outcome("degenerate"); }
    // known limitation: see known_findings.jsonl
    if(begin("rotated-planar-orbit")) { potential::PtrPotential p=models::pot(POTS[0]); Cfg c; c.T=0.1; c.Om=0.3; c.par.maxNumSteps=20000; Rec r=go(*p,PosVelCar(1,0,0,0,0,0),c,TR0); check(r.z.back().second==0.1,"integration of a radial orbit along the x axis in a spherical potential in the rotating frame has not reached the end after 20000 steps (stopped at t=%g)",r.z.back().second); }
    if(begin("hermite-time-dependent")) { potential::PtrPotential p=models::pot(POTS[3]); Cfg c; c.T=2; c.t0=-2.5; c.par.useHermite=true; c.par.maxNumSteps=20000; Rec r=go(*p,PosVelCar(ICS[0]),c,TR0); check(r.z.back().second==-0.5,"Hermite integration in a time-dependent potential has not reached the end after 20000 steps (stopped at t=%g)",r.z.back().second); }
    S.extra["max_error_relative_to_tolerance"]=maxerr; S.extra["max_partition_difference"]=maxpart; S.extra["max_symplectic_error"]=maxsym; S.extra["max_energy_error"]=maxE;
    return finish();
}
