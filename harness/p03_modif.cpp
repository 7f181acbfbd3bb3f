// P03: modifiers (Shifted, Tilted, Rotating, Scaled), Composite, Evolving, UniformAcceleration against reference formulae.
// Enumerates all combinations of modifier kinds x forms of their arguments x base models x times x points x coordinate
// systems x subsets of outputs; all keyword orders; all layerings of up to 3 modifiers; all assignments of modifiers to
// components; the reference evaluates the unmodified model at the reference-transformed point in Cartesian coordinates.
#include "models.h"
#include "math_spline.h"
#include "ad.h"
#include "units.h"
#include <algorithm>
#include <memory>
using namespace vh; using namespace coord; using namespace potential; using ad::D; using ad::L;
typedef utils::KeyValueMap KV;
struct Ref { double v; double g[3]; double h[6]; double rho; double sv,sg,sh,sr; };  // Cartesian: xx,yy,zz,xy,yz,xz; s*: scales for tolerances
static double tolv=3e-12;
// ---- modifier menu
struct Mod { int kind; std::string arg; int form; };   // kind 0 scale,1 rotation,2 orientation,3 center
static const char* KEY[4]={"scale","rotation","orientation","center"};
struct Spl { std::vector<math::CubicSpline> s; };
static std::string tab2str(const std::vector<std::vector<double> >& t) { std::string s="["; for(size_t i=0;i<t.size();i++) { s+=i?",[":"["; for(size_t k=0;k<t[i].size();k++) s+=(k?",":"")+utils::toString(t[i][k],17); s+="]"; } return s+"]"; }
static std::string tab2file(const std::string& name,const std::vector<std::vector<double> >& t,bool nl=true) { std::string s="#time values\n"; for(size_t i=0;i<t.size();i++) { for(size_t k=0;k<t[i].size();k++) s+=(k?(i%2?"\t":" "):"")+utils::toString(t[i][k],17); if(i<t.size()-1||nl) s+="\n"; } models::writeFile(name,s); return S.scratch+"/"+name; }
typedef std::vector<std::vector<double> > Tab;
static Tab table(int kind,int rows,bool der) {   // deterministic smooth-ish data
    static const int K[4]={2,1,3,3}; int k=K[kind]; Tab t; for(int i=0;i<rows;i++) { std::vector<double> r; r.push_back(-0.5+i*1.25+0.1*i*i); for(int j=0;j<k;j++) r.push_back(kind==0 ? (j?0.6:1.5)+0.3*sin(i*1.3+j) : kind==1 ? 0.4+0.7*i-0.2*(i%2) : 0.3*cos(i*0.9+j*2)+0.1*j); if(der) for(int j=0;j<k;j++) r.push_back(0.1*(j+1)-0.07*i); t.push_back(r); } return t; }
static int Kof(int kind) { static const int K[4]={2,1,3,3}; return K[kind]; }
static const int NFORM[4]={8,8,2,8};
// form 0: absent; 1: constant; 2: inline 2-row table; 3: inline 4-row with derivatives; 4: file 4 rows; 5: file 3 rows with derivs; 6: constant in brackets; 7: file, 1 row, no final newline
static bool getmod(int kind,int form,double tu,double vu,Mod& m,Spl& sp) {
    m.kind=kind; m.form=form; sp.s.clear(); if(form==0) return false; int K=Kof(kind);
    if(kind==2) { m.arg = "0.4,1.1,-0.7"; return true; }
    if(form==1||form==6) { static const double C[4][3]={{1.7,0.6,0},{0.9,0,0},{0,0,0},{0.3,-0.2,0.5}}; std::string a; for(int k=0;k<K;k++) { a+=(k?(form==6?", ":","):"")+utils::toString(C[kind][k],17); sp.s.push_back(math::CubicSpline(std::vector<double>(1,0.),std::vector<double>(1,C[kind][k]*vu))); } m.arg=form==6?"["+a+"]":a; return true; }
    static const int ROWS[8]={0,0,2,4,4,3,0,1}; bool der=form==3||form==5; Tab t=table(kind,ROWS[form],der);
    m.arg = form==2||form==3 ? tab2str(t) : tab2file(fmt("mod%d_%d.txt",kind,form),t,form!=7);
    std::vector<double> x; for(size_t i=0;i<t.size();i++) x.push_back(t[i][0]*tu);
    for(int k=0;k<K;k++) { std::vector<double> v,d; for(size_t i=0;i<t.size();i++) { v.push_back(t[i][k+1]*vu); if(der) d.push_back(t[i][k+1+K]*vu/tu); } sp.s.push_back(der?math::CubicSpline(x,v,d):math::CubicSpline(x,v,true)); }
    return true; }
// reference affine map  y = M x + b,  value factor A/S
struct Aff { double M[9],b[3],A,S; };
static Aff ident() { Aff a; for(int i=0;i<9;i++) a.M[i]=i%4==0; a.b[0]=a.b[1]=a.b[2]=0; a.A=a.S=1; return a; }
static void mulm(const double* a,const double* b,double* c) { for(int i=0;i<3;i++) for(int j=0;j<3;j++) { L s=0; for(int k=0;k<3;k++) s+=(L)a[i*3+k]*b[k*3+j]; c[i*3+j]=s; } }
// append a transformation applied after the existing ones on the way inwards
static void inward(Aff& a,int kind,const Spl& sp,double t) {
    double M[9],b[3]; 
    if(kind==3) { for(int i=0;i<3;i++) a.b[i]-=sp.s[i](t); return; }
    double R[9];
    if(kind==0) { double A=sp.s[0](t),s=sp.s[1](t); for(int i=0;i<9;i++) R[i]=i%4==0?1/s:0; a.A*=A; a.S*=s; }
    else if(kind==1) { double q=sp.s[0](t); double T[9]={cos(q),sin(q),0,-sin(q),cos(q),0,0,0,1}; memcpy(R,T,sizeof R); }
    else { double al=0.4,be=1.1,ga=-0.7; double A1[9]={cos(al),sin(al),0,-sin(al),cos(al),0,0,0,1},B1[9]={1,0,0,0,cos(be),sin(be),0,-sin(be),cos(be)},C1[9]={cos(ga),sin(ga),0,-sin(ga),cos(ga),0,0,0,1},T[9]; mulm(B1,A1,T); mulm(C1,T,R); }
    mulm(R,a.M,M); memcpy(a.M,M,sizeof M); for(int i=0;i<3;i++) { b[i]=0; for(int k=0;k<3;k++) b[i]+=R[i*3+k]*a.b[k]; } memcpy(a.b,b,sizeof b); }
static Ref transform(const BasePotential& base,const Aff& a,const double x[3],double t) {
    double y[3]; for(int i=0;i<3;i++) { y[i]=a.b[i]; for(int k=0;k<3;k++) y[i]+=a.M[i*3+k]*x[k]; }
    double v; GradCar g; HessCar h; base.eval(PosCar(y[0],y[1],y[2]),&v,&g,&h,t);
    Ref r; double f=a.A/a.S; r.v=v*f; double G[3]={g.dx,g.dy,g.dz},H[9]={h.dx2,h.dxdy,h.dxdz,h.dxdy,h.dy2,h.dydz,h.dxdz,h.dydz,h.dz2},T[9],Q[9],MT[9];
    for(int i=0;i<3;i++) { r.g[i]=0; for(int k=0;k<3;k++) { r.g[i]+=f*a.M[k*3+i]*G[k]; MT[i*3+k]=a.M[k*3+i]; } } mulm(MT,H,T); mulm(T,a.M,Q); double HH[6]={Q[0],Q[4],Q[8],Q[1],Q[5],Q[2]};
    for(int i=0;i<6;i++) r.h[i]=HH[i]*f;
    r.rho=base.density(PosCar(y[0],y[1],y[2]),t)*a.A/(a.S*a.S*a.S);
    double hs=0,gs=0; for(int i=0;i<9;i++) hs=fmax(hs,fabs(Q[i]*f)); for(int i=0;i<3;i++) gs=fmax(gs,fabs(r.g[i]));
    r.sh=hs; r.sg=gs+hs*0.3; r.sv=fabs(r.v)+gs; r.sr=fabs(r.rho)+hs; return r; }
static Ref sum(const Ref& a,const Ref& b) { Ref r; r.v=a.v+b.v; r.rho=a.rho+b.rho; for(int i=0;i<3;i++) r.g[i]=a.g[i]+b.g[i]; for(int i=0;i<6;i++) r.h[i]=a.h[i]+b.h[i]; r.sv=a.sv+b.sv; r.sg=a.sg+b.sg; r.sh=a.sh+b.sh; r.sr=a.sr+b.sr; return r; }
static Ref lin(const Ref& a,double wa,const Ref& b,double wb) { Ref r; r.v=wa*a.v+wb*b.v; r.rho=wa*a.rho+wb*b.rho; for(int i=0;i<3;i++) r.g[i]=wa*a.g[i]+wb*b.g[i]; for(int i=0;i<6;i++) r.h[i]=wa*a.h[i]+wb*b.h[i]; r.sv=a.sv+b.sv; r.sg=a.sg+b.sg; r.sh=a.sh+b.sh; r.sr=a.sr+b.sr; return r; }
// convert the Cartesian reference to a curvilinear system by exact differentiation of the map q -> x
static void curv(const Ref& r,int cs,const double q[3],double g[3],double h[6]) {
    D a=ad::var(q[0],0),b=ad::var(q[1],1),c=ad::var(q[2],2),X[3];
    if(cs==1) { X[0]=a*cos(c); X[1]=a*sin(c); X[2]=b; } else { X[0]=a*sin(b)*cos(c); X[1]=a*sin(b)*sin(c); X[2]=a*cos(b); }
    double H[9]={r.h[0],r.h[3],r.h[5],r.h[3],r.h[1],r.h[4],r.h[5],r.h[4],r.h[2]};
    for(int i=0;i<3;i++) { L s=0; for(int k=0;k<3;k++) s+=X[k].g[i]*r.g[k]; g[i]=s; }
    for(int m=0;m<6;m++) { int i=ad::IX[m],j=ad::IY[m]; L s=0; for(int k=0;k<3;k++) { s+=X[k].h[m]*r.g[k]; for(int l=0;l<3;l++) s+=X[k].g[i]*X[l].g[j]*H[k*3+l]; } h[m]=s; } }
static const double PT[][3]={{0.7,0.4,-0.3},{-1.1,0.25,0.6},{0.2,-0.9,1.3},{-0.35,-0.6,-0.15},{3.1,1.7,2.2}};
static void compare(const BasePotential& p,const Ref& r,const double x[3],double t,const std::string& w) {
    double R=hypot(x[0],x[1]),rr=sqrt(R*R+x[2]*x[2]),ph=atan2(x[1],x[0]); PosCyl pc(R,x[2],ph); PosSph ps(rr,atan2(R,x[2]),ph); PosCar px(x[0],x[1],x[2]);
    for(int m=1;m<8;m++) { double v=0; GradCar g; HessCar h; p.eval(px,m&1?&v:0,m&2?&g:0,m&4?&h:0,t);
        if(m&1) check(fabs(v-r.v)<=tolv*r.sv,"%s: potential %.15g instead of %.15g (outputs %d)",w.c_str(),v,r.v,m);
        if(m&2) { double G[3]={g.dx,g.dy,g.dz}; for(int i=0;i<3;i++) check(fabs(G[i]-r.g[i])<=tolv*r.sg,"%s: gradient[%d] %.15g instead of %.15g (outputs %d)",w.c_str(),i,G[i],r.g[i],m); }
        if(m&4) { double H[6]={h.dx2,h.dy2,h.dz2,h.dxdy,h.dydz,h.dxdz}; for(int i=0;i<6;i++) check(fabs(H[i]-r.h[i])<=30*tolv*r.sh,"%s: hessian[%d] %.15g instead of %.15g (outputs %d)",w.c_str(),i,H[i],r.h[i],m); } }
    for(int cs=1;cs<=2;cs++) { double q[3],g[3],h[6],k=cs==1?fmax(1,R):fmax(1,rr); if(cs==1) { q[0]=R;q[1]=x[2];q[2]=ph; } else { q[0]=rr;q[1]=ps.theta;q[2]=ph; } curv(r,cs,q,g,h);
        for(int m=1;m<8;m++) { double v=0,G[3],H[6]; if(cs==1) { GradCyl gc; HessCyl hc; p.eval(pc,m&1?&v:0,m&2?&gc:0,m&4?&hc:0,t); double a[3]={gc.dR,gc.dz,gc.dphi},b[6]={hc.dR2,hc.dz2,hc.dphi2,hc.dRdz,hc.dzdphi,hc.dRdphi}; memcpy(G,a,sizeof a); memcpy(H,b,sizeof b); }
            else { GradSph gc; HessSph hc; p.eval(ps,m&1?&v:0,m&2?&gc:0,m&4?&hc:0,t); double a[3]={gc.dr,gc.dtheta,gc.dphi},b[6]={hc.dr2,hc.dtheta2,hc.dphi2,hc.drdtheta,hc.dthetadphi,hc.drdphi}; memcpy(G,a,sizeof a); memcpy(H,b,sizeof b); }
            if(m&1) check(fabs(v-r.v)<=tolv*r.sv,"%s: potential in CS %d %.15g instead of %.15g",w.c_str(),cs,v,r.v);
            if(m&2) for(int i=0;i<3;i++) check(fabs(G[i]-g[i])<=3*tolv*k*r.sg,"%s: CS %d gradient[%d] %.15g instead of %.15g (outputs %d)",w.c_str(),cs,i,G[i],g[i],m);
            if(m&4) for(int i=0;i<6;i++) check(fabs(H[i]-h[i])<=100*tolv*k*k*(r.sh+r.sg),"%s: CS %d hessian[%d] %.15g instead of %.15g (outputs %d)",w.c_str(),cs,i,H[i],h[i],m); } }
    double d0=p.density(px,t),d1=p.density(pc,t),d2=p.density(ps,t); check(fabs(d0-r.rho)<=1e-9*r.sr&&fabs(d1-r.rho)<=1e-9*r.sr&&fabs(d2-r.rho)<=1e-9*r.sr,"%s: density %.15g %.15g %.15g instead of %.15g",w.c_str(),d0,d1,d2,r.rho);
}
// arrays of points: the same as individual points
static void many(const BaseDensity& d,double t,const std::string& w) {
    PosCar a[5]; PosCyl b[5]; PosSph c[5]; double v[5]; for(int i=0;i<5;i++) { a[i]=PosCar(PT[i][0],PT[i][1],PT[i][2]); b[i]=toPosCyl(a[i]); c[i]=toPosSph(a[i]); }
    d.evalmanyDensityCar(5,a,v,t); for(int i=0;i<5;i++) { double e=d.density(a[i],t); check(close(v[i],e,1e-9,1e-300)||fabs(v[i]-e)<1e-9,"%s: evalmany Cartesian [%d] %.15g instead of %.15g",w.c_str(),i,v[i],e); }
    d.evalmanyDensityCyl(5,b,v,t); for(int i=0;i<5;i++) { double e=d.density(b[i],t); check(close(v[i],e,1e-9,1e-300)||fabs(v[i]-e)<1e-9,"%s: evalmany cylindrical [%d] %.15g instead of %.15g",w.c_str(),i,v[i],e); }
    d.evalmanyDensitySph(5,c,v,t); for(int i=0;i<5;i++) { double e=d.density(c[i],t); check(close(v[i],e,1e-9,1e-300)||fabs(v[i]-e)<1e-9,"%s: evalmany spherical [%d] %.15g instead of %.15g",w.c_str(),i,v[i],e); } }
static const double TIMES[]={0,-1.2,0.4,1.9,3.3,7};
static const char* BASE[]={ "type=Logarithmic v0=0.9 scaleRadius=0.4 p=0.8 q=0.6", "type=MiyamotoNagai mass=1.3 scaleRadius=0.8 scaleHeight=0.3", "type=Plummer mass=2 scaleRadius=0.7",
    "type=KeplerBinary mass=2 binary_q=0.5 binary_sma=0.5 binary_ecc=0.3 binary_phase=1", "type=BasisSet density=Dehnen gamma=0 p=0.8 q=0.6 nmax=4 lmax=4 eta=1.5 r0=0.8", "type=PerfectEllipsoid mass=1 scaleRadius=1.4 q=0.6",
    "type=Dehnen gamma=1 scaleRadius=0.9 p=0.9 q=0.7" };
static const int NB=7;
static units::ExternalUnits mkunits(int u) { if(u==0) return units::ExternalUnits(); static units::InternalUnits iu(2.3*units::Kpc,0.7*units::Myr); return units::ExternalUnits(iu,0.5*units::Kpc,40*units::kms,3*units::Msun); }
static KV kv(const std::string& s) { return models::parse(s)[0]; }
static void part_combos() {
    for(int u=0;u<2;u++) { units::ExternalUnits eu=mkunits(u);
    for(int b=0;b<NB;b++) { if(u && b>2) continue;
    for(int f0=0;f0<8;f0++) for(int f1=0;f1<8;f1++) for(int f2=0;f2<2;f2++) for(int f3=0;f3<8;f3++) {
        // every pair of argument forms for every base; complete products of constants/tables for the first three bases
        int nz=(f0>0)+(f1>0)+(f2>0)+(f3>0); int odd=(f0>2)+(f1>2)+(f3>2); if(!thorough() && nz>2 && (b>=3||odd>1)) continue; if(!thorough() && b>=3 && odd>1) continue;
        if(!begin(fmt("combo:u%d:b%d:%d%d%d%d",u,b,f0,f1,f2,f3))) continue;
        static std::map<int,PtrPotential> cache; PtrPotential& base=cache[u*100+b]; if(!base) base=createPotential(models::parse(BASE[b]),eu);
        int F[4]={f0,f1,f2,f3}; Mod m[4]; Spl sp[4]; bool on[4]; std::string spec=BASE[b]; for(int k=0;k<4;k++) on[k]=getmod(k,F[k],eu.timeUnit,k==3?eu.lengthUnit:1,m[k],sp[k]);
        std::vector<KV> kvs=models::parse(BASE[b]); for(int k=0;k<4;k++) if(on[k]) kvs[0].set(KEY[k],m[k].arg);
        PtrPotential p; try { p=createPotential(kvs,eu); } catch(std::exception& e) { check(false,"exception %s",e.what()); continue; }
        double sc = u ? eu.lengthUnit : 1;
        for(int it=0;it<6;it++) { if(!thorough() && it>2 && odd==0 && (f0|f1|f3)<2) break; double t=TIMES[it]*eu.timeUnit; Aff a=ident(); for(int k=3;k>=0;k--) if(on[k]) inward(a,k,sp[k],t);
            for(int ip=0;ip<(thorough()?5:3);ip++) { double x[3]={PT[ip][0]*sc,PT[ip][1]*sc,PT[ip][2]*sc}; Ref r=transform(*base,a,x,t); S.states++; compare(*p,r,x,t,fmt("t=%g point %d",TIMES[it],ip)); } many(*p,t,fmt("t=%g",TIMES[it])); }
        if(on[0]) check(close(p->totalMass(),base->totalMass()*sp[0].s[0](0),1e-12)||!std::isfinite(base->totalMass()),"total mass"); else check(close(p->totalMass(),base->totalMass(),1e-12),"total mass %g instead of %g",p->totalMass(),base->totalMass());
        outcome(fmt("c%d%d%d%d",f0>0,f1>0,f2>0,f3>0)); } } } }
// all keyword orders give the identical object
static void part_order() { PtrPotential base=createPotential(models::parse(BASE[0])); 
    for(int f=1;f<8;f++) { Mod m[4]; Spl sp[4]; std::string keys[5]; for(int k=0;k<4;k++) { getmod(k,k==2?1:f,1,1,m[k],sp[k]); keys[k]=KEY[k]; } keys[4]="type";
    int perm[5]={0,1,2,3,4}; double v0=0; GradCar g0; bool first=true; int n=0;
    do { n++; if(!begin(fmt("order:%d:%d%d%d%d%d",f,perm[0],perm[1],perm[2],perm[3],perm[4]))) continue; KV k; KV src=kv(BASE[0]); std::vector<std::string> sk=src.keys();
        for(int i=0;i<5;i++) if(perm[i]<4) k.set(KEY[perm[i]],m[perm[i]].arg); else for(size_t q=0;q<sk.size();q++) k.set(sk[q],src.getString(sk[q]));
        PtrPotential p=createPotential(k); Aff a=ident(); for(int q=3;q>=0;q--) inward(a,q,sp[q],0.4); for(int ip=0;ip<3;ip++) { Ref r=transform(*base,a,PT[ip],0.4); compare(*p,r,PT[ip],0.4,"order"); }
        // identical up to the last bit whatever the order
        double v; GradCar g; p->eval(PosCar(PT[1][0],PT[1][1],PT[1][2]),&v,&g,NULL,0.4); static std::map<int,std::pair<double,double> > memo; if(!memo.count(f)) memo[f]=std::make_pair(v,g.dx); check(memo[f].first==v&&memo[f].second==g.dx,"depends on the order of keywords"); (void)v0;(void)g0;(void)first;
        outcome("order"); } while(std::next_permutation(perm,perm+5)); } }
// dressing up an existing object layer by layer: all sequences of at most 3 modifiers, potentials and densities
static void part_layers() { static const char* DB[]={"type=Spheroid densityNorm=0.5 alpha=2 beta=5 gamma=0 p=0.9 q=0.6","type=Dehnen gamma=1 p=0.8 q=0.6 mass=2","type=Disk surfaceDensity=1 scaleRadius=1 scaleHeight=0.3","type=Logarithmic p=0.8 q=0.6 v0=0.9 scaleRadius=0.4"};
    int depth=thorough()?4:3; int total=1; for(int d=0;d<depth;d++) total*=5;
    for(int b=0;b<4;b++) for(int form=1;form<8;form+=(thorough()?1:2)) for(int code=0;code<total;code++) { int seq[4],n=0,c=code; bool canon=true; for(int d=0;d<depth;d++) { int k=c%5; c/=5; if(k<4) { if(n<d) canon=false; seq[n++]=k; } } if(!canon) continue;
        if(!begin(fmt("layers:b%d:f%d:%d",b,form,code))) continue; static std::map<int,PtrPotential> pc; static std::map<int,PtrDensity> dc; if(!pc[b]) pc[b]=createPotential(models::parse(DB[b>1?0:b])); if(b==3) pc[b]=createPotential(models::parse(DB[3])); if(!dc[b]) dc[b]=createDensity(kv(DB[b==3?0:b]));
        PtrPotential base=pc[b],p=base; PtrDensity dbase=dc[b],d=dbase; std::vector<Spl> sps(n); S.traces++;
        for(int i=0;i<n;i++) { Mod m; getmod(seq[i],seq[i]==2?1:form,1,1,m,sps[i]); KV k; k.set(KEY[seq[i]],m.arg); if(b==3) p=createPotential(k,p); d=createDensity(k,d); S.transitions++; }
        for(int it=0;it<5;it+=2) { double t=TIMES[it]; Aff a=ident(); for(int i=n-1;i>=0;i--) inward(a,seq[i],sps[i],t);
            for(int ip=0;ip<3;ip++) { const double* x=PT[ip]; double y[3]; for(int i=0;i<3;i++) { y[i]=a.b[i]; for(int k=0;k<3;k++) y[i]+=a.M[i*3+k]*x[k]; } S.states++;
                double e=dbase->density(PosCar(y[0],y[1],y[2]),t)*a.A/(a.S*a.S*a.S); PosCar xc(x[0],x[1],x[2]); double v[3]={d->density(xc,t),d->density(toPosCyl(xc),t),d->density(toPosSph(xc),t)}; for(int k=0;k<3;k++) check(close(v[k],e,2e-11),"density in CS %d is %.15g instead of %.15g after %d modifiers",k,v[k],e,n);
                if(b==3) { Ref r=transform(*base,a,x,t); compare(*p,r,x,t,"layers"); } }
            many(*d,t,"layers"); }
        double M=dbase->totalMass(); for(int i=0;i<n;i++) if(seq[i]==0) M*=sps[i].s[0](0); check(close(d->totalMass(),M,1e-10),"total mass %.15g instead of %.15g",d->totalMass(),M);
        outcome(fmt("layers%d",n)); } }
// several components sharing or not sharing modifiers
static void part_bunches() { static const char* C[]={"type=Logarithmic p=0.8 q=0.6 scaleRadius=0.4","type=MiyamotoNagai scaleRadius=0.8 scaleHeight=0.3","type=Plummer scaleRadius=0.7 mass=2","type=BasisSet density=Dehnen gamma=0 p=0.8 q=0.6 nmax=4 lmax=4 eta=1.5 r0=0.8"};
    static const char* MS[]={"","center=0.3,-0.2,0.5","rotation=0.9 orientation=0.4,1.1,-0.7","scale=1.7,0.6"}; PtrPotential base[4]; for(int i=0;i<4;i++) base[i]=createPotential(models::parse(C[i]));
    Spl c1,r1,s1,none; Mod tmp; getmod(3,1,1,1,tmp,c1); getmod(1,1,1,1,tmp,r1); getmod(0,1,1,1,tmp,s1);
    int ord[4]={0,1,2,3};
    for(int n=1;n<=4;n++) for(int code=0;code<(1<<(2*n));code++) for(int o=0;o<(n==3?4:1);o++) for(int viafile=0;viafile<2;viafile++) { if(!begin(fmt("bunch:%d:%d:%d:%d",n,code,o,viafile))) continue;
        std::vector<KV> kvs; std::string ini; Ref tot[3]; for(int i=0;i<n;i++) { int w=(ord[i]+o)%4, ms=(code>>(2*i))&3; std::string s=std::string(C[w])+" "+MS[ms]; kvs.push_back(kv(s)); std::string l="[Potential "+utils::toString(i)+"]\n"; for(size_t q=0;q<s.size();q++) l+=s[q]==' '?'\n':s[q]; ini+=l+"\n";
            for(int ip=0;ip<3;ip++) { Aff a=ident(); if(ms==1) inward(a,3,c1,0.4); if(ms==2) { inward(a,2,none,0.4); inward(a,1,r1,0.4); } if(ms==3) inward(a,0,s1,0.4); Ref r=transform(*base[w],a,PT[ip],0.4); tot[ip]=i?sum(tot[ip],r):r; } }
        PtrPotential p; if(viafile) { models::writeFile("bunch.ini",ini); p=readPotential(S.scratch+"/bunch.ini"); } else p=createPotential(kvs);
        for(int ip=0;ip<3;ip++) { compare(*p,tot[ip],PT[ip],0.4,"bunch"); } many(*p,0.4,"bunch");
        // a file with its own modifiers, wrapped again
        if(viafile) { KV k; k.set("file",S.scratch+"/bunch.ini"); k.set("center","0.3,-0.2,0.5"); k.set("scale","1.7,0.6"); PtrPotential w=createPotential(k); Aff a=ident(); inward(a,3,c1,0.4); inward(a,0,s1,0.4); for(int ip=0;ip<3;ip++) compare(*w,transform(*p,a,PT[ip],0.4),PT[ip],0.4,"nested file"); }
        outcome(fmt("bunch%d",n)); } }
// densities from INI files: several sections, nested files with modifiers, composite
static void part_densfiles() { static const char* C[]={"type=Dehnen gamma=1 p=0.8 q=0.6","type=Disk surfaceDensity=1 scaleRadius=1 scaleHeight=0.3","type=Plummer scaleRadius=0.7 mass=2"}; static const char* MS[]={"","center=0.3,-0.2,0.5","rotation=0.9 orientation=0.4,1.1,-0.7","scale=1.7,0.6"};
    PtrDensity base[3]; for(int i=0;i<3;i++) base[i]=createDensity(kv(C[i])); Spl c1,r1,s1,none; Mod tmp; getmod(3,1,1,1,tmp,c1); getmod(1,1,1,1,tmp,r1); getmod(0,1,1,1,tmp,s1);
    for(int n=1;n<=3;n++) for(int code=0;code<(1<<(2*n));code++) for(int outer=0;outer<4;outer++) { if(!begin(fmt("densfile:%d:%d:%d",n,code,outer))) continue; std::string ini; double e[3]={0,0,0}, M=0;
        for(int i=0;i<n;i++) { int ms=(code>>(2*i))&3; std::string s=std::string(C[i])+" "+MS[ms],l="[Density "+utils::toString(i)+"]\n"; for(size_t q=0;q<s.size();q++) l+=s[q]==' '?'\n':s[q]; ini+=l+"\n"; M+=base[i]->totalMass()*(ms==3?1.7:1);
            for(int ip=0;ip<3;ip++) { Aff a=ident(); if(outer==1) inward(a,3,c1,0); if(outer==2) { inward(a,2,none,0); inward(a,1,r1,0); } if(outer==3) inward(a,0,s1,0); if(ms==1) inward(a,3,c1,0); if(ms==2) { inward(a,2,none,0); inward(a,1,r1,0); } if(ms==3) inward(a,0,s1,0);
                double y[3]; for(int j=0;j<3;j++) { y[j]=a.b[j]; for(int k=0;k<3;k++) y[j]+=a.M[j*3+k]*PT[ip][k]; } e[ip]+=base[i]->density(PosCar(y[0],y[1],y[2]))*a.A/(a.S*a.S*a.S); } }
        models::writeFile("dens.ini",ini); PtrDensity d; if(outer==0) d=readDensity(S.scratch+"/dens.ini"); else { KV k=kv(MS[outer]); k.set("file",S.scratch+"/dens.ini"); d=createDensity(k); M*=outer==3?1.7:1; }
        for(int ip=0;ip<3;ip++) { PosCar x(PT[ip][0],PT[ip][1],PT[ip][2]); check(close(d->density(x),e[ip],2e-11)&&close(d->density(toPosCyl(x)),e[ip],2e-11)&&close(d->density(toPosSph(x)),e[ip],2e-11),"density %.15g instead of %.15g",d->density(x),e[ip]); }
        many(*d,0,"densfile"); check(close(d->totalMass(),M,1e-6),"total mass %g instead of %g",d->totalMass(),M); outcome(fmt("densfile%d",outer)); } }
// Evolving potentials: 1..4 instances, nearest and linear interpolation, all kinds of times, modifiers on top
static void part_evolving() { static const char* C[]={"type=Logarithmic p=0.8 q=0.6 scaleRadius=0.4","type=MiyamotoNagai scaleRadius=0.8 scaleHeight=0.3 center=0.3,-0.2,0.5","type=KeplerBinary mass=2 binary_q=0.5 binary_sma=0.5","type=Harmonic Omega=0.4 p=0.9 q=0.6"}; PtrPotential base[4]; static const double TS[2][4]={{0,1,2.5,4},{-1.5,-1,0.25,3}};
    for(int i=0;i<4;i++) { base[i]=createPotential(models::parse(C[i])); std::string s=C[i],l="[Potential]\n"; for(size_t q=0;q<s.size();q++) l+=s[q]==' '?'\n':s[q]; models::writeFile(fmt("ev%d.ini",i),l+"\n"); }
    Spl c1,s1; Mod tmp; getmod(3,1,1,1,tmp,c1); getmod(0,2,1,1,tmp,s1); std::string sarg=tmp.arg;
    for(int u=0;u<2;u++) for(int n=1;n<=4;n++) for(int ts=0;ts<2;ts++) for(int li=0;li<3;li++) for(int rot=0;rot<4;rot++) for(int via=0;via<3;via++) { if(!begin(fmt("evolv:u%d:%d:%d:%d:%d:%d",u,n,ts,li,rot,via))) continue; units::ExternalUnits eu=mkunits(u); if(u && via==0) continue;
        std::vector<double> t; std::vector<PtrPotential> ins; std::string ini="[Potential]\ntype=Evolving\n"; if(li) ini+=li==1?"interpLinear=true\n":"linearInterp=true\n"; if(via==2) ini+="center=0.3,-0.2,0.5\nscale="+sarg+"\n"; ini+="Timestamps\n#comment\n";
        for(int i=0;i<n;i++) { int w=(i+rot)%4; t.push_back(TS[ts][i]*eu.timeUnit); PtrPotential q = u ? createPotential(models::parse(C[w]),eu) : base[w]; ins.push_back(q); ini+=utils::toString(TS[ts][i],17)+(i%2?"\t":" ")+fmt("ev%d.ini",w)+"\n"; }
        PtrPotential p; if(via==0) p=PtrPotential(new Evolving(t,ins,li!=0)); else { models::writeFile("evolv.ini",ini); p=readPotential(S.scratch+"/evolv.ini",eu); }
        if(u) { getmod(3,1,eu.timeUnit,eu.lengthUnit,tmp,c1); getmod(0,2,eu.timeUnit,1,tmp,s1); } else { getmod(3,1,1,1,tmp,c1); getmod(0,2,1,1,tmp,s1); }
        std::vector<double> tt; tt.push_back(t[0]-1*eu.timeUnit); for(int i=0;i<n;i++) { tt.push_back(t[i]); if(i<n-1) { tt.push_back(t[i]+0.3*(t[i+1]-t[i])); tt.push_back(t[i]+0.49*(t[i+1]-t[i])); tt.push_back(t[i]+0.51*(t[i+1]-t[i])); tt.push_back(t[i]+0.9*(t[i+1]-t[i])); } } tt.push_back(t[n-1]+5*eu.timeUnit);
        for(size_t k=0;k<tt.size();k++) { double T=tt[k]; int i0=0; double w=0; if(T<=t[0]) i0=0; else if(T>=t[n-1]) i0=n-1; else { while(T>=t[i0+1]) i0++; w=(T-t[i0])/(t[i0+1]-t[i0]); if(!li) { if(w>0.5) i0++; w=0; } }
            Aff a=ident(); if(via==2) { inward(a,3,c1,T); inward(a,0,s1,T); } double sc=u?eu.lengthUnit:1;
            for(int ip=0;ip<3;ip++) { double x[3]={PT[ip][0]*sc,PT[ip][1]*sc,PT[ip][2]*sc}; Ref r=transform(*ins[i0],a,x,T); if(w>0) r=lin(r,1-w,transform(*ins[i0+1],a,x,T),w); S.states++; compare(*p,r,x,T,fmt("time #%d",(int)k)); } }
        outcome(fmt("evolv%d%d%d",n,li>0,via)); }
    // invalid: unsorted or duplicate times, empty list
    for(int k=0;k<4;k++) if(begin(fmt("evolvbad:%d",k))) { bool th=false; try { std::vector<double> t; std::vector<PtrPotential> q; if(k<2) { t.push_back(1); t.push_back(k?1:0); q.push_back(base[0]); q.push_back(base[1]); } if(k==2) t.push_back(1); Evolving e(t,q); } catch(std::exception&) { th=true; } check(th,"accepted"); } }
static void part_accel() { for(int u=0;u<2;u++) for(int form=2;form<8;form++) for(int mod=0;mod<8;mod++) { if(form==6) continue; if(!begin(fmt("accel:u%d:%d:%d",u,form,mod))) continue; units::ExternalUnits eu=mkunits(u); Mod m; Spl sp; getmod(3,form,eu.timeUnit,eu.velocityUnit/eu.timeUnit,m,sp); Spl c1,r1,s1; Mod mc,mr,ms,mo; Spl none; getmod(3,1,eu.timeUnit,eu.lengthUnit,mc,c1); getmod(1,2,eu.timeUnit,1,mr,r1); getmod(2,1,1,1,mo,none);
        KV k; k.set("type","UniformAcceleration"); k.set("file",m.arg); if(mod&1) k.set("center",mc.arg); if(mod&2) k.set("rotation",mr.arg); if(mod&4) k.set("orientation",mo.arg); PtrPotential p=createPotential(k,eu);
        for(int it=0;it<6;it++) { double t=TIMES[it]*eu.timeUnit; double ac[3]={sp.s[0](t),sp.s[1](t),sp.s[2](t)}; Aff a=ident(); if(mod&1) inward(a,3,c1,t); if(mod&4) inward(a,2,none,t); if(mod&2) inward(a,1,r1,t);
            for(int ip=0;ip<3;ip++) { const double* x=PT[ip]; double y[3]; for(int i=0;i<3;i++) { y[i]=a.b[i]; for(int q=0;q<3;q++) y[i]+=a.M[i*3+q]*x[q]; } Ref r; r.v=0; for(int i=0;i<3;i++) r.v-=ac[i]*y[i]; double s=0; for(int i=0;i<3;i++) { r.g[i]=0; for(int q=0;q<3;q++) r.g[i]-=a.M[q*3+i]*ac[q]; s=fmax(s,fabs(r.g[i])); } for(int i=0;i<6;i++) r.h[i]=0; r.rho=0; r.sg=s; r.sh=s; r.sv=s*5; r.sr=s; S.states++; compare(*p,r,x,t,"acceleration"); } }
        outcome(fmt("accel%d",form)); } }
// malformed arguments must be rejected
static void part_bad() { static const char* B[][2]={{"center","1,2"},{"center","1,2,3,4"},{"center","[[0,1,2],[1,2,3]]"},{"center","nosuchfile"},{"center","[1,2,3"},{"center","a,b,c"},{"rotation","1,2"},{"rotation","[[0,1,2,3]]"},{"rotation","/nonexistent/f"},{"scale","1"},{"scale","1,2,3"},{"scale","[[1,2]]"},{"orientation","1,2"},{"orientation","1"},{"orientation","1,2,3,4"},{"orientation","[[1,2,3]]"},{"center","[[1,0,0,0],[0,1,1,1]]"},{"rotation","[[0,1],[0,2]]"}};
    for(size_t i=0;i<sizeof(B)/sizeof(*B);i++) for(int d=0;d<2;d++) { if(!begin(fmt("bad:%d:%d",(int)i,d))) continue; KV k=kv(d?"type=Dehnen gamma=1":BASE[0]); k.set(B[i][0],B[i][1]); bool th=false; try { if(d) createDensity(k); else createPotential(k); } catch(std::exception&) { th=true; } check(th,"%s=%s accepted",B[i][0],B[i][1]); outcome("bad"); }
    static const char* FC[]={"","#only comment\n","0 1 2\n","0 1 2 3\n1 2 3 4 5 6 7\n","1 0 0 0\n0 1 1 1\n","text\n"}; for(int i=0;i<6;i++) { if(!begin(fmt("badfile:%d",i))) continue; models::writeFile("bad.txt",FC[i]); KV k=kv(BASE[0]); k.set("center",S.scratch+"/bad.txt"); bool th=false; try { createPotential(k); } catch(std::exception&) { th=true; } check(th,"file '%s' accepted",FC[i]); } }
int main(int argc,char** argv) { init(argc,argv); utils::msg=models::silent; models::auxFiles();
    part_combos(); part_order(); part_layers(); part_bunches(); part_densfiles(); part_evolving(); part_accel(); part_bad(); return finish(); }
