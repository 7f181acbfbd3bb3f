// A01: actions, angles and frequencies form a consistent canonical map.
// Enumerates finder x potential x lattice of orbits (incl. degenerate ones) x phase along the orbit.  The oracle is an
// independent integration of each orbit in Cartesian coordinates (own extrapolation integrator) and independent quadratures of the
// radial action, period and precession; see DESIGN.md.
#include "models.h"
#include "actions_factory.h"
#include "actions_isochrone.h"
#include "actions_spherical.h"
#include "actions_staeckel.h"
#include "actions_torus.h"
#include "potential_analytic.h"
#include "potential_perfect_ellipsoid.h"
#include "potential_utils.h"
#include "math_core.h"
#include <functional>
using namespace vh; using namespace actions; using potential::PtrPotential;
static const double PI=3.14159265358979323846;
typedef std::vector<double> V;
static double angdif(double a, double b) { double d=fmod(a-b,2*PI); if(d>PI) d-=2*PI; if(d<-PI) d+=2*PI; return fabs(d); }
static coord::PosVelCyl cyl(const V& x) { return coord::toPosVelCyl(coord::PosVelCar(x[0],x[1],x[2],x[3],x[4],x[5])); }
// ---- independent trajectory integration: Gragg-Bulirsch-Stoer with adaptive step
static V rhs(const potential::BasePotential& p, const V& x) { coord::GradCar g; p.eval(coord::PosCar(x[0],x[1],x[2]),NULL,&g); V r(6); for(int i=0;i<3;i++) r[i]=x[3+i]; r[3]=-g.dx; r[4]=-g.dy; r[5]=-g.dz; return r; }
static V midp(const potential::BasePotential& p, const V& x, double H, int n) { double h=H/n; V a=x, f=rhs(p,x), b(6); for(int i=0;i<6;i++) b[i]=x[i]+h*f[i];
    for(int k=1;k<n;k++) { f=rhs(p,b); for(int i=0;i<6;i++) { double t=a[i]+2*h*f[i]; a[i]=b[i]; b[i]=t; } }
    f=rhs(p,b); for(int i=0;i<6;i++) b[i]=0.5*(a[i]+b[i]+h*f[i]); return b; }
static bool advance(const potential::BasePotential& p, V& x, double T, double& h, double eps=1e-12) {
    double t=0; int cnt=0;
    while(t<T) { if(++cnt>200000) return false; bool last=false; double H=h; if(t+H>=T) { H=T-t; last=true; }
        const int M=8; V tab[M]; bool ok=false; double err=0; int k;
        for(k=0;k<M;k++) { int n=2*(k+1); tab[k]=midp(p,x,H,n);
            for(int j=k-1;j>=0;j--) { double q=double(n)/(2*(j+1)); q*=q; for(int i=0;i<6;i++) tab[j][i]=tab[j+1][i]+(tab[j+1][i]-tab[j][i])/(q-1); }
            if(k>=3) { double sx=0,sv=0,ex=0,ev=0; for(int i=0;i<3;i++){ sx=fmax(sx,fabs(x[i])); sv=fmax(sv,fabs(tab[0][3+i])); ex=fmax(ex,fabs(tab[0][i]-tab[1][i])); ev=fmax(ev,fabs(tab[0][3+i]-tab[1][3+i])); }
                err=fmax(ex/(sx+1e-300), ev/(sv+1e-300)); if(err<eps) { ok=true; break; } } }
        if(ok) { x=tab[0]; t+=H; S.transitions++; if(last) break; if(k<6) h=H*1.4; else h=H; } else { h=H*0.4; if(h<1e-14*T) return false; } }
    return true; }
// ---- reference quantities of a spherical orbit with given peri/apocentre radii (trapezoid/midpoint rule in the eccentric-anomaly-like phase: exponentially convergent)
struct Ref { double E,L,r1,r2,Jr,Or,Oz,Lc; };
static double phi(const potential::BasePotential& p, double r) { return p.value(coord::PosCyl(r,0,0)); }
static Ref reference(const potential::BasePotential& p, double r1, double r2, int N=2000) {
    Ref o; o.r1=r1; o.r2=r2; double P1=phi(p,r1),P2=phi(p,r2);
    if(r1==r2) { coord::GradCyl g; coord::HessCyl h; double v; p.eval(coord::PosCyl(r1,0,0),&v,&g,&h); o.L=r1*sqrt(r1*g.dR); o.E=v+0.5*r1*g.dR; o.Jr=0; o.Or=sqrt(h.dR2+3*g.dR/r1); o.Oz=sqrt(g.dR/r1); o.Lc=o.L; return o; }
    o.L = r1==0 ? 0 : sqrt(2*(P2-P1)/(1/(r1*r1)-1/(r2*r2))); o.E = r1==0? P2 : P1+0.5*o.L*o.L/(r1*r1);
    // sum over midpoints of eta in (0,pi);  r = m - d cos(eta)
    double m=0.5*(r1+r2), d=0.5*(r2-r1), sJ=0,sT=0,sA=0;
    for(int k=0;k<N;k++) { double eta=(k+0.5)*PI/N, r=m-d*cos(eta), dr=d*sin(eta); double v2=2*(o.E-phi(p,r)); if(o.L) v2-=o.L*o.L/(r*r); double v=sqrt(fmax(v2,1e-300)); sJ+=v*dr; sT+=dr/v; if(o.L) sA+=o.L/(r*r)*dr/v; }
    sJ*=PI/N; sT*=PI/N; sA*=PI/N; o.Jr=sJ/PI; o.Or=PI/sT; o.Oz= r1==0? 0.5*o.Or : o.Or*sA/PI; return o; }
// ---- a finder or mapper under test
struct F { std::string name; std::function<void(const coord::PosVelCyl&,Actions*,Angles*,Frequencies*)> ev; std::function<coord::PosVelCyl(const ActionAngles&,Frequencies*)> mp; double tol, tolf; };
static std::string show(const coord::PosVelCyl& p) { return fmt("(%.10g %.10g %.10g; %.10g %.10g %.10g)",p.R,p.z,p.phi,p.vR,p.vz,p.vphi); }
static bool same(double a, double b) { return a==b || (a!=a && b!=b); }
// compare two phase-space points in Cartesian space
static double dist(const coord::PosVelCyl& a, const coord::PosVelCyl& b, double rs, double vs) { coord::PosVelCar A=coord::toPosVelCar(a),B=coord::toPosVelCar(b);
    double d=sqrt(pow(A.x-B.x,2)+pow(A.y-B.y,2)+pow(A.z-B.z,2))/rs, e=sqrt(pow(A.vx-B.vx,2)+pow(A.vy-B.vy,2)+pow(A.vz-B.vz,2))/vs; return fmax(d,e); }
// interface checks common to every finder: combinations of outputs, determinism, symmetries
static void common(const F& f, const coord::PosVelCyl& p, const Actions& a, const Angles& t, const Frequencies& w, double Js, double ttol, double wt, bool planar, bool axis, bool apsis=false) {
    for(int m=1;m<8;m++) { Actions A; Angles T; Frequencies W; f.ev(p, m&1?&A:NULL, m&2?&T:NULL, m&4?&W:NULL);
        if(m&1 && f.name.find("interp")==std::string::npos) check(close(A.Jr,a.Jr,1e-12,1e-12*Js)&&close(A.Jz,a.Jz,1e-13,1e-14*Js)&&same(A.Jphi,a.Jphi),"%s: actions depend on which other outputs are requested (%d)",f.name.c_str(),m);
        if(m&2) check(angdif(T.thetar,t.thetar)<1e-12&&angdif(T.thetaz,t.thetaz)<1e-12&&angdif(T.thetaphi,t.thetaphi)<1e-12,"%s: angles depend on which other outputs are requested (%d)",f.name.c_str(),m);
        if(m&4) check(close(W.Omegar,w.Omegar,1e-13)&&close(W.Omegaz,w.Omegaz,1e-13)&&close(W.Omegaphi,w.Omegaphi,1e-13),"%s: frequencies depend on which other outputs are requested (%d)",f.name.c_str(),m); }
    check(t.thetar>=0&&t.thetar<=2*PI&&t.thetaz>=0&&t.thetaz<=2*PI&&t.thetaphi>=0&&t.thetaphi<=2*PI,"%s: angles outside [0,2pi]: %.16g %.16g %.16g",f.name.c_str(),t.thetar,t.thetaz,t.thetaphi);
    check(a.Jr>=0&&a.Jz>=0,"%s: negative action %g %g",f.name.c_str(),a.Jr,a.Jz);
    Actions A; Angles T; Frequencies W;
    double rt=apsis?1e-5:wt*100;
    { coord::PosVelCyl q=p; q.phi=math::wrapAngle(p.phi+1.25); f.ev(q,&A,&T,&W);
      check(close(A.Jr,a.Jr,1e-12,1e-12*Js)&&same(A.Jz,a.Jz)&&same(A.Jphi,a.Jphi)&&close(W.Omegar,w.Omegar,wt)&&close(W.Omegaz,w.Omegaz,wt)&&close(W.Omegaphi,w.Omegaphi,wt),"%s: not invariant under rotation: J %g %g %g",f.name.c_str(),A.Jr-a.Jr,A.Jz-a.Jz,A.Jphi-a.Jphi);
      if(a.Jphi!=0) check(axis||angdif(T.thetar,t.thetar)<rt&&angdif(T.thetaz,t.thetaz)<rt&&angdif(T.thetaphi,t.thetaphi+1.25)<rt,"%s: angles under rotation: dthetar %g dthetaz %g dthetaphi %g",f.name.c_str(),T.thetar-t.thetar,T.thetaz-t.thetaz,T.thetaphi-t.thetaphi); }
    { coord::PosVelCyl q=p; q.phi=math::wrapAngle(-p.phi); q.vphi=-p.vphi; f.ev(q,&A,&T,&W);   // mirror image with respect to the x-z plane
      check(close(A.Jr,a.Jr,1e-12,1e-12*Js)&&same(A.Jz,a.Jz)&&same(A.Jphi,-a.Jphi)&&close(W.Omegar,w.Omegar,wt)&&close(W.Omegaz,w.Omegaz,wt)&&close(W.Omegaphi,-w.Omegaphi,wt),"%s: mirror image: J %g %g %g Omega %g %g %g vs %g %g %g",f.name.c_str(),A.Jr-a.Jr,A.Jz-a.Jz,A.Jphi+a.Jphi,W.Omegar,W.Omegaz,W.Omegaphi,w.Omegar,w.Omegaz,w.Omegaphi);
      if(a.Jphi!=0) check(axis||angdif(T.thetar,t.thetar)<rt&&angdif(T.thetaz,t.thetaz)<rt&&angdif(T.thetaphi,-t.thetaphi)<rt,"%s: angles of the mirror image: %g %g %g vs %g %g %g",f.name.c_str(),T.thetar,T.thetaz,T.thetaphi,t.thetar,t.thetaz,t.thetaphi); }
    if(!planar) { coord::PosVelCyl q=p; q.z=-p.z; q.vz=-p.vz; f.ev(q,&A,&T,&W);      // reflection about the equatorial plane
      check(close(A.Jr,a.Jr,1e-12,1e-12*Js)&&close(A.Jz,a.Jz,1e-13,1e-14*Js)&&same(A.Jphi,a.Jphi)&&close(W.Omegar,w.Omegar,wt)&&close(W.Omegaz,w.Omegaz,wt)&&close(W.Omegaphi,w.Omegaphi,wt),"%s: reflection changes actions or frequencies",f.name.c_str());
      if(!axis) check(angdif(T.thetar,t.thetar)<rt&&angdif(T.thetaz,t.thetaz+PI)<ttol&&(a.Jphi==0||angdif(T.thetaphi,t.thetaphi)<ttol),"%s: angles of the reflected point: %g %g %g vs %g %g %g",f.name.c_str(),T.thetar,T.thetaz,T.thetaphi,t.thetar,t.thetaz,t.thetaphi); }
    { coord::PosVelCyl q=p; q.vR=-p.vR; q.vz=-p.vz; q.vphi=-p.vphi; f.ev(q,&A,&T,&W);      // time reversal:  J_phi changes sign, theta_phi is kept
      check(close(A.Jr,a.Jr,1e-12,1e-12*Js)&&close(A.Jz,a.Jz,1e-13,1e-14*Js)&&same(A.Jphi,-a.Jphi)&&close(W.Omegar,w.Omegar,wt)&&close(W.Omegaz,w.Omegaz,wt)&&close(W.Omegaphi,-w.Omegaphi,wt),"%s: time reversal changes actions or frequencies",f.name.c_str());
      if(!axis) check(angdif(T.thetar,-t.thetar)<ttol && (planar || angdif(T.thetaz,PI-t.thetaz)<ttol) && (a.Jphi==0||angdif(T.thetaphi,t.thetaphi)<ttol),"%s: angles of the time-reversed point: %.8g %.8g %.8g vs %.8g %.8g %.8g",f.name.c_str(),T.thetar,T.thetaz,T.thetaphi,t.thetar,t.thetaz,t.thetaphi); }
}
// numerical Jacobian d(theta,J)/d(x,v) must be symplectic
static void symplectic(const F& f, const coord::PosVelCyl& p, double rs, double vs, double tol) {
    coord::PosVelCar c=coord::toPosVelCar(p); double x[6]={c.x,c.y,c.z,c.vx,c.vy,c.vz}; double Mx[6][6];
    for(int k=0;k<6;k++) { double h=(k<3?rs:vs)*1e-3; double v[5][6]; 
        for(int s=-2;s<=2;s++) { if(!s) continue; V y(x,x+6); y[k]+=s*h; Actions a; Angles t; f.ev(cyl(y),&a,&t,NULL); double w[6]={t.thetar,t.thetaz,t.thetaphi,a.Jr,a.Jz,a.Jphi}; for(int i=0;i<6;i++) v[s+2][i]=w[i]; }
        for(int i=0;i<6;i++) { if(i<3) for(int s=1;s<5;s++) { if(s==2) continue; while(v[s][i]-v[0][i]>PI) v[s][i]-=2*PI; while(v[s][i]-v[0][i]<-PI) v[s][i]+=2*PI; }
            Mx[i][k]=(v[0][i]-8*v[1][i]+8*v[3][i]-v[4][i])/(12*h); } }
    // Poisson brackets {theta_i,J_j}=delta_ij, {J,J}=0, {theta,theta}=0
    double Jsc=rs*vs;
    for(int i=0;i<6;i++) for(int j=0;j<i;j++) { double s=0,n=0; for(int k=0;k<3;k++) { s+=Mx[j][k]*Mx[i][k+3]-Mx[j][k+3]*Mx[i][k]; n+=fabs(Mx[j][k]*Mx[i][k+3])+fabs(Mx[j][k+3]*Mx[i][k]); }
        double expct = (i>=3 && j==i-3) ? 1 : 0; double sc = n + (i<3? 1/Jsc : j<3? 1 : Jsc); check(fabs(s-expct)<=tol*sc,"%s: Poisson bracket {%d,%d} = %.8g, expected %g (scale %.3g)",f.name.c_str(),j,i,s,expct,n); }
}
struct Sph { const char* spec; const char* key; bool finite; double tolq; };
static const Sph sph[] = { {"type=Isochrone mass=1.5 scaleRadius=1.3","iso",1,1e-8}, {"type=Isochrone mass=1.5 scaleRadius=0","iso0",0,1e-8}, {"type=Plummer mass=2 scaleRadius=0.7","plummer",1,1e-8}, {"type=Plummer scaleRadius=0","kepler",0,1e-8}, {"type=NFW mass=1 scaleRadius=2","nfw",1,1e-7},
 {"type=Dehnen gamma=0 scaleRadius=1.5","deh0",1,1e-7}, {"type=Dehnen gamma=1","deh1",1,1e-7}, {"type=Dehnen gamma=1.5","deh15",1,1e-7}, {"type=Dehnen gamma=2","deh2",0,1e-7}, {"type=Plummer scaleRadius=1 ; type=Plummer mass=0.02 scaleRadius=0","plumbh",0,1e-8}, {"type=Plummer mass=1e6 scaleRadius=1e3","plumbig",1,1e-8} };
static double maxerr[16],maxf[16];
static void orbitSph(const std::vector<F>& fs, const potential::BasePotential& pot, const Ref& o, double ci /*Lz/L*/, double psi0, bool planar, int npt, double tq, bool fin, bool sharp, const std::string& isoAF, double rsc) {
    // initial state at apocentre: orbital plane with inclination cos i = ci, argument psi0 from the ascending node
    double si=sqrt(fmax(0,1-ci*ci)), s=sin(psi0), c=cos(psi0), om=ci==0?0:0.7;   // for the polar orbit the motion is confined exactly to the x-z plane
    double e1[3]={cos(om),sin(om),0}, e2[3]={-ci*sin(om),ci*cos(om),si}; double vt=o.L/o.r2; V x(6);
    for(int k=0;k<3;k++) { x[k]=o.r2*(c*e1[k]+s*e2[k]); x[3+k]=vt*(-s*e1[k]+c*e2[k]); }
    if(planar) x[2]=x[5]=0;
    if(o.L==0) { for(int k=0;k<6;k++) x[k]=0; if(ci==1) x[0]=o.r2; else if(ci==-1) { x[2]=o.r2; planar=false; } else x[0]=x[2]=o.r2*sqrt(0.5); }   // exactly radial orbits along x, z and the diagonal
    double T=2*PI/o.Or, vs=sqrt(fabs(o.E)), rs=o.r2, Js=rs*vs; double h=T/50; bool radial=o.L==0, circ=o.r1==o.r2; double Ep=fmax(1e-3,o.r1/o.r2);
    size_t n=fs.size(); std::vector<Angles> th0(n); std::vector<Actions> J0(n);
    double dt = radial ? T*0.45/npt : T*1.37/npt; double t=0;
    for(int k=0;k<=npt;k++) { if(k) { if(!advance(pot,x,dt,h)) { outcome("noadvance"); return; } t+=dt; if(planar) x[2]=x[5]=0; if(radial && ci==0) { x[2]=x[0]; x[5]=x[3]; } }
        coord::PosVelCyl p=cyl(x); bool axis = p.R<1e-6*rs; S.states++;
        for(size_t i=0;i<n;i++) { F f=fs[i]; Actions a;
            // interpolated finders are less accurate for highly eccentric orbits, especially in singular potentials, and in a composite potential with very different scales
            bool it = f.tol==2e-6 && f.name!="eval"; if(it && thorough()) f.tolf*=5; if(it && sharp) { f.tol*=50; f.tolf*=200; } if(it && o.r1<0.01*o.r2) { f.tol*=fin?10:200; f.tolf*=fin?50:500; } if(!isoAF.empty() && isoAF!="kep" && (f.name=="eval"||f.name=="createActionFinder")) { f.tol=1e-9; f.tolf=1e-6; }
            if(o.r2<0.1*rsc && f.name.find("Iso")!=std::string::npos) f.tolf*=10; if(o.r2<0.1*rsc && o.r1>0.9*o.r2) f.tolf=fmax(f.tolf,2e-5);
            if(o.r1==0) f.tol=fmax(f.tol,1e-6); Angles th; Frequencies w; f.ev(p,&a,&th,&w); S.transitions++;
            double tol=fmax(fmax(f.tol,tq),o.r1<0.01*o.r2?2e-7:0); 
            check(isfin(a.Jr)&&isfin(a.Jz)&&isfin(a.Jphi)&&isfin(th.thetar)&&isfin(th.thetaz)&&isfin(th.thetaphi)&&isfin(w.Omegar)&&isfin(w.Omegaz)&&isfin(w.Omegaphi),"%s: not finite at %s: J=%g %g %g th=%g %g %g Om=%g %g %g",f.name.c_str(),show(p).c_str(),a.Jr,a.Jz,a.Jphi,th.thetar,th.thetaz,th.thetaphi,w.Omegar,w.Omegaz,w.Omegaphi);
            if(!isfin(th.thetar+th.thetaz+th.thetaphi+a.Jr)) continue;
            // actions against the independent quadrature
            maxerr[i]=fmax(maxerr[i],fabs(a.Jr-o.Jr)/Js);
            check(close(a.Jr,o.Jr,0,tol*Js*3),"%s: Jr=%.12g, quadrature %.12g (err %.2g Js) at %s",f.name.c_str(),a.Jr,o.Jr,fabs(a.Jr-o.Jr)/Js,show(p).c_str());
            double Lz=o.L*ci; check(close(a.Jphi,Lz,1e-10,1e-10*Js),"%s: Jphi=%.12g, expected %.12g",f.name.c_str(),a.Jphi,Lz);
            double Jz=o.L-fabs(Lz); check(close(a.Jz,Jz,1e-9,1e-9*Js),"%s: Jz=%.12g, expected %.12g",f.name.c_str(),a.Jz,Jz);
            if(!radial) maxf[i]=fmax(maxf[i],fmax(fabs(w.Omegar/o.Or-1),fabs(w.Omegaz/o.Oz-1)));
            double ftol=fmax(f.tolf,circ?(o.r2<0.02*rsc?1:2e-4):o.r1/o.r2>0.9?2e-5:0);
            check(close(w.Omegar,o.Or,ftol),"%s: Omegar=%.12g, expected %.12g",f.name.c_str(),w.Omegar,o.Or);
            if(!radial) check(close(w.Omegaz,o.Oz,ftol)&&close(w.Omegaphi,ci==0?0:ci<0?-o.Oz:o.Oz,ftol,1e-12),"%s: Omegaz=%.12g Omegaphi=%.12g, expected %.12g",f.name.c_str(),w.Omegaz,w.Omegaphi,o.Oz);
            // angles advance linearly
            if(k==0) { th0[i]=th; if(!circ) check(angdif(th.thetar,PI)<fmax(1e-5,f.tolf*10),"%s: thetar=%.12g at apocentre",f.name.c_str(),th.thetar); }
            else { double at=fmax(1e-6,f.tolf*15)/(it?Ep:sqrt(Ep));
                if(!circ) { check(angdif(th.thetar,th0[i].thetar+o.Or*t)<at,"%s: thetar=%.9g, expected %.9g at t=%g",f.name.c_str(),th.thetar,math::wrapAngle(th0[i].thetar+o.Or*t),t);
                    if(!radial && !planar && !axis && fabs(ci)<1) check(angdif(th.thetaz,th0[i].thetaz+o.Oz*t)<at,"%s: thetaz=%.9g, expected %.9g at t=%g",f.name.c_str(),th.thetaz,math::wrapAngle(th0[i].thetaz+o.Oz*t),t);
                    if(!radial && ci!=0 && !axis) check(angdif(th.thetaphi,th0[i].thetaphi+(ci<0?-1:1)*o.Oz*t)<at,"%s: thetaphi=%.9g, expected %.9g at t=%g",f.name.c_str(),th.thetaphi,math::wrapAngle(th0[i].thetaphi+(ci<0?-1:1)*o.Oz*t),t); }
                else if(ci!=0 && !radial) { // circular orbit: thetar is arbitrary but the combination theta_z (or theta_phi) - (Oz/Or-1..)*thetar... is fixed through the mapping; checked below
                } }
            if(k<3 || k==npt) common(f,p,a,th,w,Js,fmax(1e-6,f.tolf*30),circ?1e-6:o.r1/o.r2>0.9?1e-8:1e-10,planar,axis||radial||circ,k==0||o.r1/o.r2>0.9);
            // inverse map
            if(f.mp && !(radial && axis) && !(circ && o.r2<0.02*rsc)) { Frequencies wm; coord::PosVelCyl q=f.mp(ActionAngles(a,th),&wm); double d=dist(p,q,rs,vs); double mt=fmax(3e-6,f.tolf*15)/Ep;
                if(circ) mt=fmax(mt, o.r2<0.02*rsc?1:10*sqrt(f.tol));
                // near an apsis (or a circular orbit) the error in r is the square root of that in Jr
                check(d<mt || (a.Jphi==0 && fabs(hypot(q.R,q.z)-hypot(p.R,p.z))<mt*rs),"%s: map(J,theta) = %s, expected %s (dist %.3g)",f.name.c_str(),show(q).c_str(),show(p).c_str(),d);
                check(close(wm.Omegar,w.Omegar,ftol*2)&&close(wm.Omegaz,w.Omegaz,ftol*2)&&(a.Jphi==0||close(wm.Omegaphi,w.Omegaphi,ftol*2)),"%s: frequencies from the mapper %g %g %g, from the finder %g %g %g",f.name.c_str(),wm.Omegar,wm.Omegaz,wm.Omegaphi,w.Omegar,w.Omegaz,w.Omegaphi); }
            // cross-check against the first finder
            if(i>0 && !circ && !radial && !axis) { Actions b; Angles tb; fs[0].ev(p,&b,&tb,NULL); double at=fmax(3e-6,f.tolf*15)/Ep; 
                check(angdif(th.thetar,tb.thetar)<at&&(planar||fabs(ci)==1||angdif(th.thetaz,tb.thetaz)<at)&&(ci==0||angdif(th.thetaphi,tb.thetaphi)<at),"%s and %s differ in angles: %.8g %.8g %.8g vs %.8g %.8g %.8g",f.name.c_str(),fs[0].name.c_str(),th.thetar,th.thetaz,th.thetaphi,tb.thetar,tb.thetaz,tb.thetaphi); }
            if(!circ && !radial && ci!=0 && fabs(ci)<1 && o.r1/o.r2<0.9 && o.r1/o.r2>0.05 && k>0 && k%3==1 && !axis) symplectic(f,p,fabs(ci)*hypot(p.R,p.z)*fmin(1,o.L/hypot(p.R,p.z)/hypot(hypot(p.vR,p.vz),p.vphi)),fabs(ci)*o.L/hypot(p.R,p.z),fmax(3e-4,f.tolf*100)); } }
    outcome(fmt("%d%d%g",radial,circ,ci));
}
static void spherical() {
    for(size_t ip=0; ip<sizeof(sph)/sizeof(*sph); ip++) { const Sph& sp=sph[ip]; PtrPotential pot; shared_ptr<ActionFinderSpherical> interp; PtrActionFinder af; PtrActionMapper am;
        std::vector<F> fs;
        double rsc = strstr(sp.key,"big") ? 1e3 : 1;
        std::vector<double> r2s; for(double r: {1e-2,0.4,2.5,60.}) r2s.push_back(r*rsc); if(thorough()) { r2s.push_back(0.1*rsc); r2s.push_back(1.5*rsc); r2s.push_back(9*rsc); }
        std::vector<double> ecc={0,0.02,0.2,0.5,0.9,0.999,1}; if(thorough()) { ecc.push_back(0.1); ecc.push_back(0.35); ecc.push_back(0.7); ecc.push_back(0.97); }
        std::vector<double> cis={1,0.5,0,-0.7,-1}; if(thorough()) { cis.push_back(0.2); cis.push_back(0.97); cis.push_back(-0.4); }
        for(double r2: r2s) for(double e: ecc) for(double ci: cis) for(int ps=0; ps<(thorough()?3:2); ps++) {
            if(e==1 && (ps || (ci!=0 && fabs(ci)!=1))) continue;
            if(!begin(fmt("sph/%s/r%g/e%.13g/i%g/p%d",sp.key,r2,e,ci,ps))) continue;
            if(!pot) { pot=models::pot(sp.spec); interp.reset(new ActionFinderSpherical(*pot)); af=createActionFinder(pot); am=createActionMapper(pot); PtrPotential P=pot; auto I=interp; auto AF=af; auto AM=am;
                fs.push_back(F{"evalSpherical",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalSpherical(*P,p,a,t,w);},[P](const ActionAngles& a,Frequencies*w){return mapSpherical(*P,a,w);},sp.tolq,1e-5});
                if(const potential::Isochrone* iso=dynamic_cast<const potential::Isochrone*>(pot.get())) { double M=iso->totalMass(),b=iso->getRadius(); auto AI=shared_ptr<ActionFinderIsochrone>(new ActionFinderIsochrone(M,b));
                    fs.push_back(F{"evalIsochrone",[M,b](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalIsochrone(M,b,p,a,t,w);},[M,b](const ActionAngles& a,Frequencies*w){return mapIsochrone(M,b,a,w);},1e-9,1e-6});
                    fs.push_back(F{"ActionFinderIsochrone",[AI](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){AI->eval(p,a,t,w);},[AI](const ActionAngles& a,Frequencies*w){return AI->map(a,w);},1e-9,1e-6}); }
                fs.push_back(F{"ActionFinderSpherical",[I](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){I->eval(p,a,t,w);},[I](const ActionAngles& a,Frequencies*w){return I->map(a,w);},2e-6,1e-4});
                fs.push_back(F{"eval",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){eval(*P,p,a,t,w);},NULL,2e-6,1e-4});
                fs.push_back(F{"createActionFinder",[AF](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){AF->eval(p,a,t,w);},[AM](const ActionAngles& a,Frequencies*w){return AM->map(a,w);},2e-6,1e-4}); }
            double r1=r2*(1-e)/(1+e); Ref o=reference(*pot,r1,r2); double psi0= ps==0?0.4:ps==1?2.1:0; bool planar=fabs(ci)==1;
            for(int i=0;i<16;i++) maxerr[i]=maxf[i]=0;
            try { orbitSph(fs,*pot,o,ci,psi0,planar,thorough()?12:7,sp.tolq,sp.finite,strstr(sp.key,"bh")!=NULL,strstr(sp.key,"iso")?"iso":"",rsc); } catch(std::exception& ex) { check(false,"exception: %s",ex.what()); }
            if(getenv("DBG")) { fprintf(stderr,"%s:",S.cur.c_str()); for(size_t i=0;i<fs.size();i++) fprintf(stderr," %s %.1e/%.1e",fs[i].name.c_str(),maxerr[i],maxf[i]); fprintf(stderr,"\n"); }
        }
    }
}

// ---- axisymmetric potentials
static PtrPotential mk(const std::string& s) { double m,a,c; if(sscanf(s.c_str(),"oblate %lf %lf %lf",&m,&a,&c)==3) return PtrPotential(new potential::OblatePerfectEllipsoid(m,a,c)); return models::pot(s); }
struct Axi { const char* spec; const char* key; int exact; };    // exact=1: Staeckel potential
static const Axi axi[] = { {"oblate 1 1.4 0.84","pe6",1}, {"oblate 2 0.5 0.475","pe95",1}, {"oblate 1 1 0.15","pe15",1},
  {"type=MiyamotoNagai scaleRadius=1 scaleHeight=0.3","mn",0}, {"type=Spheroid mass=1 gamma=1 beta=4 q=0.7","sphd",0}, {"type=MiyamotoNagai scaleRadius=2 scaleHeight=0.2 ; type=Plummer mass=0.5 scaleRadius=0.3 ; type=NFW mass=5 scaleRadius=5","gal",0}, {"type=Plummer mass=2 scaleRadius=0.7","plummer",2} };
// radial action and frequency of motion confined to the plane z=0
static bool planarRef(const potential::BasePotential& pot, double E, double L, double R0, Ref& o) {
    auto g=[&](double r) { return 2*(E-phi(pot,r))-(L?L*L/(r*r):0); };
    if(L==0) { double a=R0,b=R0; if(g(a)<0) a*=0.999; while(g(b)>0) { b*=1.5; if(b>1e8) return false; } for(int k=0;k<200;k++) { double m=0.5*(a+b); (g(m)>0?a:b)=m; } o=reference(pot,0,0.5*(a+b)); return true; }
    // maximum of g*r^2 lies at the circular radius; scan for a point with g>0
    double best=R0,gb=g(R0); for(double q=-3;q<=3;q+=0.01) { double r=R0*exp(q); if(g(r)>gb) { gb=g(r); best=r; } } if(gb<=1e-9*fabs(E)) return false;
    double a=best,b=best; while(g(a)>0) a*=0.8; while(g(b)>0) { b*=1.25; if(b>1e8) return false; }
    double lo=a,hi=best; for(int k=0;k<200;k++) { double m=0.5*(lo+hi); (g(m)>0?hi:lo)=m; } double r1=0.5*(lo+hi); lo=best; hi=b; for(int k=0;k<200;k++) { double m=0.5*(lo+hi); (g(m)>0?lo:hi)=m; } o=reference(pot,r1,0.5*(lo+hi)); return true; }
static void axisym() {
    for(size_t ip=0; ip<sizeof(axi)/sizeof(*axi); ip++) { const Axi& ax=axi[ip]; PtrPotential pot; std::vector<F> fs; 
        std::vector<double> R0s={0.1,1,5}; if(thorough()) { R0s.push_back(0.4); R0s.push_back(20); }
        std::vector<double> zs={0,0.5,-1.2}, vrs={0,0.3,-0.55}, vzs={0,0.25,0.5}, vps={0,-0.3,0.45,0.62}; if(thorough()) { zs.push_back(1.7); vzs.push_back(-0.15); vrs.push_back(0.1); vps.push_back(0.2); vps.push_back(-0.55); }
        for(double R0: R0s) for(double z0: zs) for(double vr: vrs) for(double vz: vzs) for(double vp: vps) {
            if(!begin(fmt("axi/%s/R%g/z%g/v%g,%g,%g",ax.key,R0,z0,vr,vz,vp))) continue;
            if(!pot) { pot=mk(ax.spec); PtrPotential P=pot;
                if(const potential::OblatePerfectEllipsoid* pe=dynamic_cast<const potential::OblatePerfectEllipsoid*>(pot.get())) { double fd=sqrt(pe->coordsys().Delta2); auto AS=shared_ptr<ActionFinderAxisymStaeckel>(new ActionFinderAxisymStaeckel(potential::PtrOblatePerfectEllipsoid(P,pe)));
                    fs.push_back(F{"evalAxisymStaeckel",[pe,P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalAxisymStaeckel(*pe,p,a,t,w);},NULL,1e-6,1e-5});
                    fs.push_back(F{"ActionFinderAxisymStaeckel",[AS](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){AS->eval(p,a,t,w);},NULL,1e-6,1e-5});
                    fs.push_back(F{"eval",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){eval(*P,p,a,t,w);},NULL,1e-6,1e-5});
                    fs.push_back(F{"evalAxisymFudge",[P,fd](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalAxisymFudge(*P,p,a,t,w,fd);},NULL,1e-6,1e-5}); }
                auto A0=shared_ptr<ActionFinderAxisymFudge>(new ActionFinderAxisymFudge(pot,false)), A1=shared_ptr<ActionFinderAxisymFudge>(new ActionFinderAxisymFudge(pot,true));
                fs.push_back(F{"ActionFinderAxisymFudge",[A0](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){A0->eval(p,a,t,w);},NULL,0.2,0.3});
                fs.push_back(F{"ActionFinderAxisymFudge(interp)",[A1](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){A1->eval(p,a,t,w);},NULL,0.2,0.3});
                if(!ax.exact) fs.push_back(F{"evalAxisymFudge(fd)",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalAxisymFudge(*P,p,a,t,w,0.5);},NULL,0.3,0.4}); }
            double ve=sqrt(-2*phi(*pot,hypot(R0,R0*z0))); if(!(ve>0)) ve=sqrt(-2*pot->value(coord::PosCyl(R0,R0*z0,0)));
            V x={R0*cos(0.7),R0*sin(0.7),R0*z0, ve*(vr*cos(0.7)-vp*sin(0.7)), ve*(vr*sin(0.7)+vp*cos(0.7)), ve*vz};
            if(vp==0) { x[0]=R0; x[1]=0; x[3]=ve*vr; x[4]=0; }
            try {
                coord::PosVelCyl p0=cyl(x); double E=totalEnergy(*pot,p0), Lz=p0.R*p0.vphi; bool planar=z0==0&&vz==0; if(E>=0) continue;
                double Js=R0*ve; double tmax=0, h=0, t=0; size_t n=fs.size(); std::vector<Actions> J0(n); std::vector<Angles> T0(n); std::vector<Frequencies> W0(n); const int npt=thorough()?10:5;
                for(int k=0;k<=npt;k++) { if(k) { if(!advance(*pot,x,tmax/npt,h)) { outcome("noadvance"); break; } t+=tmax/npt; if(planar) x[2]=x[5]=0; } coord::PosVelCyl p=cyl(x); S.states++; bool axis=p.R<1e-3*R0;
                    if(fabs(p.z)<1e-12*R0 && !planar) p.z=0;
                    for(size_t i=0;i<n;i++) { const F& f=fs[i]; Actions a; Angles th; Frequencies w; f.ev(p,&a,&th,&w); S.transitions++; bool ex=f.tol<1e-3; const char* nm=f.name.c_str(); double Jsum=a.Jr+a.Jz+fabs(a.Jphi); bool nice=R0>=1 && a.Jr<0.3*Jsum && fabs(a.Jphi)>0.15*Jsum; /* integrals of highly eccentric or highly inclined orbits are less accurate */
                        if(!check(isfin(a.Jr)&&isfin(a.Jz)&&isfin(a.Jphi)&&isfin(th.thetar)&&isfin(th.thetaz)&&isfin(th.thetaphi)&&isfin(w.Omegar)&&isfin(w.Omegaz)&&isfin(w.Omegaphi),"%s: not finite at %s: J=%g %g %g th=%g %g %g Om=%g %g %g",nm,show(p).c_str(),a.Jr,a.Jz,a.Jphi,th.thetar,th.thetaz,th.thetaphi,w.Omegar,w.Omegaz,w.Omegaphi)) continue;
                        if(k==0) { J0[i]=a; T0[i]=th; W0[i]=w; if(i==0) { tmax=2*PI/w.Omegar*1.43; if(!(tmax>0)) tmax=R0/ve*10; h=tmax/50; } }
                        check(close(a.Jphi,Lz,1e-9,1e-10*Js),"%s: Jphi=%.10g, expected %.10g",nm,a.Jphi,Lz);
                        double dJ=fmax(fabs(a.Jr-J0[i].Jr),fabs(a.Jz-J0[i].Jz))/Js; maxerr[i]=fmax(maxerr[i],dJ);
                        double Jt=Js*(ex?1:fmax(0.3,(J0[i].Jr+J0[i].Jz+fabs(J0[i].Jphi))/Js));
                        if(ex || (Lz!=0 && f.tol<0.3 && (nice||!thorough()))) check(dJ*Js<=f.tol*(nice?1:ex?30:2)*Jt,"%s: action varies along the orbit: Jr %.10g -> %.10g, Jz %.10g -> %.10g at %s",nm,J0[i].Jr,a.Jr,J0[i].Jz,a.Jz,show(p).c_str());
                        if(planar) check(a.Jz<=f.tol*Js*1e-3,"%s: Jz=%g of a planar orbit",nm,a.Jz);
                        if(k<2) common(f,p,a,th,w,Js,ex?1e-5:0.3,ex?1e-7:1e-4,planar,axis||p.R<1e-9||a.Jr<1e-8*Js||Lz==0);
                        if(ex) { double df=fmax(fabs(w.Omegar/W0[i].Omegar-1),fmax(W0[i].Omegaz?fabs(w.Omegaz/W0[i].Omegaz-1):0,Lz?fabs(w.Omegaphi/W0[i].Omegaphi-1):0)); maxf[i]=fmax(maxf[i],df);
                            check(df<fmax(nice?1e-5:1e-3,f.tolf),"%s: frequencies vary along the orbit: %.9g %.9g %.9g -> %.9g %.9g %.9g",nm,W0[i].Omegar,W0[i].Omegaz,W0[i].Omegaphi,w.Omegar,w.Omegaz,w.Omegaphi);
                            if(k && a.Jr>1e-6*Js && !axis) { double at=nice?1e-4:Lz!=0?(a.Jr>0.8*Jsum?2:a.Jr>0.6*Jsum?0.5:0.1):0.02; check(angdif(th.thetar,T0[i].thetar+w.Omegar*t)<at*3,"%s: thetar=%.9g, expected %.9g at t=%g",nm,th.thetar,math::wrapAngle(T0[i].thetar+w.Omegar*t),t);
                                if(!planar && Lz!=0) check(angdif(th.thetaz,T0[i].thetaz+w.Omegaz*t)<at*3,"%s: thetaz=%.9g, expected %.9g at t=%g",nm,th.thetaz,math::wrapAngle(T0[i].thetaz+w.Omegaz*t),t);
                                if(Lz) check(angdif(th.thetaphi,T0[i].thetaphi+w.Omegaphi*t)<at*3,"%s: thetaphi=%.9g, expected %.9g at t=%g",nm,th.thetaphi,math::wrapAngle(T0[i].thetaphi+w.Omegaphi*t),t); }
                            if(i) { Actions b; Angles tb; Frequencies wb; fs[0].ev(p,&b,&tb,&wb); check(close(a.Jr,b.Jr,1e-6,1e-6*Js)&&close(a.Jz,b.Jz,1e-6,1e-6*Js),"%s and %s differ: Jr %.9g %.9g Jz %.9g %.9g",nm,fs[0].name.c_str(),a.Jr,b.Jr,a.Jz,b.Jz);
                                if(a.Jr>1e-6*Js && !axis) check(angdif(th.thetar,tb.thetar)<1e-4&&(planar||angdif(th.thetaz,tb.thetaz)<1e-4)&&(!Lz||angdif(th.thetaphi,tb.thetaphi)<1e-4),"%s and %s differ in angles: %.8g %.8g %.8g vs %.8g %.8g %.8g",nm,fs[0].name.c_str(),th.thetar,th.thetaz,th.thetaphi,tb.thetar,tb.thetaz,tb.thetaphi); }
                            if(Lz && a.Jr>0.01*Js && a.Jz>0.01*Js && (k==1||k==3) && (i==0||f.name=="evalAxisymFudge") && a.Jr<0.6*Jsum) { double rr=hypot(p.R,p.z), v=hypot(hypot(p.vR,p.vz),p.vphi); symplectic(f,p,p.R*fmin(1,fabs(p.vphi)/v),fabs(p.vphi)*p.R/rr,nice&&!thorough()?3e-3:0.1); } }
                        if(planar && k==0) { Ref o; if(planarRef(*pot,E,Lz,R0,o)) { double tl= ex? (nice?1e-6:2e-2) : f.name.find("interp")!=std::string::npos?0.05:2e-2; check(close(a.Jr,o.Jr,0,tl*Js),"%s: Jr=%.10g of a planar orbit, quadrature %.10g",nm,a.Jr,o.Jr); if(ex&&Lz) check(close(w.Omegar,o.Or,nice?1e-5:0.05)&&close(fabs(w.Omegaphi),o.Oz,nice?1e-5:0.05),"%s: frequencies of a planar orbit %.9g %.9g, quadrature %.9g %.9g",nm,w.Omegar,w.Omegaphi,o.Or,o.Oz); } }
                        if(i+1==n && k==0 && getenv("DBG")) {} } }
                if(getenv("DBG")) { fprintf(stderr,"%s:",S.cur.c_str()); for(size_t i=0;i<fs.size();i++) fprintf(stderr," %s %.1e/%.1e",fs[i].name.c_str(),maxerr[i],maxf[i]),maxerr[i]=maxf[i]=0; fprintf(stderr,"\n"); }
                outcome(fmt("axi%d%d%d%d",ax.exact,planar,vp==0,vr==0));
            } catch(std::exception& exc) { check(false,"exception: %s",exc.what()); }
        } }
}
// ---- unbound and other exceptional points, invalid actions
static void special() {
    std::vector<std::string> specs; for(auto& s: sph) specs.push_back(s.spec); for(auto& a: axi) specs.push_back(a.spec);
    for(size_t ip=0; ip<specs.size(); ip++) { if(!begin("special/"+specs[ip])) continue;
        PtrPotential pot=mk(specs[ip]); bool isSph=isSpherical(*pot); std::vector<F> fs; PtrPotential P=pot; PtrActionFinder af=createActionFinder(pot), ai=createActionFinder(pot,true);
        fs.push_back(F{"eval",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){eval(*P,p,a,t,w,0.4);},NULL,1,1}); fs.push_back(F{"createActionFinder",[af](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){af->eval(p,a,t,w);},NULL,1,1}); fs.push_back(F{"createActionFinder(interp)",[ai](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){ai->eval(p,a,t,w);},NULL,1,1});
        if(isSph) { shared_ptr<ActionFinderSpherical> I(new ActionFinderSpherical(*pot)); fs.push_back(F{"ActionFinderSpherical",[I](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){I->eval(p,a,t,w);},[I](const ActionAngles& a,Frequencies*w){return I->map(a,w);},1,1}); fs.push_back(F{"evalSpherical",[P](const coord::PosVelCyl& p,Actions*a,Angles*t,Frequencies*w){evalSpherical(*P,p,a,t,w);},[P](const ActionAngles& a,Frequencies*w){return mapSpherical(*P,a,w);},1,1}); }
        PtrActionMapper am=createActionMapper(pot); fs.push_back(F{"createActionMapper",NULL,[am](const ActionAngles& a,Frequencies*w){return am->map(a,w);},1,1});
        for(auto& f: fs) { const char* nm=f.name.c_str(); if(!f.ev) continue;
            for(double R: {0.,0.5,3.}) for(double z: {0.,-0.7}) { double Ph=pot->value(coord::PosCyl(R,z,0)); if(!isfin(Ph)) continue; double ve=sqrt(-2*Ph);
                for(int d=0;d<(R==0?2:5);d++) for(double q: {1.0000001,1.5,30.}) { double v=ve*q; coord::PosVelCyl p(R,z,0.3, d==0?v:d==3?v*0.6:0, d==1?-v:d==3?v*0.64:0, d==2?v:d==3?v*0.48:d==4?-v:0); Actions a; Angles t; Frequencies w;
                    try { f.ev(p,&a,&t,&w); S.transitions++; check(a.Jr!=a.Jr,"%s: Jr=%g of an unbound orbit (v/vesc=%g)",nm,a.Jr,q); check(same(a.Jphi,R*p.vphi)||close(a.Jphi,R*p.vphi,1e-14)||a.Jphi!=a.Jphi,"%s: Jphi=%g",nm,a.Jphi); check(!(a.Jz<0),"%s: Jz<0",nm); check(t.thetar!=t.thetar,"%s: thetar=%g of an unbound orbit",nm,t.thetar); check(w.Omegar!=w.Omegar,"%s: Omegar=%g of an unbound orbit",nm,w.Omegar);
                        Actions b; f.ev(p,&b,NULL,NULL); check(b.Jr!=b.Jr,"%s: Jr=%g of an unbound orbit when only actions are requested",nm,b.Jr); Angles t1; f.ev(p,NULL,&t1,NULL); check(t1.thetar!=t1.thetar,"%s: thetar (alone)=%g of an unbound orbit",nm,t1.thetar); Frequencies w1; f.ev(p,NULL,NULL,&w1); check(w1.Omegar!=w1.Omegar,"%s: Omegar (alone)=%g of an unbound orbit",nm,w1.Omegar); }
                    catch(std::exception& e) { check(false,"%s: exception for an unbound point %s: %s",nm,show(p).c_str(),e.what()); } } 
                // a body at rest: radial orbit (or a planar one along the axis)
                { Actions a; Angles t; Frequencies w; coord::PosVelCyl p(R,z,0.3,0,0,0); try { f.ev(p,&a,&t,&w); bool centre=R==0&&z==0; check(isfin(a.Jr)&&isfin(a.Jz)&&a.Jphi==0&&a.Jr>=0&&a.Jz>=0,"%s: actions of a body at rest: %g %g %g at R=%g z=%g",nm,a.Jr,a.Jz,a.Jphi,R,z); if(centre) check(a.Jr+a.Jz<1e-6,"%s: nonzero actions at the centre: %g %g",nm,a.Jr,a.Jz); else if(isSph) check(a.Jz==0 && a.Jr>0,"%s: radial orbit has Jz=%g Jr=%g",nm,a.Jz,a.Jr); } catch(std::exception& e) { check(false,"%s: exception for a body at rest at R=%g z=%g: %s",nm,R,z,e.what()); } } }
            // invalid input
            for(int d=0;d<6;d++) { double c[6]={1,0.3,0.2,0.1,0.2,0.1}; c[d]=NAN; Actions a; Angles t; Frequencies w; try { f.ev(coord::PosVelCyl(c[0],c[1],c[2],c[3],c[4],c[5]),&a,d==2?NULL:&t,d==2?NULL:&w); if(d!=2) check(!(isfin(a.Jr)&&isfin(a.Jz)&&isfin(a.Jphi)),"%s: finite actions for NaN in component %d",nm,d); } catch(std::exception& e) { outcome(std::string("nan-exc ")+e.what()); } } }
        for(auto& f: fs) if(f.mp) for(int d=0;d<3;d++) for(double bad: {-1e-3,-5.,(double)NAN}) { if(d==2 && bad==bad) continue; ActionAngles aa(Actions(0.3,0.2,0.4),Angles(1,2,3)); (d==0?aa.Jr:d==1?aa.Jz:aa.Jphi)=bad; Frequencies w; try { coord::PosVelCyl p=f.mp(aa,&w); check(p.R!=p.R && p.vR!=p.vR,"%s: map with invalid action %d (%g) gives %s",f.name.c_str(),d,bad,show(p).c_str()); check(w.Omegar!=w.Omegar,"%s: map with invalid action %d gives Omegar=%g",f.name.c_str(),d,w.Omegar); coord::PosVelCyl p2=f.mp(aa,NULL); check(p2.R!=p2.R,"%s: map with invalid action (no freq)",f.name.c_str()); } catch(std::exception& e) { check(false,"%s: exception in map with invalid action %d (%g): %s",f.name.c_str(),d,bad,e.what()); } }
        outcome(isSph?"special-sph":"special-axi"); }
    // unsuitable potentials
    const char* bad[]={"type=Logarithmic p=0.9 q=0.8","type=Dehnen gamma=1 p=0.8 q=0.6","type=Plummer center=0.1,0,0","type=Plummer ; type=Dehnen p=0.9"};
    for(auto s: bad) { if(!begin(std::string("unsuitable/")+s)) continue; PtrPotential p=models::pot(s); Actions a; coord::PosVelCyl pt(1,0.1,0,0.1,0.1,0.4);
        int k=0; try { createActionFinder(p); } catch(std::exception&) { k|=1; } try { createActionMapper(p); } catch(std::exception&) { k|=2; } try { eval(*p,pt,&a); } catch(std::exception&) { k|=4; } try { evalSpherical(*p,pt,&a); } catch(std::exception&) { k|=8; } try { evalAxisymFudge(*p,pt,&a,NULL,NULL,0.3); } catch(std::exception&) { k|=16; } try { mapSpherical(*p,ActionAngles(Actions(1,1,1),Angles(0,0,0))); } catch(std::exception&) { k|=32; } try { ActionFinderAxisymFudge x(p); } catch(std::exception&) { k|=64; } try { ActionFinderSpherical x(*p); } catch(std::exception&) { k|=128; }
        check(k==255,"non-axisymmetric potential accepted (rejections mask %d)",k); outcome("unsuitable"); }
}
// ---- scaling of units: mass and length by powers of four leaves the results related exactly up to rounding
static void scaling() {
    const char* fam[]={"type=Isochrone mass=%g scaleRadius=%g","type=Plummer mass=%g scaleRadius=%g","oblate %.17g %.17g %.17g","type=Dehnen gamma=1 mass=%g scaleRadius=%g"};
    for(auto t: fam) for(double M: {4.,0.0625,1e6}) for(double b: {4.,0.015625,1e3}) { if(!begin(fmt("scale/%.14s/%g/%g",t,M,b))) continue;
        PtrPotential p0=mk(fmt(t,1.,1.,0.6)),p1=mk(fmt(t,M,b,b*0.6)); double vs=sqrt(M/b), js=vs*b, os=vs/b;
        for(double R: {0.3,2.}) for(double z: {0.,0.4}) for(double vR: {0.,0.3}) for(double vz: {0.,-0.2}) for(double vp: {0.,0.4,-0.5}) { Actions a,c; Angles u,v; Frequencies w,y; coord::PosVelCyl q(R,z,1.1,vR,vz,vp), s(R*b,z*b,1.1,vR*vs,vz*vs,vp*vs);
            eval(*p0,q,&a,&u,&w); eval(*p1,s,&c,&v,&y); S.transitions++; check(close(a.Jr*js,c.Jr,1e-6,1e-7*js)&&close(a.Jz*js,c.Jz,1e-6,1e-7*js)&&close(a.Jphi*js,c.Jphi,1e-12),"actions do not scale: %g %g vs %g %g",a.Jr,a.Jz,c.Jr/js,c.Jz/js); check(close(w.Omegar*os,y.Omegar,1e-5)&&close(w.Omegaz*os,y.Omegaz,1e-5)&&close(w.Omegaphi*os,y.Omegaphi,1e-5),"frequencies do not scale: %g %g %g vs %g %g %g",w.Omegar,w.Omegaz,w.Omegaphi,y.Omegar/os,y.Omegaz/os,y.Omegaphi/os);
            if(vp && a.Jr>0.01*(a.Jr+a.Jz+fabs(a.Jphi))) check(angdif(u.thetar,v.thetar)<1e-4&&angdif(u.thetaz,v.thetaz)<1e-4&&angdif(u.thetaphi,v.thetaphi)<1e-4,"angles do not scale: %g %g %g vs %g %g %g (Jr %g of %g) at %s",u.thetar,u.thetaz,u.thetaphi,v.thetar,v.thetaz,v.thetaphi,a.Jr,a.Jr+a.Jz+fabs(a.Jphi),show(q).c_str()); } outcome("scale"); }
}
// ---- torus mapper
static void torus() {
    struct T { const char* spec; const char* key; }; static const T ts[]={{"type=MiyamotoNagai scaleRadius=1 scaleHeight=0.3","mn"},{"oblate 1 1.4 0.84","pe6"},{"type=MiyamotoNagai scaleRadius=2 scaleHeight=0.2 ; type=Plummer mass=0.5 scaleRadius=0.3 ; type=NFW mass=5 scaleRadius=5","gal"}};
    static const double A[][3]={{0.2,0.1,0.6},{0.05,0.3,-0.8},{0.4,0.02,1.5},{0.01,0.01,1},{0.3,0.2,0.3},{0.1,0.5,2}}; const int nA=thorough()?6:4;
    for(auto& t: ts) for(int i=0;i<nA;i++) { if(!begin(fmt("torus/%s/%d",t.key,i))) continue; PtrPotential pot=mk(t.spec); ActionMapperTorus m(pot); Actions J(A[i][0],A[i][1],A[i][2]); const potential::OblatePerfectEllipsoid* pe=dynamic_cast<const potential::OblatePerfectEllipsoid*>(pot.get());
        Frequencies w0,w; coord::PosVelCyl p0=m.map(ActionAngles(J,Angles(0.3,0.9,2)),&w0); if(!check(isfin(p0.R)&&isfin(w0.Omegar),"torus construction failed")) continue; double E0=totalEnergy(*pot,p0); double h=0.1;
        coord::PosVelCar c=coord::toPosVelCar(p0); V x={c.x,c.y,c.z,c.vx,c.vy,c.vz}; double T=2*PI/w0.Omegar, t=0;
        double Emin=E0,Emax=E0; std::vector<Actions> ac; double emax=0;
        for(int k=0;k<12;k++) { coord::PosVelCyl p=m.map(ActionAngles(J,Angles(0.3+w0.Omegar*t,0.9+w0.Omegaz*t,2+w0.Omegaphi*t)),&w); S.states++; check(w.Omegar==w0.Omegar&&w.Omegaz==w0.Omegaz&&w.Omegaphi==w0.Omegaphi,"frequencies depend on the angles"); check(close(p.R*p.vphi,J.Jphi,1e-9),"R*vphi=%.12g, Jphi=%g",p.R*p.vphi,J.Jphi);
            double E=totalEnergy(*pot,p); Emin=fmin(E,Emin); Emax=fmax(E,Emax); coord::PosVelCyl q=cyl(x); double d=dist(p,q,hypot(p.R,p.z),sqrt(-2*pot->value(p))); emax=fmax(emax,d); check(d<0.06,"orbit integrated from the torus deviates from the torus by %.3g after %.2g radial periods",d,t/T);
            if(pe) { Actions a; evalAxisymStaeckel(*pe,p,&a); double Jt=J.Jr+J.Jz+fabs(J.Jphi); check(close(a.Jr,J.Jr,0,0.01*Jt)&&close(a.Jz,J.Jz,0,0.01*Jt),"actions of a point on the torus %g %g, expected %g %g",a.Jr,a.Jz,J.Jr,J.Jz); Angles th; Frequencies wf; evalAxisymStaeckel(*pe,p,NULL,&th,&wf); check(angdif(th.thetar,0.3+w0.Omegar*t)<0.1&&angdif(th.thetaz,0.9+w0.Omegaz*t)<0.1&&angdif(th.thetaphi,2+w0.Omegaphi*t)<0.1,"angles of a point on the torus %g %g %g, expected %g %g %g",th.thetar,th.thetaz,th.thetaphi,math::wrapAngle(0.3+w0.Omegar*t),math::wrapAngle(0.9+w0.Omegaz*t),math::wrapAngle(2+w0.Omegaphi*t)); check(close(wf.Omegar,w0.Omegar,0.01)&&close(wf.Omegaz,w0.Omegaz,0.01)&&close(wf.Omegaphi,w0.Omegaphi,0.01),"frequencies of the torus %g %g %g, Staeckel %g %g %g",w0.Omegar,w0.Omegaz,w0.Omegaphi,wf.Omegar,wf.Omegaz,wf.Omegaphi); }
            if(k<11) { if(!advance(*pot,x,T*0.13,h)) break; t+=T*0.13; } }
        check(Emax-Emin<0.02*fabs(E0),"energy varies over the torus by %g",(Emax-Emin)/fabs(E0));
        if(getenv("DBG")) fprintf(stderr,"%s dE=%.2g d=%.2g\n",S.cur.c_str(),(Emax-Emin)/fabs(E0),emax);
        // periodicity in each angle, and reflections
        for(int a=0;a<3;a++) { Angles u(1.1,2.2,0.4),v=u; (a==0?v.thetar:a==1?v.thetaz:v.thetaphi)+=2*PI; coord::PosVelCyl p=m.map(ActionAngles(J,u)),q=m.map(ActionAngles(J,v)); check(dist(p,q,1,1)<1e-9,"not periodic in angle %d: %s vs %s",a,show(p).c_str(),show(q).c_str()); }
        outcome(fmt("torus%d",i)); }
    // results do not depend on the order of calls (cache of tori): all orders of three tori, each asked twice, against separate mapper objects
    if(begin("torus/order")) { PtrPotential pot=models::pot(ts[0].spec); coord::PosVelCyl ref[3]; Frequencies rw[3]; for(int i=0;i<3;i++) { ActionMapperTorus m(pot); ref[i]=m.map(ActionAngles(Actions(A[i][0],A[i][1],A[i][2]),Angles(1,2,3)),&rw[i]); }
        int seqs[][6]={{0,1,2,0,1,2},{0,2,1,1,2,0},{1,0,2,0,1,2},{1,2,0,0,2,1},{2,0,1,2,1,0},{2,1,0,1,0,2}};
        for(auto& s: seqs) { ActionMapperTorus m(pot); for(int k=0;k<6;k++) { int i=s[k]; S.transitions++; Frequencies w; m.map(ActionAngles(Actions(A[i][0],A[i][1],A[i][2]),Angles(0.1*k,0,0))); coord::PosVelCyl p=m.map(ActionAngles(Actions(A[i][0],A[i][1],A[i][2]),Angles(1,2,3)),&w); check(p.R==ref[i].R&&p.z==ref[i].z&&p.vR==ref[i].vR&&p.vz==ref[i].vz&&p.phi==ref[i].phi&&p.vphi==ref[i].vphi&&w.Omegar==rw[i].Omegar&&w.Omegaz==rw[i].Omegaz,"result for torus %d depends on the order of calls: %s vs %s",i,show(p).c_str(),show(ref[i]).c_str()); }
            check(m.name().find("num_cached_tori=3")!=std::string::npos,"name: %s",m.name().c_str()); } outcome("torus-order"); }
    // the sign of Jphi reverses the azimuthal motion
    if(begin("torus/sign")) { PtrPotential pot=models::pot(ts[0].spec); ActionMapperTorus m(pot); for(int k=0;k<4;k++) { Frequencies w,v; coord::PosVelCyl p=m.map(ActionAngles(Actions(0.2,0.1,0.6),Angles(k,0.5*k,1)),&w),q=m.map(ActionAngles(Actions(0.2,0.1,-0.6),Angles(k,0.5*k,-1)),&v); check(close(p.R,q.R,1e-6)&&close(p.z,q.z,1e-6,1e-6)&&close(p.vphi,-q.vphi,1e-6)&&angdif(p.phi,-q.phi)<1e-6,"Jphi<0 is not the mirror image: %s vs %s",show(p).c_str(),show(q).c_str()); check(close(w.Omegar,v.Omegar,1e-6)&&close(w.Omegaphi,-v.Omegaphi,1e-6),"frequencies for Jphi<0: %g %g vs %g %g",w.Omegar,w.Omegaphi,v.Omegar,v.Omegaphi); } outcome("torus-sign"); }
}
// ---- focal distance estimators: exact for a Staeckel potential
static void focal() {
    for(double q: {0.15,0.6,0.95}) for(double b: {0.3,1.,7.}) { if(!begin(fmt("focal/%g/%g",q,b))) continue; PtrPotential pot=models::pot(fmt("type=PerfectEllipsoid mass=1.5 scaleRadius=%g q=%g",b,q)); double fd=b*sqrt(1-q*q);
        for(double r: {0.5,1.,4.}) { double R=r*b; coord::GradCyl g; double Ph; pot->eval(coord::PosCyl(R,0,0),&Ph,&g); double Ec=Ph+0.5*R*g.dR, Lc=R*sqrt(R*g.dR);
            for(double l: {0.05,0.3,0.8}) { double Rs=NAN, d=estimateFocalDistanceShellOrbit(*pot,Ec,Lc*l,&Rs); S.transitions++; check(close(d,fd,1e-2),"focal distance %.9g, expected %.9g (R=%g, L=%g Lc)",d,fd,R,l); check(Rs>0&&Rs<=R*(1+1e-6),"shell orbit radius %g (Rcirc %g)",Rs,R); }
            std::vector<coord::PosCyl> pts; std::vector<coord::PosCar> ptc; std::vector<coord::PosVelCyl> ptv; for(int i=0;i<4;i++) for(int j=1;j<4;j++) { coord::PosCyl p(R*(0.5+0.3*i),R*0.3*j*(j%2?1:-1),0.3*i); pts.push_back(p); ptc.push_back(coord::toPosCar(p)); ptv.push_back(coord::PosVelCyl(p.R,p.z,p.phi,0.1,0.2,0.3)); }
            double d=estimateFocalDistancePoints(*pot,pts); check(close(d,fd,1e-6),"focal distance by points %.9g, expected %.9g",d,fd); check(close(estimateFocalDistancePoints(*pot,ptc),d,1e-6)&&close(estimateFocalDistancePoints(*pot,ptv),d,1e-6),"focal distance by points depends on the coordinate system"); } 
        ActionFinderAxisymFudge f(pot); for(double R: {0.5,2.}) for(double v: {0.2,0.6}) check(close(f.focalDistance(coord::PosVelCyl(R*b,0.1*b,0,0.1*sqrt(1/b),0.2*sqrt(1/b),v*sqrt(1/b))),fd,0.02),"interpolated focal distance %g, expected %g",f.focalDistance(coord::PosVelCyl(R*b,0.1*b,0,0.1,0.2,v*sqrt(1/b))),fd);
        outcome("focal"); }
}
int main(int argc, char** argv) {
    init(argc,argv); utils::msg=models::silent; models::auxFiles();
    std::string part=getenv("PART")?getenv("PART"):"";
    if(part.find('s')!=std::string::npos||part.empty()) spherical();
    if(part.find('a')!=std::string::npos||part.empty()) axisym();
    if(part.find('x')!=std::string::npos||part.empty()) special();
    if(part.find('c')!=std::string::npos||part.empty()) scaling();
    if(part.find('t')!=std::string::npos||part.empty()) torus();
    if(part.find('f')!=std::string::npos||part.empty()) focal();
    return finish();
}
