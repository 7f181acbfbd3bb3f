// X01: coordinate transformations against reference formulas differentiated by an independent AD, over a complete lattice of points
#include "vh.h"
#include "ad.h"
#include "coord.h"
#include "math_core.h"
using namespace vh; using namespace coord; using ad::D; using ad::L; typedef std::string str;
static const double PI=3.14159265358979323846;
enum CS { CAR, CYL, SPH, PROL, AXI }; static const char* nm[]={"Car","Cyl","Sph","ProlSph","Axi"};
struct V3 { D c[3]; };
// ---- reference maps in AD arithmetic; d2 = Delta^2.  Axi coordinates here are (rho,nu,phi)
static V3 ref(CS s,CS d,const V3& p,double d2) {
    V3 o; D x,y,z; // through Cartesian, except where a shared phi must stay exact
    if(s==CAR) { x=p.c[0]; y=p.c[1]; z=p.c[2]; D R=sqrt(x*x+y*y); if(d==CYL) { o.c[0]=R; o.c[1]=z; o.c[2]=atan2(y,x); } else { o.c[0]=sqrt(x*x+y*y+z*z); o.c[1]=atan2(R,z); o.c[2]=atan2(y,x); } return o; }
    D R,zz,phi;
    if(s==CYL) { R=p.c[0]; zz=p.c[1]; phi=p.c[2]; }
    if(s==SPH) { R=p.c[0]*sin(p.c[1]); zz=p.c[0]*cos(p.c[1]); phi=p.c[2]; }
    if(s==PROL) { D l=p.c[0], n=ad::abs(p.c[1]); R=sqrt((l-D(d2))*(D(d2)-n)*D(1/(L)d2)); zz=sqrt(l*n*D(1/(L)d2)); if(p.c[1].v<0) zz=-zz; phi=p.c[2]; }
    if(s==AXI) { D rho=p.c[0],nu=p.c[1]; D chi=d2>=0?rho:sqrt(rho*rho-D(d2)), psi=d2>=0?sqrt(rho*rho+D(d2)):rho; R=chi*sin(nu); zz=psi*cos(nu); phi=p.c[2]; }
    if(d==CAR) { o.c[0]=R*cos(phi); o.c[1]=R*sin(phi); o.c[2]=zz; }
    if(d==CYL) { o.c[0]=R; o.c[1]=zz; o.c[2]=phi; }
    if(d==SPH) { o.c[0]=sqrt(R*R+zz*zz); o.c[1]=atan2(R,zz); o.c[2]=phi; }
    if(d==PROL) { D r2=R*R+zz*zz, dif=r2-D(d2), det=sqrt(dif*dif+D(4*(L)d2)*R*R); o.c[0]=D(0.5L)*(r2+D(d2)+det);
        D n=D(d2)*zz*zz/o.c[0]; o.c[1]=zz.v<0?-n:n; o.c[2]=phi; }
    if(d==AXI) { D r2=R*R+zz*zz; D det=sqrt((r2-D(d2))*(r2-D(d2))+D(4*(L)d2)*R*R), h=D(0.5L);
        D chi2=h*(r2-D(d2)+det), psi2=h*(r2+D(d2)+det); if(d2>0&&chi2.v<0.01L*d2) chi2=D(d2)*R*R/(h*(det-r2+D(d2))); if(d2<0&&psi2.v<-0.01L*d2) psi2=D(-d2)*zz*zz/(h*(det-r2-D(d2)));
        o.c[0]=d2>=0?sqrt(chi2):sqrt(psi2); o.c[1]=atan2(R/sqrt(chi2),zz/sqrt(psi2)); o.c[2]=phi; }
    return o; }
// ---- library structures <-> arrays
static void A(const PosCar& p,double* a) { a[0]=p.x;a[1]=p.y;a[2]=p.z; } static void A(const PosCyl& p,double* a) { a[0]=p.R;a[1]=p.z;a[2]=p.phi; } static void A(const PosSph& p,double* a) { a[0]=p.r;a[1]=p.theta;a[2]=p.phi; }
static void A(const PosProlSph& p,double* a) { a[0]=p.lambda;a[1]=p.nu;a[2]=p.phi; } static void A(const PosAxi& p,double* a) { a[0]=p.rho;a[1]=atan2(1,p.cotnu);a[2]=p.phi; }
static void A(const GradCar& g,double* a) { a[0]=g.dx;a[1]=g.dy;a[2]=g.dz; } static void A(const GradCyl& g,double* a) { a[0]=g.dR;a[1]=g.dz;a[2]=g.dphi; } static void A(const GradSph& g,double* a) { a[0]=g.dr;a[1]=g.dtheta;a[2]=g.dphi; }
static void A(const GradAxi& g,double* a) { a[0]=g.drho;a[1]=g.dnu;a[2]=g.dphi; } static void A(const GradProlSph& g,double* a) { a[0]=g.dlambda;a[1]=g.dnu;a[2]=g.dphi; }
static void A(const HessCar& h,double* a) { a[0]=h.dx2;a[1]=h.dy2;a[2]=h.dz2;a[3]=h.dxdy;a[4]=h.dydz;a[5]=h.dxdz; } static void A(const HessCyl& h,double* a) { a[0]=h.dR2;a[1]=h.dz2;a[2]=h.dphi2;a[3]=h.dRdz;a[4]=h.dzdphi;a[5]=h.dRdphi; }
static void A(const HessSph& h,double* a) { a[0]=h.dr2;a[1]=h.dtheta2;a[2]=h.dphi2;a[3]=h.drdtheta;a[4]=h.dthetadphi;a[5]=h.drdphi; } static void A(const HessAxi& h,double* a) { a[0]=h.drho2;a[1]=h.dnu2;a[2]=h.dphi2;a[3]=h.drhodnu;a[4]=h.dnudphi;a[5]=h.drhodphi; }
static void G(const double* a,GradCar& g) { g.dx=a[0];g.dy=a[1];g.dz=a[2]; } static void G(const double* a,GradCyl& g) { g.dR=a[0];g.dz=a[1];g.dphi=a[2]; } static void G(const double* a,GradSph& g) { g.dr=a[0];g.dtheta=a[1];g.dphi=a[2]; }
static void G(const double* a,GradAxi& g) { g.drho=a[0];g.dnu=a[1];g.dphi=a[2]; } static void G(const double* a,GradProlSph& g) { g.dlambda=a[0];g.dnu=a[1];g.dphi=a[2]; }
static void H(const double* a,HessCar& h) { h.dx2=a[0];h.dy2=a[1];h.dz2=a[2];h.dxdy=a[3];h.dydz=a[4];h.dxdz=a[5]; } static void H(const double* a,HessCyl& h) { h.dR2=a[0];h.dz2=a[1];h.dphi2=a[2];h.dRdz=a[3];h.dzdphi=a[4];h.dRdphi=a[5]; }
static void H(const double* a,HessSph& h) { h.dr2=a[0];h.dtheta2=a[1];h.dphi2=a[2];h.drdtheta=a[3];h.dthetadphi=a[4];h.drdphi=a[5]; } static void H(const double* a,HessAxi& h) { h.drho2=a[0];h.dnu2=a[1];h.dphi2=a[2];h.drhodnu=a[3];h.dnudphi=a[4];h.drhodphi=a[5]; }
static void H(const double* a,HessProlSph& h) { h.dlambda2=a[0];h.dnu2=a[1];h.dlambdadnu=a[3]; }
template<class T> struct Mk; template<> struct Mk<Car> { static const CS id=CAR; static PosCar p(const double* a,double) { return PosCar(a[0],a[1],a[2]); } static Car cs(double) { return Car(); } };
template<> struct Mk<Cyl> { static const CS id=CYL; static PosCyl p(const double* a,double) { return PosCyl(a[0],a[1],a[2]); } static Cyl cs(double) { return Cyl(); } };
template<> struct Mk<Sph> { static const CS id=SPH; static PosSph p(const double* a,double) { return PosSph(a[0],a[1],a[2]); } static Sph cs(double) { return Sph(); } };
template<> struct Mk<ProlSph> { static const CS id=PROL; static PosProlSph p(const double* a,double d) { return PosProlSph(a[0],a[1],a[2],cs(d)); } static ProlSph cs(double d) { return ProlSph(sqrt(d)); } };
template<> struct Mk<Axi> { static const CS id=AXI; static PosAxi p(const double* a,double d) { return PosAxi(a[0],a[1]==PI/2?0:1/tan(a[1]),a[2],cs(d)); } static Axi cs(double d) { return Axi(d); } };
// derivative structures: J[dest][src], second derivatives K[dest][AD index]
typedef double J3[3][3]; typedef double K3[3][6];
static void z(J3 j,K3 k) { for(int a=0;a<3;a++) { for(int b=0;b<3;b++) j[a][b]=0; for(int b=0;b<6;b++) k[a][b]=0; } }
static void C(const PosDerivT<Car,Cyl>& d,const PosDeriv2T<Car,Cyl>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dRdx;j[0][1]=d.dRdy;j[2][0]=d.dphidx;j[2][1]=d.dphidy;j[1][2]=1; k[0][0]=e.d2Rdx2;k[0][1]=e.d2Rdy2;k[0][3]=e.d2Rdxdy;k[2][0]=e.d2phidx2;k[2][1]=e.d2phidy2;k[2][3]=e.d2phidxdy; }
static void C(const PosDerivT<Car,Sph>& d,const PosDeriv2T<Car,Sph>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.drdx;j[0][1]=d.drdy;j[0][2]=d.drdz;j[1][0]=d.dthetadx;j[1][1]=d.dthetady;j[1][2]=d.dthetadz;j[2][0]=d.dphidx;j[2][1]=d.dphidy;
    k[0][0]=e.d2rdx2;k[0][1]=e.d2rdy2;k[0][2]=e.d2rdz2;k[0][3]=e.d2rdxdy;k[0][4]=e.d2rdydz;k[0][5]=e.d2rdxdz; k[1][0]=e.d2thetadx2;k[1][1]=e.d2thetady2;k[1][2]=e.d2thetadz2;k[1][3]=e.d2thetadxdy;k[1][4]=e.d2thetadydz;k[1][5]=e.d2thetadxdz; k[2][0]=e.d2phidx2;k[2][1]=e.d2phidy2;k[2][3]=e.d2phidxdy; }
static void C(const PosDerivT<Cyl,Car>& d,const PosDeriv2T<Cyl,Car>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dxdR;j[0][2]=d.dxdphi;j[1][0]=d.dydR;j[1][2]=d.dydphi;j[2][1]=1; k[0][5]=e.d2xdRdphi;k[0][2]=e.d2xdphi2;k[1][5]=e.d2ydRdphi;k[1][2]=e.d2ydphi2; }
static void C(const PosDerivT<Cyl,Sph>& d,const PosDeriv2T<Cyl,Sph>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.drdR;j[0][1]=d.drdz;j[1][0]=d.dthetadR;j[1][1]=d.dthetadz;j[2][2]=1; k[0][0]=e.d2rdR2;k[0][3]=e.d2rdRdz;k[0][1]=e.d2rdz2;k[1][0]=e.d2thetadR2;k[1][3]=e.d2thetadRdz;k[1][1]=e.d2thetadz2; }
static void C(const PosDerivT<Sph,Car>& d,const PosDeriv2T<Sph,Car>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dxdr;j[0][1]=d.dxdtheta;j[0][2]=d.dxdphi;j[1][0]=d.dydr;j[1][1]=d.dydtheta;j[1][2]=d.dydphi;j[2][0]=d.dzdr;j[2][1]=d.dzdtheta;
    k[0][3]=e.d2xdrdtheta;k[0][5]=e.d2xdrdphi;k[0][1]=e.d2xdtheta2;k[0][4]=e.d2xdthetadphi;k[0][2]=e.d2xdphi2;k[1][3]=e.d2ydrdtheta;k[1][5]=e.d2ydrdphi;k[1][1]=e.d2ydtheta2;k[1][4]=e.d2ydthetadphi;k[1][2]=e.d2ydphi2;k[2][3]=e.d2zdrdtheta;k[2][1]=e.d2zdtheta2; }
static void C(const PosDerivT<Sph,Cyl>& d,const PosDeriv2T<Sph,Cyl>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dRdr;j[0][1]=d.dRdtheta;j[1][0]=d.dzdr;j[1][1]=d.dzdtheta;j[2][2]=1; k[0][3]=e.d2Rdrdtheta;k[0][1]=e.d2Rdtheta2;k[1][3]=e.d2zdrdtheta;k[1][1]=e.d2zdtheta2; }
static void C(const PosDerivT<Cyl,ProlSph>& d,const PosDeriv2T<Cyl,ProlSph>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dlambdadR;j[0][1]=d.dlambdadz;j[1][0]=d.dnudR;j[1][1]=d.dnudz;j[2][2]=1; k[0][0]=e.d2lambdadR2;k[0][3]=e.d2lambdadRdz;k[0][1]=e.d2lambdadz2;k[1][0]=e.d2nudR2;k[1][3]=e.d2nudRdz;k[1][1]=e.d2nudz2; }
static void C(const PosDerivT<ProlSph,Cyl>& d,const PosDeriv2T<ProlSph,Cyl>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dRdlambda;j[0][1]=d.dRdnu;j[1][0]=d.dzdlambda;j[1][1]=d.dzdnu;j[2][2]=1; k[0][0]=e.d2Rdlambda2;k[0][3]=e.d2Rdlambdadnu;k[0][1]=e.d2Rdnu2;k[1][0]=e.d2zdlambda2;k[1][3]=e.d2zdlambdadnu;k[1][1]=e.d2zdnu2; }
static void C(const PosDerivT<Cyl,Axi>& d,const PosDeriv2T<Cyl,Axi>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.drhodR;j[0][1]=d.drhodz;j[1][0]=d.dnudR;j[1][1]=d.dnudz;j[2][2]=1; k[0][0]=e.d2rhodR2;k[0][3]=e.d2rhodRdz;k[0][1]=e.d2rhodz2;k[1][0]=e.d2nudR2;k[1][3]=e.d2nudRdz;k[1][1]=e.d2nudz2; }
static void C(const PosDerivT<Axi,Cyl>& d,const PosDeriv2T<Axi,Cyl>& e,J3 j,K3 k) { z(j,k); j[0][0]=d.dRdrho;j[0][1]=d.dRdnu;j[1][0]=d.dzdrho;j[1][1]=d.dzdnu;j[2][2]=1; k[0][0]=e.d2Rdrho2;k[0][3]=e.d2Rdrhodnu;k[0][1]=e.d2Rdnu2;k[1][0]=e.d2zdrho2;k[1][3]=e.d2zdrhodnu;k[1][1]=e.d2zdnu2; }
template<class T> struct nodef { static T* make(); };
// a scalar test function in source coordinates: smooth, generic, with all derivatives non-zero
static D testfun(const V3& q,bool axisym) { D a=q.c[0],b=q.c[1],c=q.c[2]; D v=D(1)/(D(1)+a*a*D(0.3L))+a*b*D(0.7L)+D(0.2L)*b*b*a; return axisym? v : v+sin(c)*a*D(0.4L)+c*c*b*D(0.15L); }
template<class S> struct Fn : public IScalarFunction<S> { double d2; bool axi; Fn(double _d2):d2(_d2),axi(Mk<S>::id==PROL) {}
    virtual void evalScalar(const PosT<S>& x,double* v,GradT<S>* g,HessT<S>* h,double time) const { double a[3]; A(x,a); V3 q; for(int i=0;i<3;i++) q.c[i]=ad::var(a[i],i); D f=testfun(q,axi)*D(1+time);
        if(v) *v=f.v; double t[6]; if(g) { for(int i=0;i<3;i++) t[i]=f.g[i]; G(t,*g); } if(h) { for(int i=0;i<6;i++) t[i]=f.h[i]; H(t,*h); } } };
static bool angEq(double a,double b,double tol) { double d=fmod(fabs(a-b),2*PI); return d<tol||2*PI-d<tol; }
static int unit(CS s,int i) { return s==CAR||(s==CYL&&i<2)||((s==SPH||s==AXI)&&i==0)?1: s==PROL&&i<2?2:0; }
// ---- derivatives and scalar functions, generic points
template<class S,class T> static void pair(const double* a,double d2,double tolJ,double tolK) { // S: source of the map, T: destination
    CS s=Mk<S>::id,t=Mk<T>::id; if(!begin(fmt("%s>%s %.3g %.3g %.3g D2=%g",nm[s],nm[t],a[0],a[1],a[2],d2))) return;
    V3 p; PosT<S> P=Mk<S>::p(a,d2); double a1[3]; A(P,a1); for(int i=0;i<3;i++) p.c[i]=ad::var(a1[i],i); V3 r=ref(s,t,p,d2);
    PosDerivT<S,T> dd; PosDeriv2T<S,T> ee; double q[3],q0[3]; PosT<T> Q=toPosDeriv<S,T>(P,&dd,&ee,Mk<T>::cs(d2)); A(Q,q); PosT<T> Q0=toPos<S,T>(P,Mk<T>::cs(d2)); A(Q0,q0);
    J3 j; K3 k; C(dd,ee,j,k);
    for(int i=0;i<3;i++) { bool ang= i==2&&t!=CAR; double sc= t==CAR||(t==CYL&&i<2)? (fabs((double)r.c[0].v)+fabs((double)r.c[1].v)+(t==CAR?fabs((double)r.c[2].v):0))*1e-13 : 0;
        check(ang? angEq(q[i],r.c[i].v,1e-14) : close(q[i],r.c[i].v,2e-13,sc),"toPosDeriv coordinate %d is %.17g instead of %.17g",i,q[i],(double)r.c[i].v);
        check(close(q0[i],q[i],1e-14,0),"toPos coordinate %d %.17g differs from toPosDeriv %.17g",i,q0[i],q[i]);
        // error scale of an entry: the largest entry of the same physical dimension
        for(int m=0;m<3;m++) { double sj=0; for(int i2=0;i2<3;i2++) for(int m2=0;m2<3;m2++) if(unit(t,i2)==unit(t,i)&&unit(s,m2)==unit(s,m)) sj=fmax(sj,fabs(r.c[i2].g[m2]));
            check(close(j[i][m],r.c[i].g[m],0,tolJ*sj),"first derivative of %s[%d] by %s[%d] is %.15g instead of %.15g",nm[t],i,nm[s],m,j[i][m],(double)r.c[i].g[m]); }
        for(int m=0;m<6;m++) { double sk=0; int um=unit(s,ad::IX[m])+unit(s,ad::IY[m]); for(int i2=0;i2<3;i2++) for(int m2=0;m2<6;m2++) if(unit(t,i2)==unit(t,i)&&unit(s,ad::IX[m2])+unit(s,ad::IY[m2])==um) sk=fmax(sk,fabs(r.c[i2].h[m2]));
            check(close(k[i][m],r.c[i].h[m],0,tolK*sk+(s==AXI?1e-14:0)),"second derivative #%d of %s[%d] is %.15g instead of %.15g",m,nm[t],i,k[i][m],(double)r.c[i].h[m]); } }
    // evaluate a function of the destination coordinates as a function of source coordinates, with every subset of outputs
    if(t==CAR||t==CYL||t==SPH||t==AXI||t==PROL) { if(s!=PROL&&fabs(a[0])<10&&fabs(a[0])>1e-3) evalAll(Fn<T>(d2),P,r,d2,tolJ,tolK); }
    outcome(fmt("%s%s%g",nm[s],nm[t],d2)); }
template<class S,class T> static void evalAll(const Fn<T>& F,const PosT<S>& P,const V3& r,double d2,double tolJ,double tolK) {
    D f=testfun(r,F.axi); double sg=0,sh=0; for(int m=0;m<3;m++) { double s=0; for(int i=0;i<3;i++) s+=fabs(r.c[i].g[m]); sg=fmax(sg,s); } 
    // magnitude of the individual terms in the chain rule, for the error budget
    V3 q; for(int i=0;i<3;i++) q.c[i]=ad::var(r.c[i].v,i); D f0=testfun(q,F.axi); double gm=0,hm=0; for(int i=0;i<3;i++) gm=fmax(gm,fabs(f0.g[i])); for(int i=0;i<6;i++) hm=fmax(hm,fabs(f0.h[i]));
    double kk=0; for(int i=0;i<3;i++) for(int m=0;m<6;m++) kk=fmax(kk,fabs(r.c[i].h[m])); sh=hm*sg*sg+gm*kk;
    for(int mask=0;mask<8;mask++) { double v=-1; GradT<S> g; HessT<S> h; double tm=mask*0.5; evalAndConvert<T,S>(F,P,mask&1?&v:NULL,mask&2?&g:NULL,mask&4?&h:NULL,tm,Mk<T>::cs(d2));
        L k=1+tm; double a[6]; if(mask&1) check(close(v,f.v*k,1e-12,1e-12),"value %.15g instead of %.15g",v,(double)(f.v*k));
        if(mask&2) { A(g,a); for(int m=0;m<3;m++) check(close(a[m],f.g[m]*k,0,k*tolJ*gm*sg*3),"%s gradient of a function of %s, component %d is %.15g instead of %.15g (outputs mask %d)",nm[Mk<S>::id],nm[Mk<T>::id],m,a[m],(double)(f.g[m]*k),mask); }
        if(mask&4) { A(h,a); for(int m=0;m<6;m++) check(close(a[m],f.h[m]*k,0,k*tolK*sh*3),"%s hessian of a function of %s, component %d is %.15g instead of %.15g (outputs mask %d)",nm[Mk<S>::id],nm[Mk<T>::id],m,a[m],(double)(f.h[m]*k),mask); } } }
// Axi / ProlSph as sources cannot be targets of evalAndConvert in the library: stubs
template<> void evalAll<Axi,Cyl>(const Fn<Cyl>& F,const PosAxi& P,const V3& r,double d2,double tolJ,double tolK) { PosDerivT<Axi,Cyl> dd; PosDeriv2T<Axi,Cyl> ee; PosCyl Q=toPosDeriv<Axi,Cyl>(P,&dd,&ee);
    GradCyl g; HessCyl h; F.evalScalar(Q,NULL,&g,&h,0); GradAxi G1=toGrad<Cyl,Axi>(g,dd); HessAxi H1=toHess<Cyl,Axi>(g,h,dd,ee); D f=testfun(r,F.axi); double a[6],s=0; for(int m=0;m<6;m++) s+=fabs(f.h[m])+(m<3?fabs(f.g[m]):0);
    A(G1,a); for(int m=0;m<3;m++) check(close(a[m],f.g[m],0,tolJ*s*10),"Axi gradient of a function of Cyl, component %d is %.15g instead of %.15g",m,a[m],(double)f.g[m]);
    A(H1,a); for(int m=0;m<6;m++) check(close(a[m],f.h[m],0,tolK*s*10),"Axi hessian of a function of Cyl, component %d is %.15g instead of %.15g",m,a[m],(double)f.h[m]); }
template<> void evalAll<ProlSph,Cyl>(const Fn<Cyl>&,const PosProlSph&,const V3&,double,double,double) {}
// ---- positions at special points: round trips
static double norm(const double* a) { return sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); }
static void poscar(double x,double y,double zz) {
    if(!begin(fmt("pos %.4g %.4g %.4g",x,y,zz))) return; double a[3]={x,y,zz},n=norm(a),b[3],tol=8e-15*n; PosCar p(x,y,zz);
    PosCyl c=toPosCyl(p); PosSph s=toPosSph(p);
    check(c.R>=0&&s.r>=0&&s.theta>=0&&s.theta<=PI+1e-15&&fabs(c.phi)<=2*PI,"coordinates out of range"); check(close(c.R,hypot(x,y),1e-15,0)&&c.z==zz,"cylindrical radius %.17g",c.R); check(close(s.r,n,1e-15,0),"spherical radius %.17g instead of %.17g",s.r,n);
    A(toPosCar(c),b); for(int i=0;i<3;i++) check(fabs(b[i]-a[i])<=tol,"Car>Cyl>Car changes coordinate %d: %.17g",i,b[i]);
    A(toPosCar(s),b); for(int i=0;i<3;i++) check(fabs(b[i]-a[i])<=tol,"Car>Sph>Car changes coordinate %d: %.17g",i,b[i]);
    A(toPosCar(toPosCyl(s)),b); for(int i=0;i<3;i++) check(fabs(b[i]-a[i])<=tol,"Car>Sph>Cyl>Car changes coordinate %d: %.17g",i,b[i]);
    PosSph s2=toPosSph(c); check(close(s2.r,s.r,2e-15,0)&&close(s2.theta,s.theta,2e-15,0)&&angEq(s2.phi,s.phi,1e-15),"Car>Cyl>Sph differs from Car>Sph: %.17g %.17g %.17g",s2.r,s2.theta,s2.phi);
    PosCyl c2=toPosCyl(s); check(close(c2.R,c.R,1e-14,tol)&&close(c2.z,c.z,1e-14,tol)&&c2.phi==c.phi,"Car>Sph>Cyl differs from Car>Cyl: %.17g %.17g",c2.R,c2.z);
    static const double D2[]={1,-1,0,0.3,-0.3,1e-12,-1e-12,1e6,-1e6};
    for(int k=0;k<9;k++) { double d=D2[k]; PosAxi q=toPos<Cyl,Axi>(c,Axi(d)); double sc=fmax(n,sqrt(fabs(d)));
        check(q.rho>=0 && !std::isnan(q.rho),"Axi rho=%.17g at D2=%g",q.rho,d);
        if(d==0&&n==0) continue; // nu is undefined
        if(!check(!std::isnan(q.cotnu),"Axi cot(nu) is NaN at D2=%g",d)) continue;
        PosCyl e=toPos<Axi,Cyl>(q); double t= 3e-15*n + 5e-15*sc; // on and near the focal disc/segment the map is only continuous, not Lipschitz
        check(fabs(e.R-c.R)<=t&&fabs(e.z-c.z)<=t&&e.phi==c.phi,"Cyl>Axi>Cyl at D2=%g: R=%.17g z=%.17g instead of %.17g %.17g",d,e.R,e.z,c.R,c.z);
        if(d>0) { ProlSph ps(sqrt(d)); PosProlSph w=toPos<Cyl,ProlSph>(c,ps); check(w.lambda>=ps.Delta2&&fabs(w.nu)<=ps.Delta2,"ProlSph coordinates out of range: %.17g %.17g D2=%g",w.lambda,w.nu,d);
            if(w.lambda>=ps.Delta2&&fabs(w.nu)<=ps.Delta2) { PosCyl f=toPos<ProlSph,Cyl>(w); double t2=3e-8*sc; // sqrt-type singular map in these coordinates
                bool generic=c.R>0.1*sc&&fabs(c.z)>0.1*sc&&n<10*sqrt(d); if(generic) t2=1e-13*sc;
                check(fabs(f.R-c.R)<=t2&&fabs(f.z-c.z)<=t2,"Cyl>ProlSph>Cyl at D2=%g: R=%.17g z=%.17g instead of %.17g %.17g",d,f.R,f.z,c.R,c.z); } } }
    outcome(fmt("p%d%d%d",x==0&&y==0,zz==0,n>1e3||n<1e-3)); }
static double speed(const PosVelCar& p) { return sqrt(p.vx*p.vx+p.vy*p.vy+p.vz*p.vz); } static double speed(const PosVelCyl& p) { return sqrt(p.vR*p.vR+p.vz*p.vz+p.vphi*p.vphi); } static double speed(const PosVelSph& p) { return sqrt(p.vr*p.vr+p.vtheta*p.vtheta+p.vphi*p.vphi); }
static bool same(const PosVelCar& a,const PosVelCar& b,double n,double v) { double t=1e-14*n,u=1e-14*v; return fabs(a.x-b.x)<=t&&fabs(a.y-b.y)<=t&&fabs(a.z-b.z)<=t&&fabs(a.vx-b.vx)<=u&&fabs(a.vy-b.vy)<=u&&fabs(a.vz-b.vz)<=u; }
static str show(const PosVelCar& a) { return fmt("(%.9g %.9g %.9g %.9g %.9g %.9g)",a.x,a.y,a.z,a.vx,a.vy,a.vz); }
static void posvel(double x,double y,double zz,double vx,double vy,double vz) {
    if(!begin(fmt("pv %.4g %.4g %.4g %.4g %.4g %.4g",x,y,zz,vx,vy,vz))) return; PosVelCar p(x,y,zz,vx,vy,vz); double a[3]={x,y,zz},b[3]={vx,vy,vz},n=norm(a),v=norm(b);
    PosVelCyl c=toPosVelCyl(p); PosVelSph s=toPosVelSph(p); PosVelSph s2=toPosVelSph(c); PosVelCyl c2=toPosVelCyl(s);
    double Lx=y*vz-zz*vy,Ly=zz*vx-x*vz,Lz_=x*vy-y*vx,Lt=sqrt(Lx*Lx+Ly*Ly+Lz_*Lz_);
    check(same(toPosVelCar(c),p,n,v),"Car>Cyl>Car gives %s",show(toPosVelCar(c)).c_str()); check(same(toPosVelCar(s),p,n,v),"Car>Sph>Car gives %s",show(toPosVelCar(s)).c_str());
    check(same(toPosVelCar(s2),p,n,v),"Car>Cyl>Sph>Car gives %s",show(toPosVelCar(s2)).c_str()); check(same(toPosVelCar(c2),p,n,v),"Car>Sph>Cyl>Car gives %s",show(toPosVelCar(c2)).c_str());
    check(close(speed(c),v,1e-14)&&close(speed(s),v,1e-14)&&close(speed(s2),v,1e-14)&&close(speed(c2),v,1e-14),"speed changes: %.15g %.15g %.15g %.15g instead of %.15g",speed(c),speed(s),speed(s2),speed(c2),v);
    double lt=1e-14*n*v; check(fabs(Ltotal(p)-Lt)<=lt&&fabs(Ltotal(c)-Lt)<=lt&&fabs(Ltotal(s)-Lt)<=lt,"Ltotal %.15g %.15g %.15g instead of %.15g",Ltotal(p),Ltotal(c),Ltotal(s),Lt);
    check(fabs(Lz(p)-Lz_)<=lt&&fabs(Lz(c)-Lz_)<=lt&&fabs(Lz(s)-Lz_)<=lt,"Lz %.15g %.15g %.15g instead of %.15g",Lz(p),Lz(c),Lz(s),Lz_);
    double rv=x*vx+y*vy+zz*vz; check(fabs(s.r*s.vr-rv)<=lt,"r*vr=%.15g instead of %.15g",s.r*s.vr,rv); check(fabs(c.R*c.vR+c.z*c.vz-rv)<=lt,"R vR + z vz is %.15g instead of %.15g",c.R*c.vR+c.z*c.vz,rv);
    PosCyl pc=toPosCyl(static_cast<const PosCar&>(p)); PosSph psp=toPosSph(static_cast<const PosCar&>(p)); if(x||y) check(close(pc.R,c.R,1e-15)&&angEq(pc.phi,c.phi,1e-15)&&close(psp.theta,s.theta,1e-15,0)&&close(psp.r,s.r,1e-15),"position part of toPosVel differs from toPos");
    double m0,m1,m2; s.momenta(m0,m1,m2); check(close(m0,s.vr,0)&&close(m1,s.r*s.vtheta,1e-15)&&fabs(m2-Lz_)<=lt,"spherical momenta %.15g %.15g %.15g",m0,m1,m2);
    c.momenta(m0,m1,m2); check(m0==c.vR&&m1==c.vz&&fabs(m2-Lz_)<=lt,"cylindrical momenta"); p.momenta(m0,m1,m2); check(m0==vx&&m1==vy&&m2==vz,"cartesian momenta");
    double un[6],un2[6]; c.unpack_to(un); PosVelCyl(un).unpack_to(un2); check(!memcmp(un,un2,48),"cylindrical pack/unpack"); s.unpack_to(un); PosVelSph(un).unpack_to(un2); check(!memcmp(un,un2,48),"spherical pack/unpack");
    static const double D2[]={1,-1,0,0.3,-0.3}; for(int k=0;k<5;k++) { double d=D2[k]; PosVelAxi q=toPosVel<Cyl,Axi>(c,Axi(d)); double sc=fmax(n,sqrt(fabs(d)));
        // the rest point at the origin of the spherical system has no direction; the foci are singular but documented
        double va=sqrt(q.vrho*q.vrho+q.vnu*q.vnu+q.vphi*q.vphi); if(!(d==0&&n==0&&c.vR==0)) check(close(va,v,1e-13),"Axi speed %.15g instead of %.15g, D2=%g",va,v,d);
        PosVelCyl e=toPosVel<Axi,Cyl>(q); double vt=1e-13*v; 
        // within the focal disc of the oblate system, the representation jumps across z=0 but is still invertible; at a focus itself the velocity frame is arbitrary but must be reproduced
        if(!(n==0&&d==0)||c.vR!=0) check(fabs(e.R-c.R)<=1e-14*sc&&fabs(e.z-c.z)<=1e-14*sc&&fabs(e.vR-c.vR)<=vt&&fabs(e.vz-c.vz)<=vt&&e.vphi==c.vphi,"Cyl>Axi>Cyl at D2=%g gives %.15g %.15g %.15g %.15g",d,e.R,e.z,e.vR,e.vz);
        if(!(n==0&&d==0)) { check(fabs(Lz(q)-Lz_)<=1e-13*sc*v&&fabs(Ltotal(q)-Lt)<=1e-13*sc*v,"Axi Lz=%.15g Ltotal=%.15g instead of %.15g %.15g",Lz(q),Ltotal(q),Lz_,Lt); q.momenta(m0,m1,m2); check(fabs(m2-Lz_)<=1e-13*sc*v,"Axi p_phi=%.15g instead of %.15g",m2,Lz_);
            // canonical momenta: p_rho = vR dR/drho + vz dz/drho etc.
            if(c.R>0) { PosDerivT<Axi,Cyl> j; toPosDeriv<Axi,Cyl>(q,&j); double pr=c.vR*j.dRdrho+c.vz*j.dzdrho,pn=c.vR*j.dRdnu+c.vz*j.dzdnu; if(isfin(pr)) check(fabs(m0-pr)<=1e-13*v,"Axi p_rho=%.15g instead of %.15g D2=%g",m0,pr,d); check(fabs(m1-pn)<=1e-13*v*sc,"Axi p_nu=%.15g instead of %.15g D2=%g",m1,pn,d); } }
        if(d>0&&!(c.R==0&&fabs(fabs(c.z)-sqrt(d))<1e-12)) { PosVelProlSph w=toPosVel<Cyl,ProlSph>(c,ProlSph(sqrt(d))); PosDerivT<Cyl,ProlSph> j; toPosDeriv<Cyl,ProlSph>(c,&j,NULL,ProlSph(sqrt(d)));
            check(close(w.lambdadot,j.dlambdadR*c.vR+j.dlambdadz*c.vz,1e-15,1e-15*v*sc)&&close(w.nudot,j.dnudR*c.vR+j.dnudz*c.vz,1e-15,1e-15*v*sc)&&close(w.phidot*c.R,c.R>0?c.vphi:0,1e-15),"ProlSph velocities %.15g %.15g %.15g",w.lambdadot,w.nudot,w.phidot); } }
    outcome(fmt("v%d%d%d%d",x==0&&y==0,zz==0,vx==0&&vy==0,vz==0)); }
// ---- spherical functions
class Rad: public math::IFunction { public: int kind; Rad(int k):kind(k) {} virtual void evalDeriv(double r,double* v,double* d,double* d2) const { if(kind==0) { if(v) *v=1/(1+r*r); if(d) *d=-2*r/(1+r*r)/(1+r*r); if(d2) *d2=(6*r*r-2)/(1+r*r)/(1+r*r)/(1+r*r); } else { if(v) *v=r*r; if(d) *d=2*r; if(d2) *d2=2; } } virtual unsigned int numDerivs() const { return 2; } };
static D radial(const D& r2,int k) { return k==0? D(1)/(D(1)+r2) : r2; }
static void sphfun(const double* a,int kind) { if(!begin(fmt("sphfun %.3g %.3g %.3g %d",a[0],a[1],a[2],kind))) return; Rad F(kind); V3 p; for(int i=0;i<3;i++) p.c[i]=ad::var(a[i],i);
    D f=radial(p.c[0]*p.c[0]+p.c[1]*p.c[1]+p.c[2]*p.c[2],kind), fc=radial(p.c[0]*p.c[0]+p.c[1]*p.c[1],kind), fs=radial(p.c[0]*p.c[0],kind); D* rf[3]={&f,&fc,&fs};
    for(int cs=0;cs<3;cs++) for(int mask=0;mask<8;mask++) { double v=0,g[3]={0},h[6]={0}; GradCar gc; HessCar hc; GradCyl gy; HessCyl hy; GradSph gs; HessSph hs;
        if(cs==0) { evalAndConvertSph<Car>(F,PosCar(a[0],a[1],a[2]),mask&1?&v:0,mask&2?&gc:0,mask&4?&hc:0); if(mask&2) A(gc,g); if(mask&4) A(hc,h); }
        if(cs==1) { evalAndConvertSph<Cyl>(F,PosCyl(a[0],a[1],a[2]),mask&1?&v:0,mask&2?&gy:0,mask&4?&hy:0); if(mask&2) A(gy,g); if(mask&4) A(hy,h); }
        if(cs==2) { evalAndConvertSph<Sph>(F,PosSph(a[0],a[1],a[2]),mask&1?&v:0,mask&2?&gs:0,mask&4?&hs:0); if(mask&2) A(gs,g); if(mask&4) A(hs,h); }
        D& r=*rf[cs]; double sg=1e-14,sh=1e-13; for(int i=0;i<3;i++) sg=fmax(sg,1e-14*fabs(r.g[i])); for(int i=0;i<6;i++) sh=fmax(sh,1e-13*fabs(r.h[i]));
        if(mask&1) check(close(v,r.v,1e-14),"%s: value %.15g instead of %.15g",nm[cs],v,(double)r.v); if(mask&2) for(int i=0;i<3;i++) check(fabs(g[i]-r.g[i])<=sg,"%s: gradient[%d]=%.15g instead of %.15g, mask %d",nm[cs],i,g[i],(double)r.g[i],mask);
        if(mask&4) for(int i=0;i<6;i++) check(fabs(h[i]-r.h[i])<=sh,"%s: hessian[%d]=%.15g instead of %.15g, mask %d",nm[cs],i,h[i],(double)r.h[i],mask); } outcome(fmt("s%d",kind)); }
// ---- two-step conversion through an intermediate system
static void twostep(double x,double y,double zz,double d2) { if(!begin(fmt("twostep %.3g %.3g %.3g %g",x,y,zz,d2))) return; Fn<ProlSph> F(d2); V3 p; p.c[0]=ad::var(x,0); p.c[1]=ad::var(y,1); p.c[2]=ad::var(zz,2); V3 r=ref(CYL,PROL,ref(CAR,CYL,p,d2),d2); D f=testfun(r,true);
    double sg=0,sh=0; for(int i=0;i<3;i++) for(int m=0;m<6;m++) { sg=fmax(sg,fabs(m<3?r.c[i].g[m]:0)); sh=fmax(sh,fabs(r.c[i].h[m])); } V3 q; for(int i=0;i<3;i++) q.c[i]=ad::var(r.c[i].v,i); D f0=testfun(q,true); double gm=0,hm=0; for(int i=0;i<6;i++) { if(i<3) gm=fmax(gm,fabs(f0.g[i])); hm=fmax(hm,fabs(f0.h[i])); }
    for(int mask=0;mask<8;mask++) { double v=0,a[6]; GradCar g; HessCar h; evalAndConvertTwoStep<ProlSph,Cyl,Car>(F,PosCar(x,y,zz),ProlSph(sqrt(d2)),mask&1?&v:0,mask&2?&g:0,mask&4?&h:0,0.5*mask); L k=1+0.5L*mask;
        if(mask&1) check(close(v,f.v*k,1e-12),"two-step value %.15g instead of %.15g",v,(double)(f.v*k));
        if(mask&2) { A(g,a); for(int m=0;m<3;m++) check(fabs(a[m]-f.g[m]*k)<=1e-12*gm*sg*k,"two-step gradient[%d]=%.15g instead of %.15g mask %d",m,a[m],(double)(f.g[m]*k),mask); }
        if(mask&4) { A(h,a); for(int m=0;m<6;m++) check(fabs(a[m]-f.h[m]*k)<=1e-10*(hm*sg*sg+gm*sh)*k,"two-step hessian[%d]=%.15g instead of %.15g mask %d",m,a[m],(double)(f.h[m]*k),mask); } } outcome("t"); }
// ---- rotations
static void mul(const double a[9],const double b[9],double c[9]) { for(int i=0;i<3;i++) for(int j=0;j<3;j++) { c[i*3+j]=0; for(int k=0;k<3;k++) c[i*3+j]+=a[i*3+k]*b[k*3+j]; } }
static void rot(double al,double be,double ga) { if(!begin(fmt("rot %.6g %.6g %.6g",al,be,ga))) return; Orientation o(al,be,ga);
    double A1[9]={cos(al),sin(al),0,-sin(al),cos(al),0,0,0,1},B1[9]={1,0,0,0,cos(be),sin(be),0,-sin(be),cos(be)},C1[9]={cos(ga),sin(ga),0,-sin(ga),cos(ga),0,0,0,1},t[9],R[9]; mul(B1,A1,t); mul(C1,t,R);
    for(int i=0;i<9;i++) check(fabs(o.mat[i]-R[i])<2e-15*4,"matrix element %d is %.17g instead of %.17g",i,o.mat[i],R[i]);
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) { double s=0; for(int k=0;k<3;k++) s+=o.mat[i*3+k]*o.mat[j*3+k]; check(fabs(s-(i==j))<4e-15,"matrix is not orthogonal"); }
    double a,b,c; o.toEulerAngles(a,b,c); check(fabs(a)<=PI+1e-15&&fabs(c)<=PI+1e-15&&b>=0&&b<=PI+1e-15,"Euler angles out of range: %g %g %g",a,b,c); Orientation o2(a,b,c); for(int i=0;i<9;i++) check(fabs(o.mat[i]-o2.mat[i])<2e-14,"matrix from the angles (%.15g,%.15g,%.15g) returned by toEulerAngles differs in element %d: %.15g instead of %.15g",a,b,c,i,o2.mat[i],o.mat[i]);
    check(o.isFaceOn()==(fabs(o.mat[8])==1),"isFaceOn"); Orientation oi(-ga,-be,-al);
    static const double VV[4][6]={{1,0,0,0,1,0},{0.3,-2,0.7,1.5,0.2,-1},{-1,0.5,4,0,0,3},{0,0,0,1,-1,2}};
    for(int n=0;n<4;n++) { const double* v=VV[n]; double w[6],u[6],e[6]; for(int i=0;i<3;i++) { e[i]=e[i+3]=0; for(int k=0;k<3;k++) { e[i]+=R[i*3+k]*v[k]; e[i+3]+=R[i*3+k]*v[k+3]; } }
        PosVelCar p(v),q=o.toRotated(p),r=o.fromRotated(q); q.unpack_to(w); r.unpack_to(u); for(int i=0;i<6;i++) check(fabs(w[i]-e[i])<3e-14&&fabs(u[i]-v[i])<3e-14,"toRotated component %d %.15g instead of %.15g, or fromRotated is not inverse",i,w[i],e[i]);
        A(o.toRotated(static_cast<const PosCar&>(p)),w); for(int i=0;i<3;i++) check(fabs(w[i]-e[i])<3e-14,"toRotated position"); A(o.fromRotated(PosCar(w[0],w[1],w[2])),u); for(int i=0;i<3;i++) check(fabs(u[i]-v[i])<3e-14,"fromRotated position");
        VelCar vr=o.toRotated(static_cast<const VelCar&>(p)); check(fabs(vr.vx-e[3])<3e-14&&fabs(vr.vy-e[4])<3e-14&&fabs(vr.vz-e[5])<3e-14,"toRotated velocity"); VelCar vb=o.fromRotated(vr); check(fabs(vb.vx-v[3])<3e-14&&fabs(vb.vy-v[4])<3e-14&&fabs(vb.vz-v[5])<3e-14,"fromRotated velocity");
        GradCar g; G(v,g); A(o.toRotated(g),w); for(int i=0;i<3;i++) check(fabs(w[i]-e[i])<3e-14,"toRotated gradient"); A(o.fromRotated(o.toRotated(g)),u); for(int i=0;i<3;i++) check(fabs(u[i]-v[i])<3e-14,"fromRotated gradient");
        PosCar inv=oi.toRotated(static_cast<const PosCar&>(p)), fr=o.fromRotated(static_cast<const PosCar&>(p)); check(fabs(inv.x-fr.x)<3e-14&&fabs(inv.y-fr.y)<3e-14&&fabs(inv.z-fr.z)<3e-14,"angles (-gamma,-beta,-alpha) are not the inverse rotation");
        // symmetric tensors: H' = R H R^T
        double M[9]={v[0],v[3],v[5],v[3],v[1],v[4],v[5],v[4],v[2]},T[9],N[9],RT[9]; for(int i=0;i<3;i++) for(int k=0;k<3;k++) RT[i*3+k]=R[k*3+i]; mul(R,M,T); mul(T,RT,N); double he[6]={N[0],N[4],N[8],N[1],N[5],N[2]};
        HessCar h; H(v,h); HessCar hr=o.toRotated(h); A(hr,w); A(o.fromRotated(hr),u); for(int i=0;i<6;i++) { check(fabs(w[i]-he[i])<6e-14,"toRotated hessian component %d is %.15g instead of %.15g",i,w[i],he[i]); check(fabs(u[i]-v[i])<6e-14,"fromRotated hessian component %d is %.15g instead of %.15g",i,u[i],v[i]); }
        Vel2Car s; s.vx2=v[0];s.vy2=v[1];s.vz2=v[2];s.vxvy=v[3];s.vyvz=v[4];s.vxvz=v[5]; Vel2Car sr=o.toRotated(s),sb=o.fromRotated(sr); double sw[6]={sr.vx2,sr.vy2,sr.vz2,sr.vxvy,sr.vyvz,sr.vxvz},sv[6]={sb.vx2,sb.vy2,sb.vz2,sb.vxvy,sb.vyvz,sb.vxvz};
        for(int i=0;i<6;i++) { check(fabs(sw[i]-he[i])<6e-14,"toRotated second velocity moment %d is %.15g instead of %.15g",i,sw[i],he[i]); check(fabs(sv[i]-v[i])<6e-14,"fromRotated second velocity moment %d",i); } }
    outcome(fmt("r%d",o.isFaceOn())); }
template<class G1> static void comb3(const char* n) { if(!begin(str("combine ")+n)) return; double a[6]={1,2,3,5,7,11},b[6]={-3,0.5,4,1,9,2},r[6]; for(int i=0;i<3;i++) for(int k=0;k<3;k++) { double p=i-0.5,q=k*2-1; G1 A1,B1; G(a,A1); G(b,B1); combine(A1,B1,p,q); A(A1,r); for(int m=0;m<3;m++) check(r[m]==p*a[m]+q*b[m],"combine component %d",m); G(a,A1); combine(A1,B1); A(A1,r); for(int m=0;m<3;m++) check(r[m]==a[m]+b[m],"combine with default weights, component %d",m); clear(A1); A(A1,r); for(int m=0;m<3;m++) check(r[m]==0,"clear"); } outcome("c"); }
template<class G1> static void comb6(const char* n) { if(!begin(str("combine ")+n)) return; double a[6]={1,2,3,5,7,11},b[6]={-3,0.5,4,1,9,2},r[6]; for(int i=0;i<3;i++) for(int k=0;k<3;k++) { double p=i-0.5,q=k*2-1; G1 A1,B1; H(a,A1); H(b,B1); combine(A1,B1,p,q); A(A1,r); for(int m=0;m<6;m++) check(r[m]==p*a[m]+q*b[m],"combine component %d",m); H(a,A1); combine(A1,B1); A(A1,r); for(int m=0;m<6;m++) check(r[m]==a[m]+b[m],"combine with default weights, component %d",m); clear(A1); A(A1,r); for(int m=0;m<6;m++) check(r[m]==0,"clear"); } outcome("c"); }
static void trig(double x) { if(!begin(fmt("sincos %.17g",x))) return; double s,c; math::sincos(x,s,c); check(fabs(s-sinl(x))<4e-16+2e-16*fabs(x)&&fabs(c-cosl(x))<4e-16+2e-16*fabs(x),"sincos(%.17g)=%.17g,%.17g",x,s,c); outcome("trig"); }
int main(int argc,char** argv) { init(argc,argv); bool T=thorough();
    static const double q1[]={-2.7,-1.3,-0.4,0.4,1,2.7}; int n1=6; static const double scl[]={1,1e-8,1e8}; 
    for(int sc=0;sc<3;sc++) for(int i=0;i<n1;i++) for(int j=0;j<n1;j++) for(int k=0;k<n1;k++) { double s=scl[sc],a[3]={q1[i]*s,q1[j]*s,q1[k]*s}; pair<Car,Cyl>(a,0,1e-12,1e-11); pair<Car,Sph>(a,0,1e-12,1e-11); }
    static const double Rr[]={0.2,0.7,1.6,5}, ph[]={-2.9,-0.7,0,0.4,PI/2,2.2,4.1}, th[]={0.02,0.4,1.1,PI/2,1.9,2.8,3.12}; static const double zz[]={-4,-0.6,-0.05,0.3,2.5}; static const double D2[]={1,-1,0,0.3,-0.3,20,-20};
    for(int sc=0;sc<3;sc++) for(int i=0;i<4;i++) for(int k=0;k<7;k++) { double s=scl[sc]; for(int j=0;j<5;j++) { double a[3]={Rr[i]*s,zz[j]*s,ph[k]}; pair<Cyl,Car>(a,0,1e-12,1e-11); pair<Cyl,Sph>(a,0,1e-12,1e-11);
            if(sc==0) for(int d=0;d<7;d++) { pair<Cyl,Axi>(a,D2[d],1e-11,1e-9); if(D2[d]>0) pair<Cyl,ProlSph>(a,D2[d],1e-11,1e-9); } }
        for(int j=0;j<7;j++) { double a[3]={Rr[i]*s,th[j],ph[k]}; pair<Sph,Car>(a,0,1e-12,1e-11); pair<Sph,Cyl>(a,0,1e-12,1e-11); if(sc==0) for(int d=0;d<7;d++) pair<Axi,Cyl>(a,D2[d],1e-11,1e-10);
            if(sc==0) for(int d=0;d<7;d++) if(D2[d]>0&&fabs(cos(th[j]))>1e-3) { double b[3]={D2[d]+Rr[i]*Rr[i],D2[d]*cos(th[j])*0.99,ph[k]}; pair<ProlSph,Cyl>(b,D2[d],1e-11,1e-10); } } }
    std::vector<double> c; static const double base[]={0,1,0.5,-1,-0.5,1e-10,-1e-10,1e5,-1e5,0.7,-0.3}; for(int i=0;i<(T?11:9);i++) c.push_back(base[i]);
    if(T) { c.push_back(1e-60); c.push_back(1e60); c.push_back(-3e-5); } 
    for(size_t i=0;i<c.size();i++) for(size_t j=0;j<c.size();j++) for(size_t k=0;k<c.size();k++) poscar(c[i],c[j],c[k]);
    static const double pb[]={0,1,-1,0.3,-1e-6}, vb[]={0,1,-1,0.2}; for(int i=0;i<5;i++) for(int j=0;j<5;j++) for(int k=0;k<5;k++) for(int l=0;l<4;l++) for(int m=0;m<4;m++) for(int n=0;n<4;n++) posvel(pb[i],pb[j],pb[k],vb[l],vb[m],vb[n]);
    static const double sf[]={0,0.5,2,-1.5,1e-4}; for(int i=0;i<5;i++) for(int j=0;j<5;j++) for(int k=0;k<5;k++) for(int d=0;d<2;d++) { double a[3]={sf[i],sf[j],sf[k]}; sphfun(a,d); }
    for(int i=0;i<n1;i++) for(int j=0;j<n1;j++) for(int k=0;k<n1;k++) { twostep(q1[i],q1[j],q1[k],1); twostep(q1[i],q1[j],q1[k],9); twostep(q1[i],q1[j],q1[k],0.1); }
    int na=T?24:12; std::vector<double> ang; for(int i=-na;i<=na;i++) ang.push_back(2*PI*i/na*0.5+0); ang.push_back(0.1); ang.push_back(-0.7); ang.push_back(1e-9); ang.push_back(5); ang.push_back(PI-1e-9); ang.push_back(2);
    for(size_t i=0;i<ang.size();i++) for(size_t j=0;j<ang.size();j++) for(size_t k=0;k<ang.size();k++) rot(ang[i],ang[j],ang[k]);
    comb3<GradCar>("GradCar"); comb3<GradCyl>("GradCyl"); comb3<GradSph>("GradSph"); comb6<HessCar>("HessCar"); comb6<HessCyl>("HessCyl"); comb6<HessSph>("HessSph");
    for(int i=-2000;i<=2000;i++) { trig(i*PI/16); trig(i*0.01); trig(i*PI/4*(1+1e-15)); }
    return finish(); }
