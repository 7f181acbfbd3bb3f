// P02: the declared symmetry of a density or potential is its actual symmetry.
// For every model (library palette, coefficient-defined expansions with every subset of terms, all modifiers and pairs of
// modifiers, all pairs of modified components) every generator of the declared symmetry and every product of two generators is
// applied to every point of a grid; potential, force, hessian and density must transform accordingly. A declared symmetry that
// the model does not have also shows up as terms missing from an expansion, so coefficient-defined models are compared with a
// direct sum over harmonics.  All numerical symmetry codes are printed and parsed.
#include "expmodels.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include "potential_composite.h"
#include "particles_base.h"
using namespace vh; using namespace coord; using namespace potential; using namespace expmodels;
struct R3 { double m[9]; const char* name; };
static R3 mat(const char* name,double a,double b,double c,double d,double e,double f,double g,double h,double i) { R3 r; double v[9]={a,b,c,d,e,f,g,h,i}; for(int k=0;k<9;k++) r.m[k]=v[k]; r.name=name; return r; }
static R3 mul(const R3& a,const R3& b) { R3 r; r.name=a.name; for(int i=0;i<3;i++) for(int j=0;j<3;j++) { double s=0; for(int k=0;k<3;k++) s+=a.m[i*3+k]*b.m[k*3+j]; r.m[i*3+j]=s; } return r; }
static R3 axisrot(const char* n,double x,double y,double z,double t) { double l=sqrt(x*x+y*y+z*z); x/=l; y/=l; z/=l; double c=cos(t),s=sin(t),u=1-c; return mat(n,c+x*x*u,x*y*u-z*s,x*z*u+y*s,y*x*u+z*s,c+y*y*u,y*z*u-x*s,z*x*u-y*s,z*y*u+x*s,c+z*z*u); }
static std::vector<R3> group(int sym) {
    std::vector<R3> g; std::vector<R3> gen;
    if(sym&ST_XREFLECTION) gen.push_back(mat("x-reflection",-1,0,0,0,1,0,0,0,1));
    if(sym&ST_YREFLECTION) gen.push_back(mat("y-reflection",1,0,0,0,-1,0,0,0,1));
    if(sym&ST_ZREFLECTION) gen.push_back(mat("z-reflection",1,0,0,0,1,0,0,0,-1));
    if(sym&ST_REFLECTION) gen.push_back(mat("reflection",-1,0,0,0,-1,0,0,0,-1));
    if(sym&ST_ZROTATION) { gen.push_back(mat("z-rotation by pi/2",0,-1,0,1,0,0,0,0,1)); gen.push_back(axisrot("z-rotation",0,0,1,0.37)); gen.push_back(axisrot("z-rotation",0,0,1,2.5)); }
    if(sym&ST_ROTATION) { gen.push_back(mat("swap of axes",0,0,1,1,0,0,0,1,0)); gen.push_back(axisrot("rotation",1,0.3,-0.5,0.9)); gen.push_back(axisrot("rotation",-0.2,1,0.1,2.7)); }
    g=gen; for(size_t i=0;i<gen.size();i++) for(size_t j=0;j<gen.size();j++) if(i!=j) g.push_back(mul(gen[i],gen[j]));
    return g; }
static const double PT[][3]={{0.3,-0.2,0.1},{0.05,0.02,-0.01},{1.1,0.4,-0.6},{-0.4,1.3,0.7},{2.5,-3.1,1.2},{-7,5,-3},{30,20,-25},{0.8,0,0},{0,-1.2,0},{0,0,0.9},{1.4,-0.7,0},{0,0.6,-1.1},{-0.5,0,0.45},{3e-3,2e-3,-4e-3}};
static const int NPT=sizeof(PT)/sizeof(PT[0]);
static double maxdev[4];
static void near(int w,const char* what,const R3& M,const double* p,double a,double b,double scale,double tol) {
    if(!std::isfinite(a)||!std::isfinite(b)) { check(std::isfinite(a)==std::isfinite(b)||fabs(p[0]*p[1]*p[2])==0,"%s under %s at (%g,%g,%g): %.12g vs %.12g",what,M.name,p[0],p[1],p[2],a,b); return; }
    double d=fabs(a-b); if(d>tol*scale) check(false,"%s is not invariant under the declared %s at (%g,%g,%g): %.15g vs %.15g (scale %g)",what,M.name,p[0],p[1],p[2],a,b,scale); else { S.nchecks++; if(scale>0&&d/scale>maxdev[w]) maxdev[w]=d/scale; } }
struct Ev { double v,g[3],h[9],rho; };
static void tensor(const HessCar& h,double* o) { o[0]=h.dx2; o[4]=h.dy2; o[8]=h.dz2; o[1]=o[3]=h.dxdy; o[2]=o[6]=h.dxdz; o[5]=o[7]=h.dydz; }
static void ev(const BasePotential& p,const double* x,double t,Ev& e) { GradCar g; HessCar h; p.eval(PosCar(x[0],x[1],x[2]),&e.v,&g,&h,t); e.g[0]=g.dx; e.g[1]=g.dy; e.g[2]=g.dz; tensor(h,e.h); e.rho=p.density(PosCar(x[0],x[1],x[2]),t); }
static void testPot(const BasePotential& P,double tol,bool expan) {
    std::vector<R3> G=group(P.symmetry()); S.traces++; double tols[3]={0,0.8,-1.7}; double t1=fmax(tol,1e-11), t2=fmax(tol*10,expan?1e-8:1e-9);
    for(int it=0;it<3;it++) for(int i=0;i<NPT;i++) { Ev a; ev(P,PT[i],tols[it],a); double r=sqrt(PT[i][0]*PT[i][0]+PT[i][1]*PT[i][1]+PT[i][2]*PT[i][2]); double gs=0,hs=0; for(int k=0;k<3;k++) gs+=fabs(a.g[k]); for(int k=0;k<9;k++) hs+=fabs(a.h[k]);
        double R=hypot(PT[i][0],PT[i][1]);
        for(size_t j=0;j<G.size();j++) { const R3& M=G[j]; double q[3]; for(int k=0;k<3;k++) q[k]=M.m[k*3]*PT[i][0]+M.m[k*3+1]*PT[i][1]+M.m[k*3+2]*PT[i][2]; Ev b; ev(P,q,tols[it],b); S.states++;
            double sv=fabs(a.v)+gs*r+1e-12,sg=gs+fabs(a.v)/r*1e-4+hs*r,sh=hs+gs/r+fabs(a.v)/r/r*1e-3; bool refl=true; for(int k=0;k<9;k++) if(M.m[k]!=0&&M.m[k]!=1&&M.m[k]!=-1) refl=false; double f=refl?1:100;
            near(0,"potential",M,PT[i],a.v,b.v,sv,t1); for(int k=0;k<3;k++) { double e=0; for(int l=0;l<3;l++) e+=M.m[k*3+l]*a.g[l]; near(1,"force",M,PT[i],e,b.g[k],sg,t1*10*f); }
            if(!expan||R>0) for(int k=0;k<3;k++) for(int n=0;n<3;n++) { double e=0; for(int l=0;l<3;l++) for(int o=0;o<3;o++) e+=M.m[k*3+l]*a.h[l*3+o]*M.m[n*3+o]; near(2,"second derivative",M,PT[i],e,b.h[k*3+n],sh,t2); }
            if(!expan||R>0) near(3,"density",M,PT[i],a.rho,b.rho,fabs(a.rho)+sh/12.566,t2); } } }
// a model written by the user, with any symmetry code (including "unknown") and the shape that goes with it (unknown: none at all)
static double shape(int s,const PosCar& p) { double x=p.x,y=p.y,z=p.z,v=1/(1+0.5*x*x+0.7*y*y+1.1*z*z); if(s&ST_ROTATION&~64) return 1/(1+x*x+y*y+z*z); if(s&64) return v*(1+0.3*tanh(x-0.4*y+0.7*z+0.2*x*y)); if(s==ST_NONE) return v*(1+0.3*tanh(x-0.4*y+0.7*z)); if((s&15)==ST_REFLECTION) return v*(1+0.3*tanh(x*y-0.4*y*z+0.7*z*x)); if((s&15)==ST_ZREFLECTION) return v*(1+0.3*tanh(x-0.4*y)); if((s&15)==ST_XREFLECTION) return v*(1+0.3*tanh(z-0.4*y)); if((s&15)==ST_YREFLECTION) return v*(1+0.3*tanh(x-0.4*z)); if((s&15)==ST_BISYMMETRIC) return v*(1+0.3*tanh(x*y)); if(s&ST_ZROTATION) return 1/(1+x*x+y*y+1.7*z*z); return v; }
class UserDens: public BaseDensity { SymmetryType s; public: UserDens(SymmetryType _s): s(_s) {} virtual SymmetryType symmetry() const { return s; } virtual std::string name() const { return "user"; } virtual double densityCar(const PosCar& p,double) const { return shape(s,p); } virtual double densityCyl(const PosCyl& p,double t) const { return densityCar(toPosCar(p),t); } virtual double densitySph(const PosSph& p,double t) const { return densityCar(toPosCar(p),t); } };
class UserPot: public BasePotentialCar { SymmetryType s; public: UserPot(SymmetryType _s): s(_s) {} virtual SymmetryType symmetry() const { return s; } virtual std::string name() const { return "user"; }
    virtual void evalCar(const PosCar& p,double* v,GradCar* g,HessCar* h,double) const { const double e=1e-3; PosCar q[3][2]; for(int k=0;k<3;k++) for(int d=0;d<2;d++) { double c[3]={p.x,p.y,p.z}; c[k]+=d?e:-e; q[k][d]=PosCar(c[0],c[1],c[2]); } double f0=-shape(s,p),D[3],H[3]; for(int k=0;k<3;k++) { double a=-shape(s,q[k][0]),b=-shape(s,q[k][1]); D[k]=(b-a)/2/e; H[k]=(a+b-2*f0)/e/e; } if(v) *v=f0; if(g) { g->dx=D[0]; g->dy=D[1]; g->dz=D[2]; } if(h) { h->dx2=H[0]; h->dy2=H[1]; h->dz2=H[2]; h->dxdy=h->dxdz=h->dydz=0; } } };
static math::CubicSpline line(double a,double b) { std::vector<double> x(2),y(2); x[0]=-9; x[1]=9; y[0]=a-9*b; y[1]=a+9*b; return math::CubicSpline(x,y); }
// only the values are compared (the derivatives of the user's potential are rough), and an unknown symmetry promises nothing
static void testVal(const BaseDensity& D,const BasePotential* P) { int sym=D.symmetry(); S.traces++; check(sym==64||(sym>=0&&sym<64),"symmetry code %d",sym); if(sym==64) return; std::vector<R3> G=group(sym);
    for(int i=0;i<NPT;i++) { PosCar x(PT[i][0],PT[i][1],PT[i][2]); double a=P?P->value(x):D.density(x); for(size_t j=0;j<G.size();j++) { const R3& M=G[j]; double q[3]; for(int k=0;k<3;k++) q[k]=M.m[k*3]*PT[i][0]+M.m[k*3+1]*PT[i][1]+M.m[k*3+2]*PT[i][2]; PosCar y(q[0],q[1],q[2]); S.states++; near(3,P?"potential":"density",M,PT[i],a,P?P->value(y):D.density(y),fabs(a)+1e-14,1e-10); } } }
static void testDens(const BaseDensity& D,double tol) {
    std::vector<R3> G=group(D.symmetry()); S.traces++;
    for(int it=0;it<2;it++) for(int i=0;i<NPT;i++) { double t=it*0.9,a=D.density(PosCar(PT[i][0],PT[i][1],PT[i][2]),t); double c=D.density(toPosCyl(PosCar(PT[i][0],PT[i][1],PT[i][2])),t); (void)c;
        for(size_t j=0;j<G.size();j++) { const R3& M=G[j]; double q[3]; for(int k=0;k<3;k++) q[k]=M.m[k*3]*PT[i][0]+M.m[k*3+1]*PT[i][1]+M.m[k*3+2]*PT[i][2]; S.states++; PosCar pc(q[0],q[1],q[2]);
            near(3,"density",M,PT[i],a,D.density(pc,t),fabs(a)+1e-14,fmax(tol,1e-9)); near(3,"density (cyl)",M,PT[i],a,D.density(toPosCyl(pc),t),fabs(a)+1e-14,fmax(tol,1e-9)); near(3,"density (sph)",M,PT[i],a,D.density(toPosSph(pc),t),fabs(a)+1e-14,fmax(tol,1e-9)); } } }
// ---- modifiers
static const char* MOD[]={"","scale=2,0.5","orientation=0.3,0,0","orientation=1.5707963267948966,0,0","orientation=0,1.5707963267948966,0","orientation=0,3.141592653589793,0","orientation=0.3,0.7,1.1","orientation=0,0.4,0","center=0.3,0,0","center=0,0.2,0","center=0,0,-0.4","center=0.1,0.2,0.3","center=@/traj.txt","rotation=0.4","rotation=0","rotation=@/rot.txt","scale=@/scal.txt"};
static const int NMOD=sizeof(MOD)/sizeof(MOD[0]);
static const char* BASE[]={"type=Plummer","type=MiyamotoNagai scaleRadius=1 scaleHeight=0.3","type=Logarithmic p=0.8 q=0.6 scaleRadius=0.4","type=Harmonic Omega=0.4 p=0.9 q=0.6","file=@/offmul.ini","file=@/offcyl.ini","type=KeplerBinary mass=2 binary_q=0.5 binary_sma=1.5 binary_ecc=0.4","type=UniformAcceleration file=@/acc.txt","type=Multipole density=Spheroid p=0.8 q=0.6 lmax=4 gridSizeR=12 rmin=0.05 rmax=30"};
static const int NBASE=sizeof(BASE)/sizeof(BASE[0]);
static int kindOf(const char* m) { return m[0]=='s'?0:m[0]=='o'?1:m[0]=='c'?2:m[0]=='r'?3:4; }
// ---- direct sum over harmonics
static double plm(int l,int m,double x) { double s=sqrt(fmax(0,1-x*x)),pmm=1; for(int i=1;i<=m;i++) pmm*=-(2*i-1)*s; if(l==m) return pmm; double p1=x*(2*m+1)*pmm; for(int k=m+2;k<=l;k++) { double p=((2*k-1)*x*p1-(k+m-1)*pmm)/(k-m); pmm=p1; p1=p; } return p1; }
static double ylm(int l,int m,double ct,double phi) { int M=abs(m); double f=2*l+1; for(int k=l-M+1;k<=l+M;k++) f/=k; return sqrt(f)*plm(l,M,ct)*(m==0?1:M_SQRT2*(m>0?cos(m*phi):sin(-m*phi))); }  // normalised so that Y00=1, with the Condon-Shortley phase
static double val(const BaseDensity& D,const PosCar& p) { const BasePotential* P=dynamic_cast<const BasePotential*>(&D); return P?P->value(p):D.density(p); }
static const double ANG[][2]={{0.3,0.4},{-0.7,1.9},{0.1,-2.2},{0.9,3.0},{-0.2,-0.8},{0,0.9},{-0.95,-1.3}};
static const double RAD[]={0.004,0.0237,0.07,0.31,0.77,1.9,4.4,11.3,60};
static void harmonics(bool T) {   // Multipole with lmax>2 also interpolates in the polar angle between a few nodes: not linearly in the amplitudes: only a rough check between the nodes of the radial grid
    for(int cls=0;cls<3;cls++) for(int lmax=1;lmax<=3;lmax++) for(int mag=0;mag<(T?3:2);mag++) { int nc=(lmax+1)*(lmax+1); std::vector<PtrDensity> one(nc); double nodes[6];
        for(int c=0;c<nc;c++) { unsigned m=c?1u<<(c-1):0; one[c] = cls==0?mkMul(lmax,m,6,mag,0.02,20):cls==1?mkBSE(lmax,m,3,mag,0.95,0.6):mkDSH(lmax,m,6,mag,0.02,13); }
        for(int i=0;i<6;i++) nodes[i]=0.02*pow((cls==2?13:20)/0.02,i/5.);
        for(int c=1;c<nc;c++) { if(!begin(fmt("single term cls=%d lmax=%d term=%d mag=%d",cls,lmax,c,mag))) continue; int l=(int)sqrt(c+1e-9),m=c-l*l-l; S.traces++;
            for(int ir=0;ir<9+(cls!=1?6:0);ir++) { double r=ir<9?RAD[ir]:nodes[ir-9]; if(cls==2&&mag==2&&(r<0.03)) continue; double A=0,An=0,it=cls==0&&lmax>2?3e-5:0; std::vector<double> f,y,f0; for(int k=0;k<7;k++) { double ct=ANG[k][0],st=sqrt(1-ct*ct),ph=ANG[k][1]; PosCar p(r*st*cos(ph),r*st*sin(ph),r*ct); double v0=val(*one[0],p),v=val(*one[c],p)-v0; f.push_back(v); f0.push_back(v0); y.push_back(ylm(l,m,ct,ph)); A+=f[k]*y[k]; An+=y[k]*y[k]; } A/=An; S.states++;
                for(int k=0;k<7;k++) { double d=fabs(f[k]-A*y[k]); check(d<((it>0&&ir<9?5e-4:1e-11))*fabs(f0[k])+(1e-9+(it>0?(ir<9?0.05:1e-4):0))*fabs(A),"term l=%d,m=%d at r=%g is not proportional to the spherical harmonic: %.12g vs %.12g (cos(theta)=%g, phi=%g)",l,m,r,f[k],A*y[k],ANG[k][0],ANG[k][1]); if(k) check(fabs(f0[k]-f0[0])<1e-11*fabs(f0[0]),"monopole depends on angle"); }
                if(ir>=9) { double x=r,q=1+x*x,ref=amp(c,mag)*pow(x,l)*(cls==0?pow(q,-0.5-l):pow(q,-2.-l*0.5)); check(fabs(A-ref)<(1e-9+it)*fabs(ref)+1e-12*fabs(f0[0]),"amplitude of the term l=%d,m=%d at the grid node r=%g is %.12g instead of %.12g",l,m,r,A,ref); } } outcome(fmt("term %d %d %d",cls,l,m)); }
        // any subset of terms is the sum of single-term models
        int nb=nc-1; for(unsigned mask=0;mask<(1u<<nb);mask++) { int pc=__builtin_popcount(mask); if(lmax==3&&pc>2&&(!T||pc>3)&&pc<nb-1) continue; if(!begin(fmt("superposition cls=%d lmax=%d mask=%x mag=%d",cls,lmax,mask,mag))) continue; PtrDensity A = cls==0?mkMul(lmax,mask,6,mag,0.02,20):cls==1?mkBSE(lmax,mask,3,mag,0.95,0.6):mkDSH(lmax,mask,6,mag,0.02,13); S.traces++;
            for(int ir=0;ir<9;ir++) for(int k=0;k<7;k++) { double r=RAD[ir],ct=ANG[k][0],st=sqrt(1-ct*ct),ph=ANG[k][1]; PosCar p(r*st*cos(ph),r*st*sin(ph),r*ct); double v0=val(*one[0],p),s=v0,sc=fabs(v0),sd=0; for(int c=1;c<nc;c++) if(mask>>(c-1)&1) { double v=val(*one[c],p); s+=v-v0; sc+=fabs(v-v0); sd+=fabs(v-v0); } double v=val(*A,p); S.states++; check(fabs(v-s)<1e-10*sc+(cls==0&&lmax>2?0.1*sd+5e-4*fabs(v0):0),"not the sum of its terms at r=%g: %.14g vs %.14g",r,v,s); }
            const BasePotential* P=dynamic_cast<const BasePotential*>(A.get()); if(P) testPot(*P,0,true); else testDens(*A,mag==2?1e-7:0); outcome(fmt("super %d sym %d",cls,A->symmetry())); } }
    for(int kind=0;kind<3;kind++) for(int half=0;half<2;half++) for(int mmax=1;mmax<=3;mmax++) { std::vector<PtrDensity> one; for(int c=0;c<=2*mmax;c++) one.push_back(mkCyl(mmax,c?1u<<(c-1):0,6,5,half,kind==1,0,kind==2));
        for(unsigned mask=0;mask<(1u<<2*mmax);mask++) { if(!begin(fmt("cyl kind=%d half=%d mmax=%d mask=%x",kind,half,mmax,mask))) continue; PtrDensity A=mkCyl(mmax,mask,6,5,half,kind==1,0,kind==2); S.traces++; int single=__builtin_popcount(mask)==1; int c=0; for(int b=0;b<2*mmax;b++) if(mask>>b&1) c=b; int m=c<mmax?c-mmax:c-mmax+1;
            for(int ir=0;ir<7;ir++) for(int iz=0;iz<5;iz++) { static const double RR[]={0.05,0.42,1.1,2.7,5.,9.,60},ZZ[]={0,0.2,-0.35,1.7,-3}; double a=0,an=0; std::vector<double> f,y,f0; for(int k=0;k<7;k++) { double ph=ANG[k][1]; PosCar p=toPosCar(PosCyl(RR[ir],ZZ[iz],ph)); double v0=val(*one[0],p),s=v0,sc=fabs(v0); for(int b=0;b<2*mmax;b++) if(mask>>b&1) { double v=val(*one[b+1],p); s+=v-v0; sc+=fabs(v-v0); } double v=val(*A,p); S.states++; check(fabs(v-s)<=1e-9*sc,"not the sum of its terms at R=%g z=%g: %.14g vs %.14g",RR[ir],ZZ[iz],v,s);
                    f.push_back(v-v0); f0.push_back(v0); y.push_back(m>0?cos(m*ph):sin(-m*ph)); a+=f[k]*y[k]; an+=y[k]*y[k]; if(k) check(fabs(f0[k]-f0[0])<=1e-11*fabs(f0[0]),"axisymmetric term depends on the angle"); }
                if(single) { a/=an; for(int k=0;k<7;k++) check(fabs(f[k]-a*y[k])<=1e-11*fabs(f0[k])+1e-8*fabs(a),"term m=%d at R=%g z=%g is not proportional to the harmonic: %.12g vs %.12g",m,RR[ir],ZZ[iz],f[k],a*y[k]); if(ir>0&&ir<6) check(a!=0||f0[0]==0,"term m=%d is absent",m); } }
            if(single) { V gR,gz; cylgrid(6,5,half,gR,gz); double am=amp(m+mmax,0); int Mm=abs(m); for(size_t i=1;i<gR.size();i++) for(size_t k=0;k<gz.size();k++) { double ph=0.3/Mm+(m<0?0.9/Mm:0),tr=m>0?cos(m*ph):sin(-m*ph); PosCar p=toPosCar(PosCyl(gR[i],gz[k],ph)); double x=gR[i],y=gz[k],q=1+x*x+2*y*y+(half?0:0.2*y),e=kind==2?-2-Mm:-0.5-Mm,ref=am*pow(x,Mm)*pow(q,e),v0=val(*one[0],p); if(i==gR.size()-1||k==gz.size()-1||(!half&&k==0)) continue; check(fabs((val(*A,p)-v0)/tr-ref)<1e-9*fabs(ref)+1e-11*fabs(v0),"amplitude of m=%d at the grid node (%g,%g): %.12g instead of %.12g",m,x,y,(val(*A,p)-v0)/tr,ref); } }
            const BasePotential* P=dynamic_cast<const BasePotential*>(A.get()); if(P) testPot(*P,0,true); else testDens(*A,0); outcome(fmt("cyl %d sym %d",kind,A->symmetry())); } } }
int main(int argc,char** argv) {
    init(argc,argv); utils::msg=models::silent; models::auxFiles(); bool T=thorough();
    // printing and parsing
    if(begin("names")) { for(int s=0;s<64;s++) { SymmetryType t=(SymmetryType)s; std::string n=getSymmetryNameByType(t); int back=-1; try { back=getSymmetryTypeByName(n); } catch(std::exception&) {} check(back==s,"symmetry %d printed as %s is parsed as %d",s,n.c_str(),back); S.states++;
            check(isXReflSymmetric(t)==((s&1)==1),"x"); check(isYReflSymmetric(t)==((s&2)==2),"y"); check(isZReflSymmetric(t)==((s&4)==4),"z"); check(isReflSymmetric(t)==((s&8)==8),"r"); check(isBisymmetric(t)==((s&12)==12),"bi"); check(isTriaxial(t)==((s&15)==15),"triax"); check(isZRotSymmetric(t)==((s&16)==16),"zrot"); check(isAxisymmetric(t)==((s&31)==31),"axi"); check(isSpherical(t)==(s==63),"sph"); check(!isUnknown(t),"unknown"); }
        static const struct { const char* n; int s; } NM[]={{"s",63},{"Spherical",63},{"SPHERICAL",63},{"a",31},{"axisymmetric",31},{"t",15},{"Triaxial",15},{"b",12},{"Bisymmetric",12},{"r",8},{"Reflection",8},{"n",0},{"None",0},{"",64}}; for(int i=0;i<14;i++) check(getSymmetryTypeByName(NM[i].n)==NM[i].s,"name '%s'",NM[i].n);
        static const char* BAD[]={"x","64","65","-1","1000","u","?"," "}; for(int i=0;i<8;i++) { bool th=false; try { getSymmetryTypeByName(BAD[i]); } catch(std::exception&) { th=true; } check(th,"invalid symmetry '%s' accepted",BAD[i]); } outcome("names"); }
    // palette
    for(int i=0;i<models::N;i++) { if(!begin(fmt("model %d: %s",i,models::list[i].spec))) continue; PtrPotential p=models::pot(models::list[i].spec); testPot(*p,models::list[i].tol,models::list[i].expansion); outcome(fmt("sym %d %s",p->symmetry(),p->name().c_str())); }
    // one and two modifiers on every single-component model
    for(int i=0;i<models::N;i++) { std::string sp=models::list[i].spec; if(sp.find(';')!=std::string::npos||sp.find("center")!=std::string::npos||sp.find("orientation")!=std::string::npos||sp.find("rotation=")!=std::string::npos||sp.find("scale=")!=std::string::npos) continue; bool heavy=sp.find("Ferrers")!=std::string::npos||models::list[i].expansion||models::list[i].tol>0;
        for(int a=1;a<NMOD;a++) { if(!begin(fmt("mod1 model %d (%s) %s",i,sp.c_str(),MOD[a]))) continue; PtrPotential p; try { p=models::pot(sp+" "+MOD[a]); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } testPot(*p,models::list[i].tol,models::list[i].expansion); outcome(fmt("mod1 sym %d",p->symmetry())); }
        (void)heavy; }
    for(int i=0;i<NBASE;i++) for(int a=1;a<NMOD;a++) for(int b=a+1;b<NMOD;b++) { if(kindOf(MOD[a])==kindOf(MOD[b])) continue; if(!begin(fmt("mod2 base %d %s %s",i,MOD[a],MOD[b]))) continue; PtrPotential p=models::pot(std::string(BASE[i])+" "+MOD[a]+" "+MOD[b]); testPot(*p,0,i>=4); outcome(fmt("mod2 sym %d",p->symmetry())); }
    // pairs and triples of components with modifiers
    std::vector<std::string> C; for(int i=0;i<NBASE;i++) { static const int W[]={0,6,2,8,9,11,13}; for(int w=0;w<7;w++) { if(i==4||i==5||i==7) if(w>2) continue; C.push_back(std::string(BASE[i])+" "+MOD[W[w]]); } }
    for(size_t i=0;i<C.size();i++) for(size_t j=0;j<C.size();j++) { if(!T&&(i*7+j)%3) { if(i!=j&&(i>14||j>14)) continue; } if(!begin(fmt("pair %s + %s",C[i].c_str(),C[j].c_str()))) continue; PtrPotential p=models::pot(C[i]+" ; "+C[j]); testPot(*p,0,true); outcome(fmt("pair sym %d",p->symmetry())); }
    for(int i=0;i<NBASE;i++) for(int j=0;j<NBASE;j++) for(int k=0;k<NBASE;k++) { if(!begin(fmt("triple %d %d %d",i,j,k))) continue; PtrPotential p=models::pot(std::string(BASE[i])+" ; "+BASE[j]+" "+MOD[(i+j+k)%NMOD]+" ; "+BASE[k]); testPot(*p,0,true); }
    // densities
    static const char* DEN[]={"type=Disk scaleRadius=2 scaleHeight=0.3","type=Spheroid gamma=1 beta=4","type=Spheroid gamma=1 beta=4 q=0.7","type=Spheroid gamma=1 beta=4 p=0.8 q=0.7","type=Nuker p=0.8 q=0.7 alpha=1 beta=3 gamma=0","type=Sersic sersicIndex=2","type=Sersic sersicIndex=3 q=0.6","type=Dehnen p=0.8 q=0.6","type=Plummer","type=MiyamotoNagai scaleHeight=0.3","type=Ferrers p=0.8 q=0.5","type=King W0=6","type=PerfectEllipsoid q=0.6"};
    static const char* DENX[]={"DensitySphericalHarmonic","DensityAzimuthalHarmonic","Multipole","BasisSet"};
    for(int d=0;d<13;d++) for(int a=0;a<NMOD;a++) { if(!begin(fmt("density %s %s",DEN[d],MOD[a]))) continue; PtrDensity p; try { p=models::dens(std::string(DEN[d])+" "+MOD[a]); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } testDens(*p,1e-6); outcome(fmt("dens sym %d",p->symmetry()));
        if(MOD[a][0]&&kindOf(MOD[a])!=1&&kindOf(MOD[a])!=2) continue; if(strchr(MOD[a],'@')) continue; static const SymmetryType SY[]={ST_NONE,ST_REFLECTION,ST_ZREFLECTION,ST_XREFLECTION,ST_YREFLECTION,ST_BISYMMETRIC,ST_TRIAXIAL};
        for(int x=0;x<4;x++) for(int s=0;s<7;s++) { PtrDensity q; try { SymmetryType sy=(SymmetryType)(SY[s]&p->symmetry()); if(sy!=SY[s]) continue; if(x==0) q=DensitySphericalHarmonic::create(*p,sy,3,3,8,0.05,20); if(x==1) q=DensityAzimuthalHarmonic::create(*p,sy,2,7,0.1,20,7,0.1,20); if(x==2) q=Multipole::create(*p,sy,3,3,8,0.05,20); if(x==3) q=BasisSet::create(*p,sy,2,2,2,1,1); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } const BasePotential* P=dynamic_cast<const BasePotential*>(q.get()); if(P) testPot(*P,0,true); else testDens(*q,1e-7); outcome(fmt("%s sym %d",DENX[x],q->symmetry())); } }
    // pairs of densities
    for(int i=0;i<13;i++) for(int j=0;j<13;j++) for(int a=0;a<NMOD;a++) { if(!begin(fmt("densities %s + %s %s",DEN[i],DEN[j],MOD[a]))) continue; try { std::vector<PtrDensity> v; v.push_back(models::dens(DEN[i])); v.push_back(models::dens(std::string(DEN[j])+" "+MOD[a])); PtrDensity p(new CompositeDensity(v)); testDens(*p,1e-6); outcome(fmt("dpair sym %d",p->symmetry())); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); } }
    // models written by the user with every symmetry code incl. unknown, bare and under every modifier, alone, in pairs and in triples
    { static const int SC[]={0,ST_XREFLECTION,ST_YREFLECTION,ST_ZREFLECTION,ST_REFLECTION,ST_BISYMMETRIC,ST_TRIAXIAL,ST_AXISYMMETRIC,ST_SPHERICAL,64}; const int NS=10, NW=7; std::vector<PtrDensity> ds; std::vector<PtrPotential> ps; std::vector<std::string> nm; 
      for(int s=0;s<NS;s++) for(int w=0;w<NW;w++) { PtrDensity d(new UserDens((SymmetryType)SC[s])); PtrPotential p(new UserPot((SymmetryType)SC[s])); static const char* WN[]={"","shifted x","tilted","flipped","rotating","scaled","shifted z"}; 
          if(w==1||w==6) { math::CubicSpline a=line(.3,0),z=line(0,0), fx=w==1?a:z, fz=w==1?z:a; d.reset(new Shifted<BaseDensity>(d,fx,z,fz)); p.reset(new Shifted<BasePotential>(p,fx,z,fz)); }
          if(w==2) { d.reset(new Tilted<BaseDensity>(d,.3,.7,1.1)); p.reset(new Tilted<BasePotential>(p,.3,.7,1.1)); } if(w==3) { d.reset(new Tilted<BaseDensity>(d,0,M_PI,0)); p.reset(new Tilted<BasePotential>(p,0,M_PI,0)); }
          if(w==4) { math::CubicSpline a=line(.3,.4); d.reset(new Rotating<BaseDensity>(d,a)); p.reset(new Rotating<BasePotential>(p,a)); } if(w==5) { math::CubicSpline a=line(1.3,0),b=line(.7,0); d.reset(new Scaled<BaseDensity>(d,a,b)); p.reset(new Scaled<BasePotential>(p,a,b)); }
          ds.push_back(d); ps.push_back(p); nm.push_back(fmt("sym=%d %s",SC[s],WN[w])); }
      int n=ds.size(); for(int i=0;i<n;i++) if(begin("user "+nm[i])) { testVal(*ds[i],NULL); testVal(*ps[i],ps[i].get()); outcome(fmt("user %d",ds[i]->symmetry())); check(ds[i]->symmetry()==ps[i]->symmetry(),"symmetry of the density %d and of the potential %d",ds[i]->symmetry(),ps[i]->symmetry()); if(i%NW==0) check(ds[i]->symmetry()==SC[i/NW],"harness"); }
      for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(begin("user "+nm[i]+" + "+nm[j])) { std::vector<PtrDensity> d; d.push_back(ds[i]); d.push_back(ds[j]); std::vector<PtrPotential> p; p.push_back(ps[i]); p.push_back(ps[j]); CompositeDensity D(d); Composite P(p); testVal(D,NULL); testVal(P,&P); outcome(fmt("user pair %d",D.symmetry())); }
      for(int i=0;i<NS;i++) for(int j=0;j<NS;j++) for(int k=0;k<NS;k++) if(begin(fmt("user triple %d %d %d",SC[i],SC[j],SC[k]))) { std::vector<PtrDensity> d; d.push_back(ds[i*NW]); d.push_back(ds[j*NW]); d.push_back(ds[k*NW]); std::vector<PtrPotential> p; p.push_back(ps[i*NW]); p.push_back(ps[j*NW]); p.push_back(ps[k*NW]); CompositeDensity D(d); Composite P(p); testVal(D,NULL); testVal(P,&P); } }
    harmonics(T);
    fprintf(stderr,"maxdev %g %g %g %g\n",maxdev[0],maxdev[1],maxdev[2],maxdev[3]);
    return finish(); }
