// P05: expansions built from sources whose angular dependence they can represent exactly, against the analytic source
#include "vh.h"
#include "ad.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include "potential_factory.h"
#include "potential_utils.h"
#include "utils_config.h"
#include "utils.h"
#include <functional>
#include <algorithm>
using namespace vh;
typedef std::pair<int,int> LM;
static bool check(bool ok, const std::string& s) { return vh::check(ok,"%s",s.c_str()); }
static void silent(utils::VerbosityLevel, const char*, const std::string&) {}
template<class T> T ipow(const T& a, int n) { T r(1); for(int i=0;i<n;i++) r=r*a; return r; }
// real solid harmonic r^l P_l^|m|(cos theta) {cos,sin}(m phi) with a normalization of order unity
template<class T> T solid(int l, int m, const T& x, const T& y, const T& z, const T& r2) {
    int a=std::abs(m); T c(1), s(0); for(int i=0;i<a;i++) { T c1=c*x-s*y; s=c*y+s*x; c=c1; }
    T p0(0), p1(1); for(int k=a;k<l;k++) { T p2=(T((2*k+1)/double(k-a+1))*z*p1-T((k+a)/double(k-a+1))*r2*p0); p0=p1; p1=p2; }
    double nrm=1; for(int k=0;k<a;k++) nrm*=(l-a+1.+k)/(l+a-k)*1.0; for(int k=1;k<=a;k++) nrm*= 1; // sqrt((l-a)!/(l+a)!)-like factor
    double n2=1; for(int k=l-a+1;k<=l+a;k++) n2*=k; double df=1; for(int k=1;k<2*a;k+=2) df*=k;
    (void)nrm; return T((a?sqrt(2.):1.)*df/sqrt(n2))*(m<0?s:c)*p1;
}
/// sum of terms a_lm r^l/(1+r^(1/eta))^(eta(2l+1)) Y_lm, eta=.5 (Plummer) or 1 (Hernquist)
struct Source: public potential::BasePotentialCar {
    std::vector<LM> lm; std::vector<double> amp; bool hern; int sym; double R0;
    Source(const std::vector<LM>& t, const std::vector<double>& a, bool h, int declared): lm(t), amp(a), hern(h), sym(declared), R0(1) {}
    coord::SymmetryType symmetry() const { return (coord::SymmetryType)sym; }
    std::string name() const { return "Source"; }
    template<class T> T phi(T x, T y, T z) const { using std::sqrt; T r2=x*x+y*y+z*z, r=sqrt(r2), b=hern?T(1)+r:sqrt(T(1)+r2), s(0); 
        for(size_t i=0;i<lm.size();i++) s=s+T(-amp[i])*solid(lm[i].first,lm[i].second,x,y,z,r2)/ipow(b,2*lm[i].first+1); return s; }
    template<class T> T rho(T x, T y, T z) const { using std::sqrt; T r2=x*x+y*y+z*z, r=sqrt(r2), b=hern?T(1)+r:sqrt(T(1)+r2), s(0);
        for(size_t i=0;i<lm.size();i++) { int l=lm[i].first; double K=hern? (l+1)*(2*l+1)/(2*M_PI) : (2*l+1)*(2*l+3)/(4*M_PI);
            T q=T(amp[i]*K)*solid(l,lm[i].second,x,y,z,r2); s=s+(hern? q/(r*ipow(b,2*l+3)) : q/ipow(b,2*l+5)); } return s; }
    void evalCar(const coord::PosCar& p, double* f, coord::GradCar* g, coord::HessCar* h, double) const {
        double x=p.x,y=p.y,z=p.z; if(x==0&&y==0&&z==0&&hern) z=1e-12;
        if(!g&&!h) { if(f) *f=phi<double>(x,y,z); return; }
        ad::D v=phi<ad::D>(ad::var(x,0),ad::var(y,1),ad::var(z,2)); if(f) *f=v.v;
        if(g) { g->dx=v.g[0]; g->dy=v.g[1]; g->dz=v.g[2]; }
        if(h) { h->dx2=v.h[0]; h->dy2=v.h[1]; h->dz2=v.h[2]; h->dxdy=v.h[3]; h->dydz=v.h[4]; h->dxdz=v.h[5]; } }
    double densityCar(const coord::PosCar& p, double) const { double x=p.x,y=p.y,z=p.z; if(x==0&&y==0&&z==0&&hern) z=1e-12; return rho<double>(x,y,z); }
    double enclosedMass(double r) const { return r==INFINITY? 1 : hern? r*r/(1+r)/(1+r) : ipow(r/sqrt(1+r*r),3); }
    double totalMass() const { return 1; }
};
/// the same source seen only as a density
struct DensOnly: public potential::BaseDensity {
    const Source& s; DensOnly(const Source& q): s(q) {}
    coord::SymmetryType symmetry() const { return s.symmetry(); } std::string name() const { return "DensOnly"; }
    double densityCar(const coord::PosCar& p, double t) const { return s.densityCar(p,t); }
    double densityCyl(const coord::PosCyl& p, double t) const { return s.densityCar(coord::toPosCar(p),t); }
    double densitySph(const coord::PosSph& p, double t) const { return s.densityCar(coord::toPosCar(p),t); }
    double enclosedMass(double r) const { return s.enclosedMass(r); }
};
static int symOf(const std::vector<LM>& t) {
    int s=coord::ST_SPHERICAL;
    for(size_t i=0;i<t.size();i++) { int l=t[i].first, m=t[i].second; if(l==0) continue; s&=~(coord::ST_ROTATION);
        if(m!=0) s&=~coord::ST_ZROTATION;
        bool xr = m>=0? m%2==0 : m%2!=0, yr=m>=0, zr=(l+m)%2==0, rr=l%2==0;
        if(!xr) s&=~coord::ST_XREFLECTION; if(!yr) s&=~coord::ST_YREFLECTION; if(!zr) s&=~coord::ST_ZREFLECTION; if(!rr) s&=~coord::ST_REFLECTION; }
    return s;
}
static std::vector<coord::PosCar> dirs() { std::vector<coord::PosCar> d; double c[][3]={{0,0,1},{0,0,-1},{1,0,0},{0,1,0},{-1,0,0},{.6,.8,0},{.6,0,.8},{0,.6,-.8},{.48,.6,.64},{-.48,.6,-.64},{.6,-.64,.48},{-.64,-.48,.6},{.8,.36,.48},{.02,.01,.99975},{.99,.1,-.0998}};
    for(auto& q: c) { double n=sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]); d.push_back(coord::PosCar(q[0]/n,q[1]/n,q[2]/n)); } return d; }
static double maxe[64]; 
struct Tol { double pot, force, dens; };
static std::map<std::string,double> worst;
static bool within(double d, double tol, const std::string& key) { double q=d/tol; if(!(q<=worst[key])) worst[key]=q; return d<=tol; }
// compare at a set of radii
static double Rmin=0, Fadd=0, rmaxDens=INFINITY;   // exclude the vicinity of the axis, add a constant to the magnitude of the force, largest radius for comparing the density

static void compare(const std::string& kind, const Source& s, const potential::BaseDensity* d, const potential::BasePotential* p, const std::vector<double>& radii, Tol tol, const char* where) {
    static const std::vector<coord::PosCar> D=dirs();
    for(double r: radii) for(const coord::PosCar& u: D) {
        coord::PosCar x(u.x*r,u.y*r,u.z*r); if(hypot(x.x,x.y)<Rmin) continue; S.transitions++;
        double f0; coord::GradCar g0; s.evalCar(x,&f0,&g0,NULL,0); double F0=sqrt(g0.dx*g0.dx+g0.dy*g0.dy+g0.dz*g0.dz), rho0=s.densityCar(x,0);
        if(p) { double f; coord::GradCar g; p->eval(x,&f,&g,NULL,0);
            double df=fabs(f-f0)/fabs(f0), dg=sqrt(pow(g.dx-g0.dx,2)+pow(g.dy-g0.dy,2)+pow(g.dz-g0.dz,2))/F0;
            check(within(df,tol.pot,kind+" "+where+" pot"), fmt("%s r=%g dir=%g,%g,%g: potential %.10g instead of %.10g",where,r,u.x,u.y,u.z,f,f0));
            check(within(dg*F0/(F0+Fadd),tol.force,kind+" "+where+" force"), fmt("%s r=%g dir=%g,%g,%g: gradient %.8g %.8g %.8g instead of %.8g %.8g %.8g",where,r,u.x,u.y,u.z,g.dx,g.dy,g.dz,g0.dx,g0.dy,g0.dz)); }
        if(r>rmaxDens) continue;
        double rho=d->density(x,0); double scale=fmax(fabs(rho0), .1*(s.enclosedMass(r*1.1)-s.enclosedMass(r*.9))/(4*M_PI*r*r*r*.2));
        check(within(fabs(rho-rho0)/scale,tol.dens,kind+" "+where+" dens"), fmt("%s r=%g dir=%g,%g,%g: density %.8g instead of %.8g",where,r,u.x,u.y,u.z,rho,rho0));
    }
}
static void mass(const std::string& kind, const Source& s, const potential::BaseDensity* d, const std::vector<double>& radii, double tol, double toltot) {
    for(double r: radii) { double m=d->enclosedMass(r), m0=s.enclosedMass(r); check(within(fabs(m-m0)/m0,tol,kind+" mass"), fmt("mass inside r=%g is %.8g instead of %.8g",r,m,m0)); }
    double m=d->totalMass(); check(within(fabs(m-1),toltot,kind+" total"), fmt("total mass %.8g instead of 1",m));
}
static void excluded(const Source& s, int sym, const std::vector<std::vector<double> >& C, const char* what, double tol) {
    int n=C.size(); double big=0; for(double v: C[0]) big=fmax(big,fabs(v));
    for(int c=0;c<n;c++) { int l=(int)sqrt((double)c+.5), m=c-l*(l+1); bool in=false; for(auto& q: s.lm) if(q.first==l&&q.second==m) in=true; if(in) { bool nz=false; for(double v: C[c]) nz|=v!=0; check(nz, fmt("%s: term l=%d m=%d is absent",what,l,m)); continue; }
        bool forb = ((sym&coord::ST_XREFLECTION)&&!(m>=0?m%2==0:m%2!=0)) || ((sym&coord::ST_YREFLECTION)&&m<0) || ((sym&coord::ST_ZREFLECTION)&&(l+m)%2!=0) || ((sym&coord::ST_REFLECTION)&&l%2!=0) || ((sym&coord::ST_ZROTATION)&&m!=0) || ((sym&coord::ST_ROTATION)&&l!=0);
        double mx=0; for(double v: C[c]) mx=fmax(mx,fabs(v));
        if(forb) check(mx==0, fmt("%s: term l=%d m=%d excluded by the symmetry %d is %g",what,l,m,sym,mx));
        else check(mx<=tol*big, fmt("%s: term l=%d m=%d absent in the source is %g (main term %g)",what,l,m,mx,big)); }
}
int main(int argc, char** argv) {
    init(argc, argv); utils::msg=silent; bool T=thorough();
    // ---- sources
    struct Src { std::string name; std::vector<LM> t; std::vector<double> a; }; std::vector<Src> src;
    { Src s; s.name="0"; s.t.push_back(LM(0,0)); s.a.push_back(1); src.push_back(s); }
    int LX = T?5:4;
    for(int l=1;l<=LX;l++) for(int m=-l;m<=l;m++) { Src s=src[0]; s.name=fmt("%d,%d",l,m); s.t.push_back(LM(l,m)); s.a.push_back(.2); src.push_back(s); }
    auto all=[&](const char* nm, int L, std::function<bool(int,int)> ok) { Src s=src[0]; s.name=nm; for(int l=1;l<=L;l++) for(int m=-l;m<=l;m++) if(ok(l,m)) { s.t.push_back(LM(l,m)); s.a.push_back(.1*((l*7+m*3)%5-2.5)/2); } src.push_back(s); };
    all("triaxial",4,[](int l,int m){ return l%2==0&&m>=0&&m%2==0; }); all("bisymmetric",4,[](int l,int m){ return l%2==0&&m%2==0; }); all("axisymmetric",4,[](int l,int m){ return l%2==0&&m==0; }); all("zrot",3,[](int,int m){ return m==0; });
    all("reflection",4,[](int l,int){ return l%2==0; }); all("zreflection",3,[](int l,int m){ return (l+m)%2==0; }); all("none",3,[](int,int){ return true; }); all("xyreflection",4,[](int,int m){ return m>=0&&m%2==0; }); all("none4",4,[](int,int){ return true; });
    for(size_t is=0; is<src.size(); is++) for(int h=0;h<2;h++) {
        const Src& q=src[is]; int L=0, M=0; for(auto& t: q.t) { L=std::max(L,t.first); M=std::max(M,std::abs(t.second)); }
        int ex=symOf(q.t);
        // declared symmetry and the symmetry given explicitly
        struct V { const char* n; int decl, arg; } V[] = {{"sym",ex,coord::ST_UNKNOWN},{"arg",coord::ST_NONE,ex},{"none",coord::ST_NONE,coord::ST_UNKNOWN}};
        for(auto& v: V) {
            Source s(q.t,q.a,h,v.decl); DensOnly ds(s); int sy = v.arg==coord::ST_UNKNOWN? v.decl : v.arg;
            for(int dl=0;dl<=2;dl++) for(int dm=0;dm<=(T?2:1);dm++) {
                int lmax=L+dl, mmax=std::min(lmax,M+dm*2); if(dm && mmax==M) continue;
                if(!T && (is+h+dl+dm+(&v-V))%3) continue;   // quick tier: a fixed third of the combinations
                for(int fix=0;fix<2;fix++) {
                    std::string tail=fmt(" %s %s %s lmax=%d mmax=%d fix=%d",q.name.c_str(),h?"Hernquist":"Plummer",v.n,lmax,mmax,fix);
                    struct Gr { int n; double a,b; } G[]={{40,1e-2,1e2},{24,.1,10},{50,0,0}};
                    for(int ig=0;ig<3;ig++) {
                        if(!T && ig!=(int)(is+dl+dm+fix)%3) continue;
                        double a=G[ig].a?G[ig].a:1e-2,b=G[ig].b?G[ig].b:30; int n=G[ig].n;
                        std::vector<double> in={a*1.001,a*1.7,sqrt(a*b),1,1.3,b*.6,b*.999}, out={b*1.01,b*4}, inn={a*.9,a*.5};
                        for(int what=0;what<3;what++) {
                            const char* nm=what==0?"Multipole dens":what==1?"Multipole pot":"SphHarm";
                            if(!vh::begin(fmt("%s%s grid=%d,%g,%g",nm,tail.c_str(),n,G[ig].a,G[ig].b))) continue;
                            std::string K=fmt("%s g%d h%d",nm,ig,h); Tol ti={what==0?1e-3:1e-4,1e-2,.1}; S.states++;
                            potential::PtrDensity D; potential::PtrPotential P; std::vector<double> r; std::vector<std::vector<double> > c,dc;
                            if(what==2) { auto o=potential::DensitySphericalHarmonic::create(ds,(coord::SymmetryType)v.arg,lmax,mmax,n,G[ig].a,G[ig].b,fix); o->getCoefs(r,c); D=o; }
                            else { auto o=what==0? potential::Multipole::create(ds,(coord::SymmetryType)v.arg,lmax,mmax,n,G[ig].a,G[ig].b,fix) : potential::Multipole::create(s,(coord::SymmetryType)v.arg,lmax,mmax,n,G[ig].a,G[ig].b,fix); o->getCoefs(r,c,dc); D=o; P=o; }
                            compare(K,s,D.get(),P.get(),in,ti,"inside"); Tol to={.02,.05,.3}; compare(K,s,D.get(),P.get(),out,to,"beyond"); Tol tn={1e-2,.3,.35}; compare(K,s,D.get(),P.get(),inn,tn,"within");
                            excluded(s,sy,c,nm,1e-6); if(what<2) excluded(s,sy,dc,"derivative",1e-6);
                            mass(K,s,D.get(),in,what==2?.1:1e-2,what==2?.05:2e-2);
                            check((int)(D->symmetry()&sy)==sy, fmt("symmetry %d of the expansion lacks that of the source %d",(int)D->symmetry(),sy));
                            outcome(fmt("%s sym=%d lmax=%d mmax=%d",nm,sy,lmax,mmax));
                        }
                    }
                    // ---- basis-set expansion, with the matching or another value of eta
                    for(int ie=0;ie<2;ie++) for(int ip=0;ip<2;ip++) {
                        if(!T && ie!=(int)(is+dl)%2) continue;
                        double eta=(h?1.:.5)*(ie?1.:1.)+(ie?0:0), r0= ie?1.4:1.; int nmax=ie?14:4;
                        if(!vh::begin(fmt("BasisSet %s%s r0=%g",ip?"pot":"dens",tail.c_str(),r0))) continue;
                        std::string K=fmt("BasisSet %s h%d %d",ip?"pot":"dens",h,ie); S.states++;
                        auto o= potential::BasisSet::create(ip?(const potential::BaseDensity&)s:(const potential::BaseDensity&)ds,(coord::SymmetryType)v.arg,lmax,mmax,nmax,eta,r0,fix);
                        std::vector<std::vector<double> > c; double e1,r1; o->getCoefs(e1,r1,c); check(e1==eta&&r1==r0,"eta or r0 is not the requested one");
                        std::vector<double> in={.03,.1,.5,1,2,5,20}; Tol ti=ie?Tol{1e-3,1e-2,5e-2}:Tol{1e-4,1e-3,2e-2}; Fadd=.1; compare(K,s,o.get(),o.get(),in,ti,"inside"); Fadd=0; excluded(s,sy,c,"BasisSet",1e-5); mass(K,s,o.get(),in,1e-2,1e-2);
                        outcome(fmt("BasisSet sym=%d lmax=%d mmax=%d",sy,lmax,mmax));
                    }
                }
            }
            // ---- azimuthal-harmonic expansions
            if(!h) /* the density must not be singular at origin */ for(int dm=0;dm<2;dm++) for(int fix=0;fix<2;fix++) for(int what=0;what<3;what++) for(int der=0;der<(what==0?2:1);der++) {
                if(!T && (int)(is+dm+2*fix+(&v-V))%(what==0?12:4)!=der*2) continue;
                if(M+dm>3 && !T && what==0) continue;
                int mmax=M+dm; const char* nm=what==0?"CylSpline dens":what==1?"CylSpline pot":"AziHarm";
                if(!vh::begin(fmt("%s %s %s %s mmax=%d fix=%d der=%d",nm,q.name.c_str(),h?"Hernquist":"Plummer",v.n,mmax,fix,der))) continue;
                std::string K=fmt("%s h%d der%d",nm,h,der); S.states++;
                unsigned n=20; double a=.1,b=15; potential::PtrDensity D; potential::PtrPotential P; std::vector<double> gR,gz; std::vector<math::Matrix<double> > c0,c1,c2; coord::SymmetryType A=(coord::SymmetryType)v.arg;
                if(what==2) { auto o=potential::DensityAzimuthalHarmonic::create(ds,A,mmax,n,a,b,n,a,b,fix); o->getCoefs(gR,gz,c0); D=o; }
                else { auto o= what==0? potential::CylSpline::create(ds,A,mmax,n,a,b,n,a,b,fix,der) : potential::CylSpline::create(s,A,mmax,n,a,b,n,a,b,fix); o->getCoefs(gR,gz,c0,c1,c2); D=o; P=o; }
                std::vector<double> in={.3,1,3,9,14.9}, out={25,60}; Tol ti={1e-2,5e-2,.3}, to={.05,.1,10}; Rmin=M+dm>0?.3:0; rmaxDens=5; compare(K,s,D.get(),P.get(),in,ti,"inside"); if(P) compare(K,s,D.get(),P.get(),out,to,"beyond");
                Rmin=0; rmaxDens=INFINITY; mass(K,s,D.get(),std::vector<double>{1,3,9},.05,.1); check((int)(D->symmetry()&sy&~coord::ST_ROTATION&~coord::ST_REFLECTION)==(sy&~coord::ST_ROTATION&~coord::ST_REFLECTION), fmt("symmetry %d of the expansion lacks that of the source %d",(int)D->symmetry(),sy));
                // excluded azimuthal terms
                int nm2=c0.size()/2; double big=0; for(size_t i=0;i<c0[nm2].rows();i++) for(size_t j=0;j<c0[nm2].cols();j++) big=fmax(big,fabs(c0[nm2](i,j)));
                for(int m=-nm2;m<=nm2;m++) { const math::Matrix<double>& C=c0[m+nm2]; bool has=false; for(auto& t: q.t) has|=t.second==m; double mx=0; for(size_t i=0;i<C.rows();i++) for(size_t j=0;j<C.cols();j++) mx=fmax(mx,fabs(C(i,j)));
                    bool forb=((sy&coord::ST_XREFLECTION)&&!(m>=0?m%2==0:m%2!=0))||((sy&coord::ST_YREFLECTION)&&m<0)||((sy&coord::ST_ZROTATION)&&m!=0);
                    if(has) check(mx>0, fmt("term m=%d is absent",m)); else if(forb) check(mx==0, fmt("term m=%d excluded by symmetry is %g",m,mx)); else check(mx<=1e-5*big, fmt("term m=%d absent in the source is %g (main %g)",m,mx,big)); }
                outcome(fmt("%s sym=%d mmax=%d",nm,sy,mmax));
            }
        }
    }
    if(getenv("P05W")) for(auto& w: worst) printf("W %-40s %g\n",w.first.c_str(),w.second);
    return finish();
}
