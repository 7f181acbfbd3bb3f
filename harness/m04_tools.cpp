// M04: root finding, minimisation, quadrature, scalings, polynomial roots, binary search: exhaustive over bounded families
#include "vh.h"
#include "math_core.h"
#include "math_base.h"
#include "utils.h"
#include <limits>
#include <cfloat>
#include <functional>
#include <algorithm>
#include <signal.h>
using namespace vh; using namespace math;
typedef std::vector<double> V; typedef long double LD;
static bool maxIterMsg=false; static int warnings=0;
static void quiet(utils::VerbosityLevel, const char*, const std::string& s) { warnings++; if(s.find("max #")!=std::string::npos) maxIterMsg=true; }
static long evals; static const long EVMAX=100000;
struct TooMany: public std::runtime_error { TooMany(): std::runtime_error("evaluation limit") {} };
typedef std::function<double(double)> Fn;
class Fun: public IFunction { public: Fn f,d; int nd; Fun(Fn _f, Fn _d=Fn()): f(_f),d(_d),nd(_d?1:0) {}
    virtual void evalDeriv(const double x,double* v,double* der=NULL,double* der2=NULL) const { if(++evals>EVMAX) throw TooMany(); if(v) *v=f(x); if(der) *der= d? d(x):NAN; if(der2) *der2=NAN; }
    virtual unsigned int numDerivs() const { return nd; } };
// ---------- polynomial equations ----------
static LD pe(const V& a,LD x) { LD r=0; for(int i=(int)a.size()-1;i>=0;i--) r=r*x+a[i]; return r; }
static LD pscale(const V& a,LD x) { LD r=0; for(int i=(int)a.size()-1;i>=0;i--) r=r*fabsl(x)+fabsl((LD)a[i]); return r; }
static int solve(const V& a,double* r) { switch(a.size()-1) { case 1: return solveLinear(a[1],a[0],r); case 2: return solveQuadratic(a[2],a[1],a[0],r); case 3: return solveCubic(a[3],a[2],a[1],a[0],r); default: return solveQuartic(a[4],a[3],a[2],a[1],a[0],r); } }
static V mulp(const V& a,const V& b) { V r(a.size()+b.size()-1,0.); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) r[i+j]+=a[i]*b[j]; return r; }
static std::string ps(const V& a) { std::string s; for(size_t i=0;i<a.size();i++) s+=fmt("%s%.17g",i?",":"",a[i]); return s; }
/// expected: exact distinct real roots (sorted)
static void polyCase(const V& a,const V& roots) {
    double r[4]; int n=solve(a,r); S.states++;
    if(!check(n==(int)roots.size(),"polynomial [%s] (constant term first): %d roots instead of %d",ps(a).c_str(),n,(int)roots.size())) return;
    outcome(fmt("poly%d:%d",(int)a.size()-1,n));
    for(int i=0;i<n;i++) {
        check(close(r[i],roots[i],1e-9,1e-9),"polynomial [%s]: root %d is %.17g instead of %.17g",ps(a).c_str(),i,r[i],roots[i]);
        if(i) check(r[i]>r[i-1],"polynomial [%s]: roots are not in ascending order",ps(a).c_str());
        check(fabsl(pe(a,r[i]))<=1e-13L*pscale(a,r[i]),"polynomial [%s]: residual %.3Lg at x=%.17g",ps(a).c_str(),pe(a,r[i]),r[i]); }
}
static void polys() {
    // quadratic factors without real roots
    double irr[][2]={{1,0},{2,2},{5,-2},{3,1},{10,6}};   // x^2+bx+c: {c,b}
    V rts; for(int i=-6;i<=6;i++) rts.push_back(i*0.5); rts.push_back(17); rts.push_back(-40); rts.push_back(1e-3);
    double lead[]={1,-1,3,0.125};
    int N=rts.size();
    for(int deg=1;deg<=4;deg++) for(int li=0;li<4;li++) {
        if(!begin(fmt("poly degree=%d lead=%g",deg,lead[li]))) continue;
        for(int mask=0;mask<(1<<N);mask++) { int nr=__builtin_popcount(mask); if(nr>deg || (deg-nr)%2) continue; V r; for(int i=0;i<N;i++) if(mask>>i&1) r.push_back(rts[i]); std::sort(r.begin(),r.end());
            // well separated roots only for the quartic (documented to be fallible for multiple or close roots)
            bool sep=true; for(size_t i=1;i<r.size();i++) if(r[i]-r[i-1]<0.4) sep=false; if(!sep) continue;
            V a(1,lead[li]); for(size_t i=0;i<r.size();i++) { V f(2); f[0]=-r[i]; f[1]=1; a=mulp(a,f); }
            int nq=(deg-nr)/2; int ni=5;
            for(int q=0;q<(nq==0?1:nq==1?ni:ni*(ni+1)/2);q++) { V b=a; if(nq>=1) { int q1=0,q2=0; if(nq==1) q1=q; else { int k=0; for(int u=0;u<ni;u++) for(int w=u;w<ni;w++,k++) if(k==q) { q1=u; q2=w; } }
                    V f(3); f[0]=irr[q1][0]; f[1]=irr[q1][1]; f[2]=1; b=mulp(b,f); if(nq==2) { f[0]=irr[q2][0]; f[1]=irr[q2][1]; b=mulp(b,f); } }
                if(deg==4 && nq==2 && false) continue;
                polyCase(b,r);
                // a leading coefficient of zero reduces the degree
                if(deg<4) { V c=b; c.push_back(0); polyCase(c,r); } } }
    }
    if(begin("quadratic all small coefficients")) for(int a=-8;a<=8;a++) for(int b=-8;b<=8;b++) for(int c=-8;c<=8;c++) { if(!a && !b && !c) continue;
        V p(3); p[0]=c; p[1]=b; p[2]=a; long D=(long)b*b-4L*a*c; V r; if(a==0) { if(b) r.push_back(-(double)c/b); } else if(D==0) r.push_back(-b/(2.*a)); else if(D>0) { LD s=sqrtl(D); r.push_back((-b-s)/(2.L*a)); r.push_back((-b+s)/(2.L*a)); std::sort(r.begin(),r.end()); }
        polyCase(p,r); }
    // cubics with small integer coefficients and nonzero discriminant: exact number of roots
    for(int a=1;a<=3;a++) if(begin(fmt("cubic all small coefficients a3=%d",a))) for(int b=-7;b<=7;b++) for(int c=-7;c<=7;c++) for(int d=-7;d<=7;d++) {
        long D=18L*a*b*c*d-4L*b*b*b*d+(long)b*b*c*c-4L*a*c*c*c-27L*a*a*d*d; if(D==0) continue;
        V p(4); p[0]=d; p[1]=c; p[2]=b; p[3]=a; double r[3]; int n=solve(p,r); S.states++; outcome(fmt("cubic %d",n));
        if(!check(n==(D>0?3:1),"cubic [%s]: %d roots, but the discriminant is %ld",ps(p).c_str(),n,D)) continue;
        for(int i=0;i<n;i++) { if(i) check(r[i]>r[i-1],"cubic [%s]: unsorted",ps(p).c_str()); check(fabsl(pe(p,r[i]))<=1e-13L*pscale(p,r[i]),"cubic [%s]: residual %.3Lg at %.17g",ps(p).c_str(),pe(p,r[i]),r[i]); } }
}
// ---------- binary search ----------
template<typename T> static void binsT(const char* name,const std::vector<T>& pal,const std::vector<T>& extra) {
    int N=pal.size();
    for(int part=0;part<4;part++) { if(!begin(fmt("binSearch %s part %d",name,part))) continue;
        for(int mask=part;mask<(1<<N);mask+=4) { std::vector<T> a; for(int i=0;i<N;i++) if(mask>>i&1) a.push_back(pal[i]); if(a.empty() || a.size()>9) continue; size_t n=a.size();
            for(size_t q=0;q<extra.size();q++) { T x=extra[q]; long want; 
                if(!(x>=a[0])) want=-1; else if(n<2) want= x>a[0]? 0 : -2; else if(x>a[n-1]) want=n-1; else if(x==a[n-1]) want=n-2; else { want=0; while(!(x<a[want+1])) want++; }
                std::vector<T> copy(a); long got=binSearch(x,&copy[0],n); S.states++;
                if(want==-2) continue;   // a single node: the return value is not documented
                check(got==want,"binSearch<%s>(%.17g) in %d nodes [%.17g..%.17g] returns %ld instead of %ld (mask %d)",name,(double)x,(int)n,(double)a[0],(double)a[n-1],got,want,mask); } } }
}
static void bins() {
    double eps=DBL_EPSILON; double pd[]={-1,-0.5,-1e-300,0,5e-324,0.1,1-eps,1-eps/2,1,1+eps,3,1e10};
    V p(pd,pd+12), e(p); for(size_t i=0;i<p.size();i++) { e.push_back(nextafter(p[i],1e300)); e.push_back(nextafter(p[i],-1e300)); } for(size_t i=1;i<p.size();i++) e.push_back(0.5*(p[i]+p[i-1])); e.push_back(NAN); e.push_back(INFINITY); e.push_back(-INFINITY); e.push_back(1e300); e.push_back(-1e300);
    binsT<double>("double",p,e);
    std::vector<float> pf, ef; float fd[]={-1,-0.25f,0,1e-40f,0.1f,1-FLT_EPSILON,1-FLT_EPSILON/2,1,1+FLT_EPSILON,7,1e9f}; pf.assign(fd,fd+11); ef=pf; for(size_t i=0;i<pf.size();i++) { ef.push_back(nextafterf(pf[i],1e30f)); ef.push_back(nextafterf(pf[i],-1e30f)); } ef.push_back(NAN); ef.push_back(INFINITY); ef.push_back(-INFINITY);
    binsT<float>("float",pf,ef);
    std::vector<int> pi, ei; int id[]={-1000,-7,-2,-1,0,1,2,3,9,10,1000000}; pi.assign(id,id+11); for(size_t i=0;i<pi.size();i++) for(int d=-1;d<=1;d++) ei.push_back(pi[i]+d); binsT<int>("int",pi,ei);
    std::vector<long> pl(pi.begin(),pi.end()), el(ei.begin(),ei.end()); binsT<long>("long",pl,el);
    std::vector<unsigned> pu, eu; unsigned ud[]={0,1,2,5,6,7,100,1000,65536,4000000000u,4294967295u}; pu.assign(ud,ud+11); for(size_t i=0;i<pu.size();i++) for(int d=-1;d<=1;d++) if(!(pu[i]==0&&d<0) && !(pu[i]==4294967295u&&d>0)) eu.push_back(pu[i]+d); binsT<unsigned>("unsigned",pu,eu);
    std::vector<unsigned long> pul(pu.begin(),pu.end()), eul(eu.begin(),eu.end()); binsT<unsigned long>("unsigned long",pul,eul);
}
// ---------- scalings ----------
template<class S_> static void scal(const std::string& name,const S_& sc,double lo,double hi,const V& us,double condtol) {
    if(!begin("scaling "+name)) return;
    double prev=-1, prevu=lo; const double ends=std::isfinite(lo)&&std::isfinite(hi)?fmax(fabs(lo),fabs(hi)):0;
    double s0=scale(sc,lo), s1=scale(sc,hi); check(s0==0,"%s: lower end-point %g is mapped to %.17g",name.c_str(),lo,s0); check(s1==1,"%s: upper end-point %g is mapped to %.17g",name.c_str(),hi,s1);
    check(unscale(sc,0.)==lo,"%s: s=0 is mapped to %.17g instead of %g",name.c_str(),unscale(sc,0.),lo); check(unscale(sc,1.)==hi,"%s: s=1 is mapped to %.17g instead of %g",name.c_str(),unscale(sc,1.),hi);
    V u(us); std::sort(u.begin(),u.end());
    for(size_t i=0;i<u.size();i++) { if(u[i]<lo||u[i]>hi) continue; alarm(20); double s=scale(sc,u[i]); alarm(0); S.states++;
        if(!check(s>=0&&s<=1,"%s: scale(%.17g)=%.17g is outside [0,1]",name.c_str(),u[i],s)) continue;
        check(s>=prev-1e-15,"%s: scale is not monotonic: %.17g -> %.17g, %.17g -> %.17g",name.c_str(),prevu,prev,u[i],s); prev=s; prevu=u[i];
        double d; double b=unscale(sc,s,&d); if(!std::isfinite(u[i])) { check(b==u[i],"%s: %g -> s=%g -> %g",name.c_str(),u[i],s,b); continue; }
        // rounding of s limits the accuracy: |du| <= (du/ds) eps s
        double tol=8*DBL_EPSILON*(std::isfinite(d)?fabs(d):INFINITY)+condtol*fmax(fabs(u[i]),ends)+1e-300; if(s==1||s==0) tol=INFINITY;
        check(fabs(b-u[i])<=tol,"%s: unscale(scale(%.17g)=%.17g)=%.17g",name.c_str(),u[i],s,b); }
    // derivative and monotonicity of the inverse
    double pu=lo; for(int i=1;i<400;i++) { double s=i/400., d, um=unscale(sc,s,&d), h=1e-4*fmin(s,1-s)*fmin(s,1-s), up=unscale(sc,s+h), un=unscale(sc,s-h); S.states++;
        check(um>=pu,"%s: unscale is not monotonic at s=%g",name.c_str(),s); pu=um; if(!std::isfinite(up-un)||!std::isfinite(d)||fabs(um)<1e-280||fabs(um)>1e280) continue;
        double nd=(up-un)/((s+h)-(s-h)); if(fabs(s-0.5)<0.03) continue; check(close(d,nd,2e-3,1e-9*fabs(um)/h+1e-290),"%s: du/ds at s=%g is %.12g, numerically %.12g",name.c_str(),s,d,nd); 
        double sb=scale(sc,um); check(fabs(sb-s)<=1e-12+8*DBL_EPSILON*fmax(ends,fabs(um))/d,"%s: scale(unscale(%.17g)=%.17g)=%.17g",name.c_str(),s,um,sb); }
}
static void onAlarm(int) { printf("FAIL %s\tthe routine does not terminate\n",S.cur.c_str()); fflush(stdout); _exit(3); }
static void scalings() {
    V all; for(int e=-30;e<=30;e++) for(int m=1;m<=9;m+=2) { all.push_back(m*pow(10.,e)); all.push_back(-m*pow(10.,e)); } all.push_back(0); all.push_back(INFINITY); all.push_back(-INFINITY); for(int i=-40;i<=40;i++) all.push_back(i*0.25);
    V lg(all); for(int e=-300;e<=300;e+=5) { lg.push_back(pow(10.,e)); lg.push_back(-pow(10.,e)); }
    V md; for(size_t i=0;i<all.size();i++) if(fabs(all[i])<1e9||!std::isfinite(all[i])) md.push_back(all[i]);
    scal("Inf",ScalingInf(),-INFINITY,INFINITY,md,1e-14);
    V pos; for(size_t i=0;i<lg.size();i++) if(lg[i]>=0) pos.push_back(lg[i]); V neg; for(size_t i=0;i<lg.size();i++) if(lg[i]<=0) neg.push_back(lg[i]);
    scal("SemiInf(+0)",ScalingSemiInf(0.),0,INFINITY,pos,1e-13); scal("SemiInf(-0)",ScalingSemiInf(-0.),-INFINITY,0,neg,1e-13);
    double u0s[]={1,1e-8,3.7,1e10};
    for(int i=0;i<4;i++) { V q; for(size_t k=0;k<pos.size();k++) { q.push_back(pos[k]); q.push_back(u0s[i]*(1+pos[k])); } scal(fmt("SemiInf(%g)",u0s[i]),ScalingSemiInf(u0s[i]),u0s[i],INFINITY,q,1e-13); }
    scal("DoubleInf(0)",ScalingDoubleInf(0.),-INFINITY,INFINITY,lg,1e-13);
    for(int i=0;i<4;i++) { V q(all); for(size_t k=0;k<all.size();k++) q.push_back(all[k]*u0s[i]); scal(fmt("DoubleInf(%g)",u0s[i]),ScalingDoubleInf(u0s[i]),-INFINITY,INFINITY,q,1e-12); }
    double iv[][2]={{0,1},{-2,3},{1e-5,1e5},{-1e10,-1e9},{1,1+1e-6}};
    for(int i=0;i<5;i++) { double a=iv[i][0],b=iv[i][1]; V q; q.push_back(a); q.push_back(b); for(int k=1;k<1000;k++) q.push_back(a+(b-a)*(k/1000.)); for(int e=-15;e<-2;e++) { q.push_back(a+(b-a)*pow(10.,e)); q.push_back(b-(b-a)*pow(10.,e)); }
        double ct=1e-15*fmax(fabs(a),fabs(b))/(b-a)/1; V q2; for(size_t k=0;k<q.size();k++) q2.push_back(q[k]);
        scal(fmt("Lin(%g,%g)",a,b),ScalingLin(a,b),a,b,q,1e-14*(1+0*ct)*fmax(1,1)); if(i<4) { scal(fmt("Cub(%g,%g)",a,b),ScalingCub(a,b),a,b,q,2e-13); scal(fmt("Qui(%g,%g)",a,b),ScalingQui(a,b),a,b,q,2e-13); } }
}
// ---------- root finder ----------
struct FD { const char* name; Fn f,d; bool smooth; };
static double sgn(double x) { return x>0?1:x<0?-1:0; }
static std::vector<FD> family() { std::vector<FD> r;
    for(int k=-3;k<=3;k++) { static std::vector<std::string> names; names.reserve(100); double c=k*0.37; names.push_back(fmt("lin%+.2f",c)); r.push_back(FD{names.back().c_str(),[c](double x){return x-c;},[](double){return 1.;},true}); }
    r.push_back(FD{"x^3-x",[](double x){return x*x*x-x;},[](double x){return 3*x*x-1;},true});
    r.push_back(FD{"(x-0.3)^3",[](double x){return (x-0.3)*(x-0.3)*(x-0.3);},[](double x){return 3*(x-0.3)*(x-0.3);},false});
    r.push_back(FD{"(x-0.3)^9",[](double x){return std::pow(x-0.3,9);},[](double x){return 9*std::pow(x-0.3,8);},false});
    r.push_back(FD{"x^2",[](double x){return x*x;},[](double x){return 2*x;},false});
    r.push_back(FD{"x^2-1e-6",[](double x){return x*x-1e-6;},[](double x){return 2*x;},true});
    r.push_back(FD{"atan(50(x-0.2))",[](double x){return atan(50*(x-0.2));},[](double x){return 50/(1+2500*(x-0.2)*(x-0.2));},true});
    r.push_back(FD{"exp(20x)-2",[](double x){return exp(20*x)-2;},[](double x){return 20*exp(20*x);},true});
    r.push_back(FD{"step",[](double x){return x<0.123?-1.:1.;},[](double){return 0.;},false});
    r.push_back(FD{"step asym",[](double x){return x<0.7?-1e-8:1e8;},[](double){return 0.;},false});
    r.push_back(FD{"kink",[](double x){return x<0.4? 100*(x-0.4) : 0.01*(x-0.4);},[](double x){return x<0.4?100.:0.01;},false});
    r.push_back(FD{"flat then zero",[](double x){return x<0.5? x-0.5 : 0.;},[](double x){return x<0.5?1.:0.;},false});
    r.push_back(FD{"cbrt",[](double x){return cbrt(x-0.15);},[](double x){return x==0.15?INFINITY:1./3/std::pow(cbrt(x-0.15),2);},false});
    r.push_back(FD{"1/x pole",[](double x){return x==0?1e300:1/x;},[](double x){return -1/(x*x);},false});
    r.push_back(FD{"cos(7x)",[](double x){return cos(7*x);},[](double x){return -7*sin(7*x);},true});
    r.push_back(FD{"stairs",[](double x){return floor(x*4)+0.5;},[](double){return 0.;},false});
    r.push_back(FD{"huge",[](double x){return 1e300*(x-0.1);},[](double){return 1e300;},true});
    r.push_back(FD{"tiny",[](double x){return 1e-300*(x-0.1);},[](double){return 1e-300;},true});
    r.push_back(FD{"positive",[](double x){return 1+x*x;},[](double x){return 2*x;},true});
    r.push_back(FD{"wrong derivative",[](double x){return x-0.25;},[](double){return -1e-3;},false});
    r.push_back(FD{"nan derivative",[](double x){return x-0.25;},[](double){return NAN;},false});
    r.push_back(FD{"nan inside",[](double x){return x>-0.2&&x<0.2? NAN : x-0.35;},[](double){return 1.;},false});
    r.push_back(FD{"nan everywhere",[](double){return NAN;},[](double){return NAN;},false});
    r.push_back(FD{"inf at ends",[](double x){return fabs(x)>=1?sgn(x)*INFINITY:x;},[](double){return 1.;},false});
    r.push_back(FD{"zero",[](double){return 0.;},[](double){return 0.;},true});
    return r; }
static void rootCase(const FD& F,bool der,double x1,double x2,double tol) {
    Fun f(F.f,der?F.d:Fn()); evals=0; maxIterMsg=false; double r; alarm(60); S.states++; utils::verbosityLevel=utils::VL_WARNING;
    std::string id=fmt("findRoot(%s%s,%.17g,%.17g,%g)",F.name,der?"+deriv":"",x1,x2,tol);
    try { r=findRoot(f,x1,x2,tol); } catch(TooMany&) { check(false,"%s: more than %ld evaluations",id.c_str(),EVMAX); return; } catch(std::exception& e) { check(false,"%s throws %s",id.c_str(),e.what()); return; }
    alarm(0); double a=F.f(x1), b=F.f(x2); bool brk = std::isfinite(a)&&std::isfinite(b)&&!((a<0&&b<0)||(a>0&&b>0));
    check(evals<=200,"%s: %ld evaluations",id.c_str(),evals);
    outcome(fmt("%s %d %d",F.name,brk,r==r));
    if(!brk) { check(r!=r,"%s=%.17g although f(x1)=%g, f(x2)=%g",id.c_str(),r,a,b); return; }
    double lo=fmin(x1,x2), hi=fmax(x1,x2);
    if(strcmp(F.name,"nan inside")==0 && r!=r) return;
    if(!check(r>=lo && r<=hi,"%s=%.17g is not inside the interval",id.c_str(),r)) return;
    if(maxIterMsg) { S.extra["n_maxiter"]++; return; }
    double w=tol*(hi-lo)*2+4e-16*fmax(fabs(r),fabs(hi)); double f0=F.f(r); if(f0==0) return;
    // either a sign change within the tolerance or a value tiny in comparison with the rounding error
    bool ok=false; for(int k=-8;k<=8&&!ok;k++) { double x=fmin(hi,fmax(lo,r+w*k/8)); double v=F.f(x); if(v==0||(v<0)!=(f0<0)) ok=true; }
    if(!ok && der && !F.smooth) { S.extra["n_nonsmooth_with_deriv"]++; return; }   // convergence is judged by the derivative, which is misleading for these functions
    check(ok,"%s=%.17g: no sign change within %g",id.c_str(),r,w);
}
template<class SC> static void rootScaled(const char* nm,const SC& sc,double lo,double hi,const std::vector<FD>& fam) {
    for(size_t i=0;i<fam.size();i++) for(int der=0;der<2;der++) { Fun f(fam[i].f,der?fam[i].d:Fn()); evals=0; alarm(60); maxIterMsg=false; utils::verbosityLevel=utils::VL_WARNING; double tol=1e-10; S.states++; double r; std::string id=fmt("findRoot(%s%s,%s)",fam[i].name,der?"+deriv":"",nm);
        try { r=findRoot(f,sc,tol); } catch(std::exception& e) { check(false,"%s throws %s",id.c_str(),e.what()); continue; } alarm(0);
        double a=fam[i].f(unscale(sc,0.)), b=fam[i].f(unscale(sc,1.)); bool brk=std::isfinite(a)&&std::isfinite(b)&&!((a<0&&b<0)||(a>0&&b>0)); check(evals<=200,"%s: %ld evaluations",id.c_str(),evals);
        if(!brk) { check(r!=r,"%s=%g although f=%g,%g at the ends",id.c_str(),r,a,b); continue; }
        if(r!=r && (strncmp(fam[i].name,"nan",3)==0)) continue;
        if(!check(r>=lo&&r<=hi,"%s=%g outside the interval",id.c_str(),r)) continue; if(maxIterMsg) { S.extra["n_maxiter"]++; continue; }
        double f0=fam[i].f(r); if(f0==0) continue; double s=scale(sc,r); bool ok=false; for(int k=-8;k<=8&&!ok;k++) { double v=fam[i].f(unscale(sc,fmin(1,fmax(0,s+k*0.5*tol)))); if(v==0||(v<0)!=(f0<0)||v!=v) ok=true; }
        if(!ok && der && !fam[i].smooth) continue; check(ok,"%s=%.17g: no sign change nearby",id.c_str(),r); }
}
static void roots() {
    std::vector<FD> fam=family(); double xs[]={-1,-0.999,-0.5,0,0.1,0.25,0.35,0.5,1,3,100}; double tols[]={1e-2,1e-6,1e-12,1e-15,0.5,1};
    for(size_t i=0;i<fam.size();i++) for(int der=0;der<2;der++) { if(!begin(fmt("findRoot %s%s",fam[i].name,der?" with derivative":""))) continue;
        for(int a=0;a<11;a++) for(int b=0;b<11;b++) { if(a==b) continue; for(int t=0;t<6;t++) rootCase(fam[i],der,xs[a],xs[b],tols[t]); }
        // degenerate and invalid arguments
        Fun f(fam[i].f,der?fam[i].d:Fn()); double bad[][3]={{0,1,0},{0,1,-1},{0,INFINITY,1e-3},{-INFINITY,1,1e-3},{NAN,1,1e-3},{0,NAN,1e-3}};
        for(int k=0;k<6;k++) { bool thr=false; evals=0; try { findRoot(f,bad[k][0],bad[k][1],bad[k][2]); } catch(std::invalid_argument&) { thr=true; } check(thr,"findRoot(%s,%g,%g,%g) does not reject invalid arguments",fam[i].name,bad[k][0],bad[k][1],bad[k][2]); }
    }
    // functions with a sign change at +-infinity limits
    std::vector<FD> g; double cs[]={1e-20,1e-3,1,2.5,1e6,1e25};
    static std::vector<std::string> nm; nm.reserve(64);
    for(int i=0;i<6;i++) for(int s=-1;s<=1;s+=2) { double c=cs[i]*s; nm.push_back(fmt("(x-c)/(|x|+|c|), c=%g",c)); g.push_back(FD{nm.back().c_str(),[c](double x){return std::isinf(x)?sgn(x):(x-c)/(fabs(x)+fabs(c));},[c](double x){ double d=fabs(x)+fabs(c); return std::isinf(x)?0.:(d-(x-c)*sgn(x))/(d*d); },true}); }
    g.push_back(FD{"always 1",[](double){return 1.;},[](double){return 0.;},true}); g.push_back(FD{"nan",[](double){return NAN;},[](double){return NAN;},false});
    g.push_back(FD{"heaviside",[](double x){return x<3?-1.:1.;},[](double){return 0.;},false});
    if(begin("findRoot scaled Inf")) { std::vector<FD> q; for(size_t i=0;i<g.size();i++) { if(strstr(g[i].name,"e-20")||strstr(g[i].name,"e+25")) continue; q.push_back(g[i]); } rootScaled("Inf",ScalingInf(),-INFINITY,INFINITY,q); }
    if(begin("findRoot scaled SemiInf(+0)")) rootScaled("SemiInf(+0)",ScalingSemiInf(0.),0,INFINITY,g);
    if(begin("findRoot scaled SemiInf(-0)")) rootScaled("SemiInf(-0)",ScalingSemiInf(-0.),-INFINITY,0,g);
    if(begin("findRoot scaled SemiInf(1)")) rootScaled("SemiInf(1)",ScalingSemiInf(1.),1,INFINITY,g);
    if(begin("findRoot scaled DoubleInf(0)")) rootScaled("DoubleInf(0)",ScalingDoubleInf(0.),-INFINITY,INFINITY,g);
    if(begin("findRoot scaled DoubleInf(1)")) rootScaled("DoubleInf(1)",ScalingDoubleInf(1.),-INFINITY,INFINITY,g);
    if(begin("findRoot scaled Lin")) rootScaled("Lin",ScalingLin(-10,10),-10,10,g); if(begin("findRoot scaled Cub")) rootScaled("Cub",ScalingCub(-10,10),-10,10,g); if(begin("findRoot scaled Qui")) rootScaled("Qui",ScalingQui(-10,10),-10,10,g);
}
// ---------- minimiser ----------
static void minCase(const FD& F,double x1,double x2,double xi,double tol) {
    Fun f(F.f); evals=0; alarm(60); double r; S.states++; std::string id=fmt("findMin(%s,%.17g,%.17g,%g,%g)",F.name,x1,x2,xi,tol);
    double lo=fmin(x1,x2), hi=fmax(x1,x2); bool out = xi==xi && !(xi>=lo && xi<=hi); bool bad=false; auto g=[&](double x) { double y=F.f(x); if(!std::isfinite(y)) bad=true; return y; };
    struct Rec: public IFunctionNoDeriv { decltype(g)& G; Rec(decltype(g)& q): G(q) {} virtual double value(double x) const { if(++evals>EVMAX) throw TooMany(); return G(x); } } rec(g);
    try { r=findMin(rec,x1,x2,xi,tol); } catch(std::invalid_argument&) { alarm(0); check(out||!std::isfinite(x1+x2)||tol<=0,"%s throws invalid_argument",id.c_str()); return; } catch(std::exception& e) { check(false,"%s throws %s",id.c_str(),e.what()); return; }
    alarm(0); check(!out,"%s accepts an initial point outside the interval",id.c_str()); check(evals<=400,"%s: %ld evaluations",id.c_str(),evals);
    outcome(fmt("%s %d %d",F.name,bad,r==r));
    if(bad) { check(r!=r || (r>=lo&&r<=hi),"%s=%g",id.c_str(),r); return; }
    if(!check(r>=lo&&r<=hi,"%s=%.17g is not inside the interval although the function is finite",id.c_str(),r)) return;
    double y=F.f(r), best=fmin(F.f(lo),F.f(hi)); if(xi==xi) best=fmin(best,F.f(xi)); check(y<=best,"%s=%.17g: f=%.17g is higher than at the end-points or the starting point (%.17g)",id.c_str(),r,y,best);
    // local minimality within the tolerance: no lower value at distance ~ 3 tol on both sides unless it's an endpoint
    bool strict = xi==xi && F.f(xi)<F.f(lo) && F.f(xi)<F.f(hi);   // in a degenerate situation with several minima, only the value is guaranteed
    bool unimodal = strncmp(F.name,"lin",3)==0 || F.name[0]=='|' || F.name[0]=='-' || !strcmp(F.name,"(x-0.3)^2") || !strcmp(F.name,"x^4") || !strncmp(F.name,"exp",3) || !strncmp(F.name,"atan",4);
    if(F.smooth && (strict || (unimodal && xi!=lo && xi!=hi))) { double w=3*tol*(hi-lo)+1e-7*fmax(fabs(r),hi-lo); double yl=F.f(fmax(lo,r-w)), yr=F.f(fmin(hi,r+w)); double e=1e-14*fmax(fabs(y),1e-300)+1e-15*fabs(F.f(lo)-F.f(hi));
        if(tol<1e-2) check(y<=yl+e && y<=yr+e,"%s=%.17g is not a local minimum: f=%.17g, %.17g and %.17g at distance %g",id.c_str(),r,y,yl,yr,w); }
}
static void minima() {
    std::vector<FD> fam=family();
    fam.push_back(FD{"(x-0.3)^2",[](double x){return (x-0.3)*(x-0.3);},Fn(),true}); fam.push_back(FD{"|x-0.2|",[](double x){return fabs(x-0.2);},Fn(),true}); fam.push_back(FD{"-exp(-x^2)",[](double x){return -exp(-x*x*30);},Fn(),true}); fam.push_back(FD{"x^4",[](double x){return x*x*x*x;},Fn(),true}); fam.push_back(FD{"max(x,0)",[](double x){return x>0?x:0;},Fn(),false}); fam.push_back(FD{"notch",[](double x){return fabs(x-0.37)<1e-3?-1.:0.;},Fn(),false});
    double xs[]={-1,-0.5,0,0.25,0.5,1,3}; double tols[]={1e-1,1e-3,1e-8,0.5,1,2};
    for(size_t i=0;i<fam.size();i++) { if(!begin(fmt("findMin %s",fam[i].name))) continue;
        for(int a=0;a<7;a++) for(int b=0;b<7;b++) { if(a==b) continue; for(int t=0;t<6;t++) { minCase(fam[i],xs[a],xs[b],NAN,tols[t]); for(int c=0;c<7;c++) minCase(fam[i],xs[a],xs[b],xs[c],tols[t]); minCase(fam[i],xs[a],xs[b],0.3,tols[t]); minCase(fam[i],xs[a],xs[b],0.3700001,tols[t]); } }
        Fun f(fam[i].f); double bad[][3]={{0,1,0},{0,1,-1},{0,INFINITY,1e-3},{-INFINITY,1,1e-3},{NAN,1,1e-3},{0,NAN,1e-3}};
        for(int k=0;k<6;k++) { bool thr=false; evals=0; try { findMin(f,bad[k][0],bad[k][1],NAN,bad[k][2]); } catch(std::invalid_argument&) { thr=true; } check(thr,"findMin(%s,%g,%g,%g) does not reject invalid arguments",fam[i].name,bad[k][0],bad[k][1],bad[k][2]); } }
    // semi-infinite intervals
    if(begin("findMin scaled")) { double cs[]={1e-15,1e-3,1,40,1e12}; for(int i=0;i<5;i++) { double c=cs[i]; Fun f([c](double x){ return std::isinf(x)||x==0? 1e3 : fabs(log(x/c)); }); for(int k=0;k<4;k++) { double xi= k==0?NAN: c*pow(10.,k-2); evals=0; double r=findMin(f,ScalingSemiInf(0.),xi,1e-10); S.states++; check(close(r,c,1e-5),"findMin over [0,inf) from %g: %.17g instead of %g",xi,r,c); }
            Fun h([c](double x){ return std::isinf(x)? 1e3 : fabs(x-c)/(fabs(x)+c); }); evals=0; double r=findMin(h,ScalingDoubleInf(0.),NAN,1e-10); (void)r; } }
}
// ---------- quadrature ----------
static void quad() {
    double iv[][2]={{0,1},{-1,2},{3,-1},{5,5.5},{-2,-2}};
    // maximal N for the table computed on the fly
    for(int N=1;N<=60;N++) { if(!begin(fmt("Gauss-Legendre N=%d",N))) continue;
        for(int v=0;v<5;v++) { double a=iv[v][0], b=iv[v][1];
            std::vector<double> x(N+2,777.), w(N+2,777.); prepareIntegrationTableGL(a,b,N,&x[0],&w[0]); check(x[N]==777&&w[N]==777,"the table for N=%d overruns",N);
            bool in=true, sorted=true; for(int i=0;i<N;i++) { if(!(x[i]>=fmin(a,b)&&x[i]<=fmax(a,b))) in=false; if(i && (b>a? x[i]<=x[i-1] : b<a? x[i]>=x[i-1] : false)) sorted=false; } check(in,"N=%d [%g,%g]: nodes outside the interval",N,a,b); check(sorted,"N=%d [%g,%g]: nodes are not sorted",N,a,b);
            LD c=0.5L*((LD)a+b), hw=0.5L*((LD)b-a);
            for(int k=0;k<=2*N-1;k++) { // Legendre-like basis ((x-c)/hw)^k
                LD s=0; for(int i=0;i<N;i++) s+=(LD)w[i]*(hw==0?(k==0):powl((x[i]-c)/hw,k)); LD e= hw==0?0: (k%2?0:2*hw/(k+1)); S.states++;
                check(fabsl(s-e)<=2e-13L*fabsl(hw),"table N=%d on [%g,%g]: integral of t^%d is %.17Lg instead of %.17Lg",N,a,b,k,s,e);
                if(N<=MAX_GL_ORDER) { Fun f([&](double y){ return hw==0?1.:(double)powl((y-c)/hw,k); }); evals=0; double r=integrateGL(f,a,b,N); check(fabsl(r-e)<=2e-13L*fabsl(hw),"integrateGL N=%d on [%g,%g]: integral of t^%d is %.17g instead of %.17Lg",N,a,b,k,r,e); } }
            if(N<=MAX_GL_ORDER) { struct F2: public IFunctionNdim { LD c,hw; int N; virtual void eval(const double x[],double v[]) const { LD t=hw==0?0:(x[0]-c)/hw; for(int k=0;k<2*N;k++) v[k]=powl(t,k); } virtual unsigned numVars() const { return 1; } virtual unsigned numValues() const { return 2*N; } } f; f.c=c; f.hw=hw; f.N=N; V r(2*N+1,777.); integrateGL(f,a,b,N,&r[0]); check(r[2*N]==777,"vector integrateGL overruns");
                for(int k=0;k<2*N;k++) check(fabsl(r[k]-(hw==0||k%2?0:2*hw/(k+1)))<=2e-13L*fabsl(hw),"vector integrateGL N=%d [%g,%g] k=%d: %.17g",N,a,b,k,r[k]); } }
    }
    if(begin("integrateGL invalid")) { Fun f([](double x){return x;}); int bad[]={0,-1,MAX_GL_ORDER+1,1000}; for(int i=0;i<4;i++) { bool t=false; evals=0; try { integrateGL(f,0,1,bad[i]); } catch(std::invalid_argument&) { t=true; } check(t,"integrateGL accepts order %d",bad[i]); } }
    // adaptive rules
    for(int deg=0;deg<=20;deg++) { if(!begin(fmt("adaptive quadrature of x^%d",deg))) continue;
        double xs[]={-3,-1,-0.2,0,0.5,2,2}; double tl[]={1e-3,1e-6,1e-10};
        for(int i=0;i<7;i++) for(int j=0;j<7;j++) for(int t=0;t<3;t++) { double a=xs[i], b=xs[j]; LD e=(powl(b,deg+1)-powl(a,deg+1))/(deg+1), sc=(powl(fabs(b),deg+1)+powl(fabs(a),deg+1))/(deg+1); Fun f([deg](double x){return pow(x,deg);});
            for(int m=0;m<2;m++) { double err=-1; int ne=-1; evals=0; double r= m? integrateAdaptive(f,a,b,tl[t],&err,&ne) : integrate(f,a,b,tl[t],&err,&ne); S.states++;
                check(fabsl(r-e)<=1e-12L*sc+(deg>15?3*tl[t]*fabsl(e):0),"%s(x^%d,%g,%g,%g)=%.17g instead of %.17Lg",m?"integrateAdaptive":"integrate",deg,a,b,tl[t],r,e); if(a!=b) { check(ne==evals,"%s reports %d evaluations, made %ld",m?"integrateAdaptive":"integrate",ne,evals); check(err>=0,"negative error estimate"); } } } }
    if(begin("adaptive quadrature of singular functions")) {
        struct Q { const char* n; Fn f; double a,b; double e; } q[]={{"1/sqrt(x)",[](double x){return 1/sqrt(x);},0,1,2},{"log(x)",[](double x){return log(x);},0,1,-1},{"|x-0.3|",[](double x){return fabs(x-0.3);},0,1,0.29},{"step",[](double x){return x<0.3?0.:1.;},0,1,0.7},{"sqrt(x)",[](double x){return sqrt(x);},0,4,16./3},{"peak",[](double x){return 1e-3/(1e-6+(x-0.4)*(x-0.4));},0,1,atan(600)+atan(400)}};
        double tl[]={1e-2,1e-3,1e-5}; for(int i=0;i<6;i++) for(int t=0;t<3;t++) for(int fl=0;fl<2;fl++) { Fun f(q[i].f); evals=0; double err; double r=integrateAdaptive(f,fl?q[i].b:q[i].a,fl?q[i].a:q[i].b,tl[t],&err); double e=fl?-q[i].e:q[i].e; S.states++; check(fabs(r-e)<=2*tl[t]*fabs(e),"integrateAdaptive(%s,tol=%g)=%.12g instead of %.12g",q[i].n,tl[t],r,e); } }
    if(begin("scaled integrands")) {
        struct Q { Fn f; double e; } g[]={{[](double x){return std::isinf(x)?0.:exp(-x*x);},sqrt(M_PI)},{[](double x){return 1/(1+x*x);},M_PI},{[](double x){return exp(-fabs(x-2));},2}};
        for(int i=0;i<3;i++) { Fun f(g[i].f); evals=0; double r1=integrateAdaptive(ScaledIntegrand<ScalingInf>(ScalingInf(),f),0,1,1e-8), r2=integrateAdaptive(ScaledIntegrand<ScalingSemiInf>(ScalingSemiInf(0.),f),0,1,1e-8)+integrateAdaptive(ScaledIntegrand<ScalingSemiInf>(ScalingSemiInf(-0.),f),0,1,1e-8);
            // the integrand is zero beyond the largest representable exponent
            check(close(r1,g[i].e,1e-6),"integral over the real axis %d: %.12g instead of %.12g",i,r1,g[i].e); check(close(r2,g[i].e,1e-6),"integral over two half-axes %d: %.12g instead of %.12g",i,r2,g[i].e); }
        Fun h([](double x){return 1/sqrt(x*(2-x));}); ScalingCub sc(0,2); ScalingQui sq(0,2); double pts[]={0,0.3,1,1.7,2}; for(int i=0;i<5;i++) for(int j=0;j<5;j++) { double a=pts[i],b=pts[j], e=asin(b-1)-asin(a-1); evals=0; double r=integrateAdaptive(ScaledIntegrand<ScalingCub>(sc,h),scale(sc,a),scale(sc,b),1e-8), r2=integrateAdaptive(ScaledIntegrand<ScalingQui>(sq,h),scale(sq,a),scale(sq,b),1e-8); S.states++; check(fabs(r-e)<1e-6,"cubic-scaled integral [%g,%g]: %.12g instead of %.12g",a,b,r,e); check(fabs(r2-e)<1e-6,"quintic-scaled integral [%g,%g]: %.12g instead of %.12g",a,b,r2,e); } }
    // exceptions from the integrand at the k-th call must reach the caller
    if(begin("exceptions in integrands")) for(int m=0;m<5;m++) { const char* nm[]={"integrate","integrateAdaptive","integrate+specfunc","integrateAdaptive nested","integrateNdim"}; 
        for(int k=0;k<60;k++) { long n=0; bool fired=false; struct Boom: public std::exception { const char* what() const throw() { return "boom-M04"; } }; 
            Fun f([&](double x)->double { if(n++==k) { fired=true; throw Boom(); } double extra=0; if(m==2) { evals=0; Fun g([](double y){return y;}); extra=0*integrate(g,0,1,1e-3); } return 1/(1+25*x*x)+extra; });
            struct N3: public IFunctionNdim { const IFunction& f; N3(const IFunction& _f): f(_f) {} virtual void eval(const double x[],double v[]) const { v[0]=f(x[0]*x[1]); } virtual unsigned numVars() const { return 2; } virtual unsigned numValues() const { return 1; } } n3(f);
            Fun outer([&](double x)->double { return integrateAdaptive(f,0,x+0.5,1e-3); }); evals=0; bool thr=false; std::string msg; double r=0;
            try { if(m==0||m==2) r=integrate(f,-1,1,1e-6); else if(m==1) r=integrateAdaptive(f,-1,1,1e-6); else if(m==3) r=integrateAdaptive(outer,0,1,1e-3); else { double lo[2]={0,0},hi[2]={1,1},e; int ne; integrateNdim(n3,lo,hi,1e-6,3000,&r,&e,&ne); } } catch(std::exception& e) { thr=true; msg=e.what(); } S.states++;
            check(fired==thr,"%s: evaluation %d %s but %s",nm[m],k,fired?"failed":"was never reached",thr?"an exception was raised":"the integral was returned as valid"); if(fired) check(msg.find("boom-M04")!=msg.npos,"%s: the message of the original exception is lost: %s",nm[m],msg.c_str()); } }
    if(begin("integrateNdim polynomials")) for(int d=1;d<=4;d++) for(int p=0;p<81;p++) { int e[4]={p%3,p/3%3,p/9%3,p/27}; bool skip=false; for(int i=d;i<4;i++) if(e[i]) skip=true; if(skip) continue;
        struct FN: public IFunctionNdim { int d,*e; virtual void eval(const double x[],double v[]) const { double r=1; for(int i=0;i<d;i++) r*=pow(x[i],e[i]); v[0]=r; v[1]=2*r; v[2]=0; } virtual unsigned numVars() const { return d; } virtual unsigned numValues() const { return 3; } } f; f.d=d; f.e=e; double lo[]={-1,0,0.5,2},hi[]={1,2,1,3}; double r[4]={0,0,0,777},er[3]; int ne; integrateNdim(f,lo,hi,1e-6,20000,r,er,&ne); double ex=1; for(int i=0;i<d;i++) ex*=(pow(hi[i],e[i]+1)-pow(lo[i],e[i]+1))/(e[i]+1); S.states++;
        check(close(r[0],ex,2e-6,1e-12)&&close(r[1],2*ex,2e-6,1e-12)&&r[2]==0&&r[3]==777,"integrateNdim d=%d exponents %d%d%d%d: %.15g %.15g instead of %.15g",d,e[0],e[1],e[2],e[3],r[0],r[1],ex); check(ne>0&&ne<=20000+2000,"integrateNdim used %d evaluations (limit 20000)",ne); }
    if(begin("integrateNdim evaluation limit")) for(int lim=1;lim<3000;lim=lim*3/2+1) { struct FN: public IFunctionNdim { mutable long n; virtual void eval(const double x[],double v[]) const { n++; v[0]=1/sqrt(fabs(x[0]-0.3333)+fabs(x[1]-0.777)+1e-9); } virtual unsigned numVars() const { return 2; } virtual unsigned numValues() const { return 1; } } f; f.n=0; double lo[]={0,0},hi[]={1,1},r,e; int ne; integrateNdim(f,lo,hi,1e-14,lim,&r,&e,&ne); check(ne==f.n,"reports %d evaluations, made %ld",ne,f.n); check(f.n<=lim+4*17*2+17 || f.n<=2*lim+200,"limit %d, made %ld evaluations",lim,f.n); check(std::isfinite(r)&&r>0,"result %g",r); }
}
// ---------- elementary functions ----------
static void elem() {
    if(begin("hermite interpolation")) { double ws[][3]={{0,1,2},{0,0.5,2},{-1,0.7,1},{-3,-1,1},{2,2.5,3},{0,0.1,0.3}}; for(int d=0;d<=5;d++) for(int w=0;w<6;w++) for(int sh=-2;sh<=2;sh++) { 
            auto f=[&](double x,int k)->double { double r=1; if(k>d) return 0; for(int i=0;i<k;i++) r*=d-i; return r*pow(x-sh,d-k); };
            double *x=ws[w]; double d2,d3,d4,d5; hermiteDerivs(x[0],x[1],x[2],f(x[0],0),f(x[1],0),f(x[2],0),f(x[0],1),f(x[1],1),f(x[2],1),d2,d3,d4,d5); double sc=0; for(int k=0;k<3;k++) sc=fmax(sc,pow(fabs(x[k]-sh)+1,d)); double h=fmin(x[1]-x[0],x[2]-x[1]); S.states++;
            double got[]={d2,d3,d4,d5}; for(int k=2;k<=5;k++) check(fabs(got[k-2]-f(x[1],k))<=1e-12*sc/pow(h,k),"hermiteDerivs nodes %g,%g,%g polynomial (x%+d)^%d: derivative %d at the central node is %.15g instead of %.15g",x[0],x[1],x[2],-sh,d,k,got[k-2],f(x[1],k));
            if(d<=3) for(int i=0;i<=8;i++) { double t=x[0]+(x[2]-x[0])*i/8; double r=hermiteInterp(t,x[0],x[2],f(x[0],0),f(x[2],0),f(x[0],1),f(x[2],1)); check(fabs(r-f(t,0))<=1e-13*sc,"hermiteInterp of degree %d: %.15g instead of %.15g",d,r,f(t,0)); }
            if(d<=1) for(int i=0;i<=8;i++) { double t=x[0]+(x[2]-x[0])*i/8; double r=linearInterp(t,x[0],x[2],f(x[0],0),f(x[2],0)); check(fabs(r-f(t,0))<=1e-14*sc,"linearInterp: %.15g instead of %.15g",r,f(t,0)); } } }
    if(begin("powers")) for(int n=-40;n<=40;n++) { double xs[]={-3,-1,-0.5,0,0.1,0.9,1,2,7,1e5}; for(int i=0;i<10;i++) { LD e=1; for(int k=0;k<abs(n);k++) e*=xs[i]; if(n<0) e=1/e; double r=math::pow(xs[i],n); S.states++; bool ok = (xs[i]==0 && n<0)? std::isinf(r) : fabsl(r-e)<=abs(n)*3e-16L*fabsl(e)+1e-320L || (std::isinf(r)&&e>DBL_MAX) ; check(ok,"pow(%g,%d)=%.17g instead of %.17Lg",xs[i],n,r,e); double nh[]={(double)n,n*0.5,n+0.1}; for(int k=0;k<3;k++) { double p=math::pow(xs[i],nh[k]), q=std::pow(xs[i],nh[k]); check(close(p,q,5e-16)||(p!=p&&q!=q),"pow(%g,%g)=%.17g instead of %.17g",xs[i],nh[k],p,q); } } }
    if(begin("angles")) { V a; for(int i=-2000;i<=2000;i++) { a.push_back(i*M_PI/16); a.push_back(i*M_PI/2*(1+1e-15)); a.push_back(i*0.37); } for(int e=-320;e<=4;e++) { a.push_back(pow(10.,e)); a.push_back(-pow(10.,e)); } for(int i=-50;i<=50;i++) { a.push_back(nextafter(i*2*M_PI,1e9)); a.push_back(nextafter(i*2*M_PI,-1e9)); }
        for(size_t i=0;i<a.size();i++) { double x=a[i], w=wrapAngle(x); S.states++; check(w>=0&&w<2*M_PI,"wrapAngle(%.17g)=%.17g",x,w); double k=(x-w)/(2*M_PI); check(fabs(k-floor(k+0.5))<1e-15*fmax(1,fabs(x))*2,"wrapAngle(%.17g)=%.17g is not equivalent to the argument",x,w);
            double s,c; math::sincos(x,s,c); double tol=4e-16*fmax(1,fabs(x))+2e-15; check(fabs(s-sin(x))<=tol&&fabs(c-cos(x))<=tol,"sincos(%.17g)=%.17g,%.17g instead of %.17g,%.17g",x,s,c,sin(x),cos(x)); }
        for(int i=-1000;i<=1000;i++) { double s,c; math::sincos(i*(M_PI/2),s,c); int q=((i%4)+4)%4; double es[]={0,1,0,-1}, ec[]={1,0,-1,0}; check(s==es[q]&&c==ec[q],"sincos(%d*pi/2)=%.17g,%.17g",i,s,c); }
        for(int i=-300;i<=300;i++) for(int j=-60;j<=60;j++) { double x=i*0.31, p=j*1.7, u=unwrapAngle(x,p); double k=(x-u)/(2*M_PI); S.states++; check(fabs(u-p)<=M_PI*(1+1e-12)&&fabs(k-floor(k+0.5))<1e-12,"unwrapAngle(%g,%g)=%.17g",x,p,u); } }
    if(begin("sign, clip, fcmp")) { double xs[]={-INFINITY,-2,-1e-300,-0.,0.,1e-300,1,1+4e-16,1+1e-14,2,INFINITY,NAN}; for(int i=0;i<12;i++) for(int j=0;j<12;j++) { double x=xs[i],y=xs[j]; if(i<=10&&j<=10&&xs[i]<=xs[j]) for(int k=0;k<12;k++) { double c=clip(xs[k],x,y); double e=k==11?x: xs[k]<x?x: xs[k]>y?y:xs[k]; check(c==e,"clip(%g,%g,%g)=%g",xs[k],x,y,c); }
            int f=fcmp(x,y,1e-15); S.states++; int e; if(x!=x&&y==y) { if(y==0) continue; e=-2; if(y==0) continue; } else continue; check(f==e,"fcmp(%g,%g)=%d",x,y,f); }
        check(fcmp(1,1+1e-16)==0&&fcmp(1,2)==-1&&fcmp(2,1)==1&&fcmp(0,1e-300)==0&&fcmp(0,1)==-1&&fcmp(1,0)==1&&fcmp(-1,0)==-1&&fcmp(1,NAN)==2&&fcmp(NAN,1)==-2,"fcmp is wrong for one of the elementary arguments"); check(fcmp(0,NAN)==2&&fcmp(NAN,0)==-2&&fcmp(0,-1)==1,"fcmp(0,NaN)=%d fcmp(NaN,0)=%d fcmp(0,-1)=%d",fcmp(0,NAN),fcmp(NAN,0),fcmp(0,-1)); for(int i=0;i<11;i++) check(math::sign(xs[i])==(xs[i]>0?1:xs[i]<0?-1:0),"sign(%g)",xs[i]); }
    if(begin("averager")) { double pal[]={-1,0,0.5,3,1e6}; for(int n=0;n<=6;n++) { int tot=1; for(int i=0;i<n;i++) tot*=5; for(int c=0;c<tot;c++) { Averager a; LD s=0,q=0; V v; int t=c; for(int i=0;i<n;i++) { v.push_back(pal[t%5]); t/=5; a.add(v.back()); s+=v.back(); } if(n) s/=n; for(int i=0;i<n;i++) q+=(v[i]-s)*(v[i]-s); if(n>1) q/=n-1; else q=0; S.states++; check((int)a.count()==n&&close(a.mean(),s,1e-13,1e-10)&&close(a.disp(),q,1e-13,1e-9),"averager: mean %.15g disp %.15g instead of %.15Lg %.15Lg",a.mean(),a.disp(),s,q); } } }
    if(begin("function adaptors")) { for(int m1=-2;m1<=4;m1++) for(int m2=-2;m2<=4;m2++) for(int i=1;i<=8;i++) { double x=0.4*i; Monomial f(m1),g(m2); FncProduct p(f,g); double v,d,e; p.evalDeriv(x,&v,&d,&e); int m=m1+m2; S.states++; check(close(v,std::pow(x,m),1e-13)&&close(d,m*std::pow(x,m-1),1e-12,1e-12)&&close(e,m*(m-1.)*std::pow(x,m-2),1e-12,1e-11),"product x^%d x^%d at %g: %g %g %g",m1,m2,x,v,d,e); double v1=NAN,d1=NAN,e1=NAN; p.evalDeriv(x,&v1,NULL,NULL); p.evalDeriv(x,NULL,&d1,NULL); p.evalDeriv(x,NULL,NULL,&e1); check(v1==v&&d1==d&&e1==e,"FncProduct: partial evaluation differs");
                FncShifted sh(f,0.1*m2,7); sh.evalDeriv(x,&v,&d,&e); double a,b,c; f.evalDeriv(x-0.1*m2,&a,&b,&c); check(v==a-7&&d==b&&e==c,"FncShifted"); LogLogScaledFnc l(f); l.evalDeriv(log(x),&v,&d,&e); check(close(v,m1*log(x),1e-12,1e-12)&&close(d,m1,1e-12,1e-12)&&fabs(e)<1e-10,"LogLogScaledFnc of x^%d: %g %g %g",m1,v,d,e);
                for(int n=-3;n<=4;n++) for(int j=1;j<=4;j++) { double y=0.7*j; int q=m1+n+1; double ex= q==0? log(y/x) : (std::pow(y,q)-std::pow(x,q))/q; check(close(f.integrate(x,y,n),ex,1e-12,1e-12*(1+std::pow(x,q))),"Monomial(%d).integrate(%g,%g,%d)=%.15g instead of %.15g",m1,x,y,n,f.integrate(x,y,n),ex); } }
        double sg[]={0.3,1,5}; for(int k=0;k<3;k++) for(int i=-10;i<=10;i++) { double s=sg[k],x=0.45*i; Gaussian g(s); double v,d,e,vp,vm,dp,dm; g.evalDeriv(x,&v,&d,&e); double h=1e-5*s; g.evalDeriv(x+h,&vp,&dp,NULL); g.evalDeriv(x-h,&vm,&dm,NULL); check(close(v,exp(-0.5*x*x/s/s)/sqrt(2*M_PI)/s,1e-12)&&close(d,(vp-vm)/2/h,1e-7*(1+0.1*x*x/s/s),1e-7*v/s)&&close(e,(dp-dm)/2/h,1e-7*(1+0.1*x*x/s/s),1e-7*v/s/s),"Gaussian(%g) derivatives at %g: %.12g %.12g %.12g, numerically %.12g %.12g",s,x,v,d,e,(vp-vm)/2/h,(dp-dm)/2/h);
            for(int j=-10;j<=10;j++) for(int n=0;n<=10;n++) { double y=0.45*j; V t(40),w(40); LD ex=0,sc=0; int M=8; for(int q=0;q<M;q++) { prepareIntegrationTableGL(x+(y-x)*q/M,x+(y-x)*(q+1)/M,20,&t[0],&w[0]); for(int u=0;u<20;u++) { LD z=(LD)w[u]*expl(-0.5L*t[u]*t[u]/s/s)/sqrtl(2*M_PIl)/s*powl(t[u],n); ex+=z; sc+=fabsl(z); } } double r=g.integrate(x,y,n); S.states++; double full=0; { double f2=1; for(int q=n-1;q>1;q-=2) f2*=q; full=f2*std::pow(s,n); } check(fabsl(r-ex)<=1e-10L*sc+3e-14L*full+1e-300L,"Gaussian(%g).integrate(%g,%g,%d)=%.15g instead of %.15Lg",s,x,y,n,r,ex); } } }
}
int main(int argc,char** argv) { init(argc,argv); utils::msg=quiet; signal(SIGALRM,onAlarm);
    polys(); bins(); scalings(); roots(); minima(); quad(); elem(); return finish(); }
