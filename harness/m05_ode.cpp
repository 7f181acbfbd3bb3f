// M05: initial-value solvers - accuracy, order, dense output, sequences of steps
#include "vh.h"
#include "math_ode.h"
#include <memory>
#include <functional>
using namespace vh; using namespace math; typedef std::vector<double> V;
static const double PI=3.14159265358979323846;
//---- systems with known flow
struct Sys: IOdeSystemHermite { const char* name; bool herm, linear, autonom; double range; Sys(const char* n,bool h,bool l,bool a,double r): name(n), herm(h), linear(l), autonom(a), range(r) {}
    virtual V start(int k,double t0) const=0; virtual V flow(const V& x0,double t0,double t) const=0; virtual void eval(const double,const double[],double[],double[]) const { throw std::runtime_error("not second order"); } using IOdeSystemHermite::eval; };
struct Expo: Sys { double l; Expo(double _l): Sys("exponential",false,true,true,3), l(_l) {} unsigned size() const { return 1; } void eval(const double,const double x[],double d[]) const { d[0]=l*x[0]; } V start(int k,double) const { return V(1,k?-3.5:0.7); } V flow(const V& x,double t0,double t) const { return V(1,x[0]*exp(l*(t-t0))); } };
struct Osc: Sys { double w; Osc(double _w): Sys("oscillator",true,true,true,10), w(_w) {} unsigned size() const { return 2; } void eval(const double,const double x[],double d[]) const { d[0]=x[1]; d[1]=-w*w*x[0]; } void eval(const double,const double x[],double a[],double j[]) const { a[0]=-w*w*x[0]; j[0]=-w*w*x[1]; }
    V start(int k,double) const { V r(2); r[0]=k?0.4:1; r[1]=k?-1.1:0.5; return r; } V flow(const V& x,double t0,double t) const { double c=cos(w*(t-t0)),s=sin(w*(t-t0)); V r(2); r[0]=x[0]*c+x[1]/w*s; r[1]=x[1]*c-x[0]*w*s; return r; } };
struct Rat: Sys { Rat(): Sys("rational",false,false,false,4) {} unsigned size() const { return 1; } void eval(const double t,const double x[],double d[]) const { d[0]=-2*t*x[0]*x[0]; } V start(int k,double t0) const { return V(1,1/(k?2.5+t0*t0:1+t0*t0)); } V flow(const V& x,double t0,double t) const { return V(1,1/(1/x[0]-t0*t0+t*t)); } };
struct Quad: Sys { Quad(): Sys("quadrature",false,false,false,6) {} unsigned size() const { return 3; } void eval(const double t,const double[],double d[]) const { d[0]=cos(t); d[1]=exp(-t*t); d[2]=1/(1+t*t); } V start(int k,double) const { V r(3,k?2.:1.); r[1]=-3; return r; } V flow(const V& x,double t0,double t) const { V r(x); r[0]+=sin(t)-sin(t0); r[1]+=sqrt(PI)/2*(erf(t)-erf(t0)); r[2]+=atan(t)-atan(t0); return r; } };
struct Poly: Sys { int p; Poly(int _p): Sys("polynomial",false,false,false,2), p(_p) {} unsigned size() const { return 1; } void eval(const double t,const double[],double d[]) const { d[0]=pow(t,p); } V start(int k,double) const { return V(1,k?-1.:2.); } V flow(const V& x,double t0,double t) const { return V(1,x[0]+(pow(t,p+1)-pow(t0,p+1))/(p+1)); } };
struct Stiff: Sys { double k; Stiff(double _k): Sys("relaxation",false,false,false,3), k(_k) {} unsigned size() const { return 1; } void eval(const double t,const double x[],double d[]) const { d[0]=-k*(x[0]-cos(t))-sin(t); } V start(int q,double t0) const { return V(1,cos(t0)+(q?0.5:0)); } V flow(const V& x,double t0,double t) const { return V(1,cos(t)+(x[0]-cos(t0))*exp(-k*(t-t0))); } };
struct Kepler: Sys { double e; Kepler(double _e): Sys("kepler",true,false,true,15), e(_e) {} unsigned size() const { return 4; }
    void eval(const double,const double x[],double d[]) const { double r=sqrt(x[0]*x[0]+x[1]*x[1]),i=1/(r*r*r); d[0]=x[2]; d[1]=x[3]; d[2]=-x[0]*i; d[3]=-x[1]*i; }
    void eval(const double,const double x[],double a[],double j[]) const { double r2=x[0]*x[0]+x[1]*x[1],r=sqrt(r2),i=1/(r*r2),q=3*(x[0]*x[2]+x[1]*x[3])/r2; a[0]=-x[0]*i; a[1]=-x[1]*i; j[0]=-i*(x[2]-q*x[0]); j[1]=-i*(x[3]-q*x[1]); }
    V start(int k,double) const { return at(k?2.2:0.4); } V at(double M) const { double E=M; for(int i=0;i<200;i++) { double d=(E-e*sin(E)-M)/(1-e*cos(E)); E-=d; if(fabs(d)<1e-16) break; } double b=sqrt(1-e*e),r=1-e*cos(E); V v(4); v[0]=cos(E)-e; v[1]=b*sin(E); v[2]=-sin(E)/r; v[3]=b*cos(E)/r; return v; }
    V flow(const V& x,double t0,double t) const { double E=atan2(x[1]/sqrt(1-e*e),x[0]+e),M=E-e*sin(E); return at(M+t-t0); } };
struct Lin3: Sys { Lin3(): Sys("linear3",false,true,true,4) {} unsigned size() const { return 3; } void eval(const double,const double x[],double d[]) const { d[0]=-0.1*x[0]-2*x[1]; d[1]=2*x[0]-0.1*x[1]; d[2]=x[0]+0.3*x[2]; }
    V start(int k,double) const { V r(3); r[0]=k?0.2:1; r[1]=k?-1:0.6; r[2]=k?0.9:-0.3; return r; } V flow(const V& x,double t0,double t) const { double s=t-t0,f=exp(-0.1*s),c=cos(2*s)*f,q=sin(2*s)*f; V r(3); r[0]=x[0]*c-x[1]*q; r[1]=x[1]*c+x[0]*q; /* z' = x+0.3z; particular: z = A x + B y with A*(-0.1)+2B... */ double B=1/2.08,A=-0.2*B; r[2]=A*r[0]+B*r[1]+(x[2]-A*x[0]-B*x[1])*exp(0.3*s); return r; } };
struct Const: Sys { Const(): Sys("constant",false,true,true,5) {} unsigned size() const { return 2; } void eval(const double,const double[],double d[]) const { d[0]=d[1]=0; } V start(int k,double) const { V r(2); r[0]=k?1:0; r[1]=k?0:-2; return r; } V flow(const V& x,double,double) const { return x; } };
struct Mirror: Sys { const Sys& s; Mirror(const Sys& _s): Sys(_s.name,_s.herm,_s.linear,_s.autonom,_s.range), s(_s) {} unsigned size() const { return s.size(); } // t -> -t
    void eval(const double t,const double x[],double d[]) const { if(herm) { V y(x,x+size()); int n=size()/2; for(int i=0;i<n;i++) y[n+i]=-y[n+i]; s.eval(-t,&y[0],d); for(int i=0;i<n;i++) d[i]=-d[i]; } else { s.eval(-t,x,d); for(unsigned i=0;i<size();i++) d[i]=-d[i]; } }
    void eval(const double t,const double x[],double a[],double j[]) const { V y(x,x+size()); int n=size()/2; for(int i=0;i<n;i++) y[n+i]=-y[n+i]; s.eval(-t,&y[0],a,j); for(int i=0;i<n;i++) j[i]=-j[i]; } V start(int k,double t0) const { return s.start(k,t0); } V flow(const V& x,double,double) const { return x; } };
static std::vector<std::unique_ptr<Sys>> SY;
static BaseOdeSolver* mk(const Sys& s,bool herm,double acc,double ab) { if(herm) return new OdeSolverHermite(s,acc); return new OdeSolverDOP853(s,acc,ab); }
static V sol(const BaseOdeSolver& o,double t) { V r(o.size()); for(size_t i=0;i<r.size();i++) r[i]=o.getSol(t,i); return r; }
static double dist(const V& a,const V& b) { double d=0; for(size_t i=0;i<a.size();i++) d=fmax(d,fabs(a[i]-b[i])); for(size_t i=0;i<a.size();i++) if(a[i]!=a[i]||b[i]!=b[i]) return INFINITY; return d; }
static double norm(const V& a) { double d=0; for(double x: a) d=fmax(d,fabs(x)); return d; }
static double worst[3]={0,0,0};
//---- adaptive integration
static void adaptive(const Sys& s,bool herm,int k,double t0,int dir,double acc,double ab) {
    std::unique_ptr<BaseOdeSolver> o(mk(s,herm,acc,ab)); V x0=s.start(k,t0); o->init(&x0[0],t0); double T=s.range; if(!strcmp(s.name,"relaxation")&&dir<0) return; // unstable
    check(sol(*o,t0)==x0,"state after init"); check(o->getTime()==t0,"time after init");
    double C=(herm?2e3:1e3)*(s.range), eacc=herm? pow(acc,0.8): acc; if(!strcmp(s.name,"kepler")) C*=30; V prev=x0; double tprev=t0, big=norm(x0); int n=0; bool fine=acc<1e-4;
    while(n<(herm?20000:4000)) { double d=o->doStep(dir>0?+0.0:-0.0); n++; double t=o->getTime(); S.transitions++;
        if(!check(d*dir>0,"timestep %g",d)) return; if(!check(d==t-tprev||fabs(d-(t-tprev))<=1e-15*(fabs(t)+fabs(tprev)),"returned timestep %g differs from the change of time %g",d,t-tprev)) return;
        V x=sol(*o,t), f=s.flow(x0,t0,t); big=fmax(big,norm(f)); double tol=(C*eacc+1e-12)*big+C*ab; // global error
        if(herm||1) { double er=dist(x,f); if(!s.autonom&&s.linear) er=0; worst[herm]=fmax(worst[herm],er/tol); if(!check(er<=tol,"t=%.15g: error %g exceeds %g",t,er,tol)) return; }
        // dense output: end-points, exactness, continuity
        check(dist(sol(*o,tprev),prev)<=4e-16*big,"interpolation at the beginning of the step differs by %g",dist(sol(*o,tprev),prev));
        double dtol=tol+(fine?0:3e-2*big); for(int i=0;i<=16;i++) { double q=i/16., tt=tprev+(t-tprev)*q; V w=sol(*o,tt), g=s.flow(x0,t0,tt); double e2=dist(w,g); S.states++; if(i==16||i==0) { V ww=i?x:prev; double z=dist(sol(*o,i? t-1e-12*(t-tprev): tprev+1e-12*(t-tprev)),ww); check(z<=1e-9*big*fmax(1,fabs(t-tprev)),"interpolation is not continuous at the end of the step: difference %g",z); } if(!herm&&!check(e2<=dtol*30,"t=%.15g (fraction %g of the step): error %g of interpolation, %g at the end",tt,q,e2,dist(x,f))) return; worst[2]=fmax(worst[2],e2/dtol/30); }
        if(herm) for(int i=1;i<8;i++) { double tt=tprev+(t-tprev)*i/8.; double e2=dist(sol(*o,tt),s.flow(x0,t0,tt)); if(!check(e2<=tol*3+(fine?0:3e-2*big),"t=%.15g: error of interpolation %g",tt,e2)) return; }
        bool th=false; try { o->getSol(t,x.size()); } catch(std::exception&) { th=true; } if(!herm) check(th,"index out of range");
        prev=x; tprev=t; if((t-t0)*dir>=T) break; }
    check((tprev-t0)*dir>=T,"%d steps are not sufficient",n); outcome(std::string(s.name)+fmt(" %g %d",acc,herm)); }
// the system with reversed time and velocities gives the mirrored solution
static void mirror(const Sys& s,bool herm,int k,double t0,int dir,double acc,double ab) { if(!strcmp(s.name,"relaxation")&&dir<0) return; std::unique_ptr<BaseOdeSolver> o(mk(s,herm,acc,ab)); V x0=s.start(k,t0); o->init(&x0[0],t0); Mirror M(s); std::unique_ptr<BaseOdeSolver> m(mk(M,herm,acc,ab)); V y0=x0; if(s.herm) for(size_t i=y0.size()/2;i<y0.size();i++) y0[i]=-y0[i]; m->init(&y0[0],-t0);
    for(int n=0;n<200&&fabs(o->getTime()-t0)<s.range;n++) { double h=n%10==0? dir*(n==0?0.01:0.3): (dir>0?+0.0:-0.0); double d=o->doStep(h),e=m->doStep(-h),t=o->getTime(); V x=sol(*o,t), y=sol(*m,-t); if(s.herm) for(size_t i=y.size()/2;i<y.size();i++) y[i]=-y[i]; S.transitions++; bool fin=true; for(double v: x) fin&=std::isfinite(v); if(!fin) break; if(!check(d==-e&&y==x,"mirrored system in reversed time: step %.17g instead of %.17g, state differs by %g",-e,d,dist(x,y))) return;
        for(int i=1;i<4;i++) { double tt=t-d*i/4; V a=sol(*o,tt), b=sol(*m,-tt); if(s.herm) for(size_t j=b.size()/2;j<b.size();j++) b[j]=-b[j]; check(dist(a,b)<=1e-14*(norm(a)+norm(x)),"mirrored interpolated solution differs by %g",dist(a,b)); } } outcome("mirror"); }
// scaling of a linear system by powers of two, re-initialization at the end of every step
static void scaling(const Sys& s,bool herm,int k,double acc) { V x0=s.start(k,0); for(int p=-60;p<=60;p+=20) { double f=ldexp(1.,p); std::unique_ptr<BaseOdeSolver> a(mk(s,herm,acc,0)),b(mk(s,herm,acc,0)); V y0=x0; if(s.linear) for(double& v: y0) v*=f; else f=1; a->init(&x0[0],0); b->init(&y0[0],0);
        for(int n=0;n<30;n++) { double d=a->doStep(),e=b->doStep(); V x=sol(*a,a->getTime()),y=sol(*b,b->getTime()); for(double& v: y) v/=f; S.transitions++; if(!check(d==e&&x==y,"state multiplied by 2^%d: step %.17g instead of %.17g, state differs by %g",f==1?0:p,e,d,dist(x,y))) break; if(!herm||1) { V q=sol(*b,b->getTime()); b->init(&q[0]); check(sol(*b,b->getTime())==q,"state after reinitialization"); } } } outcome("scaling"); }
// all sequences of steps
static void sequences(const Sys& s,bool herm,double acc,double h,int depth) { double tol=herm?3e-3:depth>4?1e-5:3e-7; V x0=s.start(0,0.2); std::vector<int> st(depth); int N=1; for(int i=0;i<depth;i++) N*=6;
    for(int c=0;c<N;c++) { std::unique_ptr<BaseOdeSolver> o(mk(s,herm,acc,0)); o->init(&x0[0],0.2); int q=c; std::string hist; double t=0.2; for(int i=0;i<depth;i++,q/=6) { static const double D[]={1,0.5,-1,-0.25,+0.0,-0.0}; double d=D[q%6], dt=d? d*h: d, got=o->doStep(dt); if(d) { check(got==dt,"step %g instead of %g",got,dt); } else check(got!=0&&std::signbit(got)==std::signbit(d),"automatic step %g",got); t+=got; hist+=fmt(" %g",d); S.transitions++;
            check(fabs(o->getTime()-t)<1e-15,"time"); if(fabs(t)>1.2) break; V x=sol(*o,o->getTime()),f=s.flow(x0,0.2,o->getTime()); if(!check(dist(x,f)<=tol*fmax(1,norm(f)),"steps%s: error %g",hist.c_str(),dist(x,f))) return; for(int j=1;j<4;j++) { double tt=t-got*j/4; V w=sol(*o,tt); if(!check(dist(w,s.flow(x0,0.2,tt))<=tol*10*fmax(1,norm(f)),"steps%s: error of interpolation %g",hist.c_str(),dist(w,s.flow(x0,0.2,tt)))) return; } } S.traces++; } outcome("sequence"); }
// order of the method: the error of one step and of interpolation scale as the prescribed power
static void order(const Sys& s,bool herm,int k,double t0,double h) { double e[3],in[3][9]; V x0=s.start(k,t0); for(int i=0;i<3;i++) { double d=h/(1<<i); std::unique_ptr<BaseOdeSolver> o(mk(s,herm,1e-8,0)); o->init(&x0[0],t0); o->doStep(d); e[i]=dist(sol(*o,t0+d),s.flow(x0,t0,t0+d)); for(int j=1;j<8;j++) in[i][j]=dist(sol(*o,t0+d*j/8),s.flow(x0,t0,t0+d*j/8)); S.states++; }
    int p=herm?5:9, pi=herm?5:8; double sc=norm(x0), fl=2e-13*fmax(sc,norm(s.flow(x0,t0,t0+h))); for(int i=0;i<2;i++) { check(e[i+1]<=e[i]*pow(2.,-p+1.3)+fl,"error of one step %g for h=%g, %g for h/2: order is lower than %d",e[i],h/(1<<i),e[i+1],p-1); for(int j=1;j<8;j++) { double m=0; for(int q=1;q<8;q++) m=fmax(m,in[i][q]); check(in[i+1][j]<=m*pow(2.,-pi+1.5)+fl,"error of interpolation %g for h=%g, %g for h/2 at fraction %g",m,h/(1<<i),in[i+1][j],j/8.); } }
    check(e[0]<=(herm?1e-2:1e-7)*sc*fmax(1,h),"error of one step %g",e[0]); outcome(fmt("order %d",p)); }
//---- second-order linear systems: y_i known, x = Q y, A = Q diag(a) Q^T, B = Q diag(b) Q^T
static double a_(int i,double t) { switch(i) { case 0: return -4; case 1: return 4*t*t-2; case 2: return 2/((t+5)*(t+5)); case 3: return -1.0; case 4: return -4.01; default: return 0; } }
static double b_(int i,double) { return i==4? -0.2: 0; }
static void base(int i,int j,double t,double& y,double& d) { switch(i) { case 0: y=j?sin(2*t)/2:cos(2*t); d=j?cos(2*t):-2*sin(2*t); break; case 1: { /* second solution exp(-t^2) * integral exp(2 u^2): by series */ if(!j) { y=exp(-t*t); d=-2*t*y; } else { long double I=0,c=t; for(int k=0;k<200;k++) { I+=c/(2*k+1); c*=2.0L*t*t/(k+1); } y=exp(-t*t)*(double)I; d=-2*t*y+exp(-t*t)*exp(2*t*t); } break; } case 2: y=j?1/(t+5):(t+5)*(t+5); d=j?-1/((t+5)*(t+5)):2*(t+5); break; case 3: y=j?sin(t):cos(t); d=j?cos(t):-sin(t); break;
      case 4: y=exp(-0.1*t)*(j?sin(2*t):cos(2*t)); d=-0.1*y+exp(-0.1*t)*2*(j?cos(2*t):-sin(2*t)); break; default: y=j?t:1; d=j?1:0; } }
template<int N> struct S2: IOde2System { int fam[3]; double Q[3][3]; S2(int f,int mix) { for(int i=0;i<3;i++) fam[i]=(f+i*2)%6; for(int i=0;i<3;i++) for(int j=0;j<3;j++) Q[i][j]=i==j; if(mix&&N>1) { double c=cos(0.7),s=sin(0.7); Q[0][0]=c; Q[0][1]=-s; Q[1][0]=s; Q[1][1]=c; if(N==3) { double c2=cos(-1.2),s2=sin(-1.2); for(int i=0;i<3;i++) { double u=Q[i][1],v=Q[i][2]; Q[i][1]=u*c2+v*s2; Q[i][2]=-u*s2+v*c2; } } } }
    unsigned size() const { return 2*N; } void eval(double t,double a[],double b[]) const { for(int i=0;i<N;i++) for(int j=0;j<N;j++) { a[i*N+j]=b[i*N+j]=0; for(int k=0;k<N;k++) { a[i*N+j]+=Q[i][k]*a_(fam[k],t)*Q[j][k]; b[i*N+j]+=Q[i][k]*b_(fam[k],t)*Q[j][k]; } } }
    void exact(int vec,double t,double* out) const { for(int i=0;i<2*N;i++) out[i]=0; for(int k=0;k<N;k++) { double y0,d0,y1,d1; base(fam[k],0,t,y0,d0); base(fam[k],1,t,y1,d1); double c0=(vec+k)%2?0.5:1,c1=(vec*2+k)%3-0.7,y=c0*y0+c1*y1,d=c0*d0+c1*d1; for(int i=0;i<N;i++) { out[i]+=Q[i][k]*y; out[N+i]+=Q[i][k]*d; } } } };
template<int N> struct Coriolis: IOde2System { double Om,w; Coriolis(double o): Om(o),w(1.3) {} unsigned size() const { return 2*N; } void eval(double,double a[],double b[]) const { std::fill(a,a+N*N,0); std::fill(b,b+N*N,0); for(int i=0;i<N;i++) a[i*N+i]=-w*w+(i<2&&N>1?Om*Om:0); if(N>1) { b[1]=2*Om; b[N]=-2*Om; } }
    void exact(int vec,double t,double* o) const { double c=cos(Om*t),s=sin(Om*t); double p[3],v[3]; for(int i=0;i<N;i++) { double A=1+0.3*i+vec,B=0.5*vec-0.4*i; p[i]=A*cos(w*t)+B*sin(w*t); v[i]=w*(B*cos(w*t)-A*sin(w*t)); } if(N==1) { o[0]=p[0]; o[1]=v[0]; return; } o[0]=p[0]*c+p[1]*s; o[1]=p[1]*c-p[0]*s; o[N]=v[0]*c+v[1]*s+Om*o[1]; o[N+1]=v[1]*c-v[0]*s-Om*o[0]; if(N==3) { o[2]=p[2]; o[5]=v[2]; } } };
template<int N,class SYS> static void ode2(const SYS& s,bool g4,double t0,const V& steps,int K,double C) {
    std::unique_ptr<BaseOde2Solver> o; if(g4) o.reset(new Ode2SolverGL4<N>(s,K)); else o.reset(new Ode2SolverGL3<N>(s,K)); V x(2*N*K); double ex[6],sc=0; for(int v=0;v<K;v++) s.exact(v,t0,&x[v*2*N]); o->init(&x[0],t0); double t=t0; for(size_t i=0;i<x.size();i++) { check(o->getSol(t0,i)==x[i],"state after init"); sc=fmax(sc,fabs(x[i])); }
    std::vector<std::unique_ptr<BaseOde2Solver>> one(K); for(int v=0;v<K;v++) { if(g4) one[v].reset(new Ode2SolverGL4<N>(s,1)); else one[v].reset(new Ode2SolverGL3<N>(s,1)); one[v]->init(&x[v*2*N],t0); }
    double tol=1e-14*sc; for(size_t n=0;n<steps.size();n++) { double h=steps[n]; V prev=x; o->doStep(h); for(int v=0;v<K;v++) one[v]->doStep(h); S.transitions++; double tb=t; t+=h; double hh=fabs(h)*3; tol+=C*sc*(pow(hh,g4?9:7)*1e-3+3e-15)+(n==0?C*sc*pow(hh,8)*1e-3:0); if(!g4) tol+=C*sc*pow(hh,7)*1e-2; 
        for(int v=0;v<K;v++) { s.exact(v,t,ex); for(int i=0;i<2*N;i++) { sc=fmax(sc,fabs(ex[i])); double g=o->getSol(t,v*2*N+i); x[v*2*N+i]=g; if(!check(fabs(g-ex[i])<=tol,"step %d of %g: vector %d component %d is %.15g instead of %.15g (error %g, tolerance %g)",(int)n,h,v,i,g,ex[i],g-ex[i],tol)) return; worst[0]=fmax(worst[0],fabs(g-ex[i])/tol); double w=one[v]->getSol(t,i); check(w==g,"vector %d integrated alone differs by %g",v,w-g); } }
        for(size_t i=0;i<x.size();i++) { double g=o->getSol(tb,i); check(fabs(g-prev[i])<=2e-14*sc*fmax(1,1),"interpolation at the beginning of the step %d differs by %g",(int)n,g-prev[i]); }
        for(int j=1;j<8;j++) { double tt=t-h*j/8; S.states++; for(int v=0;v<K;v++) { s.exact(v,tt,ex); for(int i=0;i<2*N;i++) { double g=o->getSol(tt,v*2*N+i), it=tol+C*sc*0.1*pow(hh,(g4?7:6)-(i>=N)); if(!check(fabs(g-ex[i])<=it,"fraction %g of step %d: component %d is %.15g instead of %.15g (error %g, tolerance %g)",1-j/8.,(int)n,i,g,ex[i],g-ex[i],it)) return; } } } }
    bool th=false; try { o->getSol(t,2*N*K); } catch(std::exception&) { th=true; } check(th,"index out of range"); check(o->size()==(unsigned)2*N*K,"size"); outcome(fmt("ode2 %d %d %d",N,g4,K)); }
template<int N> static void part2() {
    for(int f=0;f<6;f++) for(int mix=0;mix<2;mix++) for(int g4=0;g4<2;g4++) for(int K=1;K<=3;K++) for(int it=0;it<3;it++) { if(!begin(fmt("ode2 N=%d family=%d mix=%d stages=%d vectors=%d t0=%d",N,f,mix,3+g4,K,it))) continue; S2<N> s(f,mix); double t0=it==0?0:it==1?0.7:-1.1;
        // fixed steps of all sizes in both directions, all sequences of steps of different sizes
        for(int q=1;q<=6;q++) for(int d=-1;d<=1;d+=2) ode2<N>(s,g4,t0,V(8,d*0.2/(1<<(q-1))),K,3e2);
        int L=thorough()?5:4,M=1; for(int i=0;i<L;i++) M*=4; for(int c=0;c<M;c++) { V st; int q=c; for(int i=0;i<L;i++,q/=4) { static const double D[]={0.1,0.03,-0.1,-0.05}; st.push_back(D[q%4]); } ode2<N>(s,g4,t0,st,K,3e2); S.traces++; } }
    for(int io=0;io<3;io++) for(int g4=0;g4<2;g4++) for(int K=1;K<=6;K++) { if(!begin(fmt("coriolis N=%d %d stages=%d vectors=%d",N,io,3+g4,K))) continue; Coriolis<N> s(io==0?0:io==1?0.5:-1.4); for(int q=1;q<=6;q++) for(int d=-1;d<=1;d+=2) ode2<N>(s,g4,0.3,V(8,d*0.2/(1<<(q-1))),K,3e2); } 
    for(int g4=0;g4<2;g4++) if(begin(fmt("ode2 bad N=%d %d",N,g4))) { S2<N> s(0,0); S2<N%3+1> w(0,0); int th=0; try { if(g4) Ode2SolverGL4<N> a(w,1); else Ode2SolverGL3<N> a(w,1); } catch(std::exception&) { th++; } try { if(g4) Ode2SolverGL4<N> a(s,0); else Ode2SolverGL3<N> a(s,0); } catch(std::exception&) { th++; } check(th==2,"invalid parameters accepted"); } }
int main(int argc,char** argv) { init(argc,argv);
    SY.emplace_back(new Expo(-1)); SY.emplace_back(new Expo(0.5)); SY.emplace_back(new Osc(1)); SY.emplace_back(new Osc(2.7)); SY.emplace_back(new Rat()); SY.emplace_back(new Quad()); for(int p=0;p<=10;p++) SY.emplace_back(new Poly(p)); SY.emplace_back(new Stiff(3)); SY.emplace_back(new Stiff(40)); static const double E[]={0,0.3,0.7,0.9}; for(int i=0;i<4;i++) SY.emplace_back(new Kepler(E[i])); SY.emplace_back(new Lin3()); SY.emplace_back(new Const());
    static const double ACC[]={1e-3,1e-5,1e-6,1e-8,1e-10,1e-12}, T0[]={0,1.3,-2};
    for(size_t i=0;i<SY.size();i++) { const Sys& s=*SY[i]; for(int herm=0;herm<=s.herm;herm++) {
        for(int k=0;k<2;k++) for(int it=0;it<3;it++) for(int dir=-1;dir<=1;dir+=2) for(int ia=0;ia<6;ia++) for(int ab=0;ab<2;ab++) { if(herm&&(ab||ia>3)) continue; if(it==0&&i>=4&&i<19&&i!=5) continue; // vanishing derivatives at the start
            if(begin(fmt("system %d %s hermite=%d start=%d t0=%g dir=%d acc=%g abs=%d",(int)i,s.name,herm,k,T0[it],dir,ACC[ia],ab))) { adaptive(s,herm,k,T0[it],dir,ACC[ia],ab?ACC[ia]*1e-2:0); mirror(s,herm,k,T0[it],dir,ACC[ia],ab?ACC[ia]*1e-2:0); } }
        for(int k=0;k<2;k++) for(int ia=0;ia<6;ia++) { if(begin(fmt("scaling %d %s hermite=%d start=%d acc=%g",(int)i,s.name,herm,k,ACC[ia]))) scaling(s,herm,k,ACC[ia]); }
        if(strcmp(s.name,"relaxation")||i<18) for(int q=0;q<2;q++) if(begin(fmt("sequences %d %s hermite=%d h=%d",(int)i,s.name,herm,q))) sequences(s,herm,1e-8,(q?0.05:0.12)*(!strcmp(s.name,"kepler")?(1-dynamic_cast<const Kepler&>(s).e)*0.6:1),thorough()?6:4);
        for(int k=0;k<2;k++) for(int it=0;it<3;it++) for(int q=0;q<4;q++) if(begin(fmt("order %d %s hermite=%d start=%d t0=%g h=%d",(int)i,s.name,herm,k,T0[it],q))) order(s,herm,k,T0[it],(q&1?-1:1)*(q&2?0.1:0.25)*(!strcmp(s.name,"kepler")?pow(1-dynamic_cast<const Kepler&>(s).e,1.5)*(herm?0.4:1):!strcmp(s.name,"relaxation")&&i==18?0.05:1)); } }
    part2<1>(); part2<2>(); part2<3>();
    S.extra["worst_dop853"]=worst[0]; S.extra["worst_hermite"]=worst[1]; S.extra["worst_dense"]=worst[2]; return finish(); }
