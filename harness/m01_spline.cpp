// M01: splines of every kind on all grids/data from small alphabets; the conditions that define each spline are checked on exact
// per-segment polynomials extracted from its values, and everything else (derivatives, integrals, convolutions, extrema, roots) against these polynomials.
#include "vh.h"
#include "math_spline.h"
#include "math_core.h"
#include <algorithm>
#include <memory>
using namespace math; using namespace vh;
static double pw_(double a, double b) { return std::pow(a,b); }
typedef std::vector<double> V; typedef long double LD; typedef std::vector<LD> P;
static std::string sv(const V& v) { std::string s="("; for(size_t i=0;i<v.size();i++) s+=fmt(i?",%.6g":"%.6g",v[i]); return s+")"; }
static LD ev(const P& p, LD t, int d=0) { LD r=0; for(int k=(int)p.size()-1;k>=d;k--) { LD f=1; for(int j=0;j<d;j++) f*=k-j; r=r*t+p[k]*f; } return r; }
// polynomial in t=(x-x0)/h through n+1 Chebyshev points
static P fitpoly(const std::vector<LD>& t, const std::vector<LD>& y) { int n=t.size(); std::vector<LD> c=y; for(int k=1;k<n;k++) for(int i=n-1;i>=k;i--) c[i]=(c[i]-c[i-1])/(t[i]-t[i-k]);
    P p(n,0.L); for(int k=n-1;k>=0;k--) { for(int i=n-1;i>0;i--) p[i]=p[i-1]-t[k]*p[i]; p[0]=-t[k]*p[0]; p[0]+=c[k]; } return p; }
struct PP { V x; std::vector<P> p; double scale; double h(int s) const { return x[s+1]-x[s]; }
    LD val(LD xx,int d=0) const { int s=0; while(s+2<(int)x.size()&&xx>=x[s+1]) s++; return at(s,xx,d); }
    LD at(int s, LD xx,int d) const { LD H=h(s); return ev(p[s],(xx-x[s])/H,d)/powl(H,d); }
    // integral of x^n S over [a,b] (zero outside the grid)
    LD integ(LD a,LD b,int n) const { if(a>b) return -integ(b,a,n); LD r=0; for(size_t s=0;s+1<x.size();s++) { LD l=std::max<LD>(a,x[s]),u=std::min<LD>(b,x[s+1]); if(l>=u) continue; r+=gl(s,l,u,n,NULL); } return r; }
    LD gl(int s,LD l,LD u,int n,const P* q) const { // 8-point Gauss-Legendre is exact to degree 15
        static const LD X[4]={0.1834346424956498049394761L,0.5255324099163289858177390L,0.7966664774136267395915539L,0.9602898564975362316835609L}, W[4]={0.3626837833783619829651504L,0.3137066458778872873379622L,0.2223810344533744705443560L,0.1012285362903762591525314L};
        LD r=0,m=(l+u)/2,d=(u-l)/2; for(int i=0;i<4;i++) for(int sg=-1;sg<=1;sg+=2) { LD xx=m+sg*d*X[i]; r+=W[i]*at(s,xx,0)*(q?ev(*q,xx):1)*powl(xx,n); } return r*d; } };
template<class S1> static PP extract(const S1& s, const V& x, int deg) { PP r; r.x=x; r.scale=1; for(size_t k=0;k+1<x.size();k++) { std::vector<LD> t,y; for(int i=0;i<=deg;i++) { double xx=x[k]+(x[k+1]-x[k])*(0.5-0.4999*cos(M_PI*(i+.5)/(deg+1))); double v; s.evalDeriv(xx,&v,NULL,NULL,NULL); t.push_back(((LD)xx-x[k])/((LD)x[k+1]-x[k])); y.push_back(v); r.scale=fmax(r.scale,fabs(v)); } r.p.push_back(fitpoly(t,y)); } return r; }
struct PolyF: public IFunctionIntegral { P c; PolyF(const P& _c): c(_c) {} double integrate(double a,double b,int n) const { LD r=0; for(size_t k=0;k<c.size();k++) r+=c[k]*(powl(b,k+n+1)-powl(a,k+n+1))/(k+n+1); return (double)r; } };
static P shiftpoly(const P& c, LD x) { // K(x-y) as polynomial of y
    P r(c.size(),0.L); for(size_t k=0;k<c.size();k++) { P b(1,1.L); for(size_t j=0;j<k;j++) { P q(b.size()+1,0.L); for(size_t i=0;i<b.size();i++) { q[i]+=b[i]*x; q[i+1]-=b[i]; } b=q; } for(size_t i=0;i<b.size();i++) r[i]+=c[k]*b[i]; } return r; }
// checks valid for any one-dimensional piecewise polynomial of a given degree
struct Opt { int deg, cont; bool extrap; };
static PP generic1d(const BaseInterpolator1d& s, const V& x, const Opt& o, const char* nm) {
    int n=x.size(); PP pp=extract(s,x,o.deg); double sc=pp.scale; V hs(n-1); for(int k=0;k<n-1;k++) hs[k]=x[k+1]-x[k];
    check(!s.empty()&&s.xmin()==x[0]&&s.xmax()==x[n-1]&&s.xvalues()==x,"%s: grid is not reported",nm);
    for(int k=0;k<n-1;k++) for(int q=0;q<=8;q++) { // all four outputs in the segment; q==8: right end of the last segment only
        double xx= q==8?x[k+1]:x[k]+hs[k]*q/8.; if(q==8&&k<n-2) continue; double v,d,d2,d3; s.evalDeriv(xx,&v,&d,&d2,&d3);
        double e=1e-12*sc; LD w[4]; for(int j=0;j<4;j++) w[j]=pp.at(k,xx,j); double h=hs[k];
        check(fabsl(v-w[0])<=e*10&&fabsl(d-w[1])<=e*100/h&&fabsl(d2-w[2])<=e*1000/h/h&&fabsl(d3-w[3])<=e*1e4/h/h/h,"%s: at x=%.10g value,1-3 derivatives %.12g %.12g %.12g %.12g, but its values imply %.12Lg %.12Lg %.12Lg %.12Lg",nm,xx,v,d,d2,d3,w[0],w[1],w[2],w[3]);
        double v1,d1,dd1,ddd1; s.evalDeriv(xx,&v1,NULL,NULL,NULL); check(v1==v,"value depends on outputs"); s.evalDeriv(xx,NULL,&d1,NULL,NULL); s.evalDeriv(xx,NULL,NULL,&dd1,NULL); s.evalDeriv(xx,NULL,NULL,NULL,&ddd1); check(d1==d&&dd1==d2&&ddd1==d3,"%s: derivatives depend on which outputs are requested at x=%g",nm,xx);
        check(s.value(xx)==v,"value()"); }
    for(int k=0;k<n-2;k++) for(int j=0;j<=o.cont;j++) { LD a=pp.at(k,x[k+1],j),b=pp.at(k+1,x[k+1],j); double e=1e-11*sc*pw_(30,j)*(pw_(hs[k],-j)+pw_(hs[k+1],-j)); check(fabsl(a-b)<=e,"%s: derivative of order %d jumps at x=%g from %.12Lg to %.12Lg",nm,j,x[k+1],a,b); }
    for(int side=0;side<2;side++) { double xb=side?x[n-1]:x[0], vb,db; s.evalDeriv(xb,&vb,&db,NULL,NULL); for(int q=0;q<3;q++) { double dx=(side?1:-1)*(q==0?1e-6:q==1?.5:10.), v,d,d2,d3; s.evalDeriv(xb+dx,&v,&d,&d2,&d3);
        if(o.extrap) check(vh::close(v,vb+db*((xb+dx)-xb),1e-12,1e-12*sc)&&vh::close(d,db,1e-12,1e-12*sc/fmin(hs[0],hs[n-2]))&&d2==0&&d3==0,"%s: outside the grid at %g: %g %g %g %g, boundary value %g derivative %g",nm,xb+dx,v,d,d2,d3,vb,db); else check(v!=v&&d!=d,"%s: outside the grid not NaN",nm); } }
    // integrals
    V pts; pts.push_back(x[0]-1); for(int k=0;k<n;k++) { pts.push_back(x[k]); if(k<n-1&&(k==0||k==n-2)) pts.push_back(x[k]+.3*hs[k]); } pts.push_back(x[n-1]+2);
    for(int k=0;k+1<n&&n>2;k++) { P od; od.push_back(-.5L*((LD)x[k]+x[k+1])); od.push_back(1); PolyF O(od); LD w=0; for(int j=0;j<n-1;j++) w+=pp.gl(j,x[j],x[j+1],0,&od); double v=s.integrate(x[0],x[n-1],O); check(fabsl(v-w)<=1e-11*sc*(x[n-1]-x[0])*(2+pw_(fmax(fabs(x[0]),fabs(x[n-1])),1))*(1+pw_(fmax(fabs(x[0]),fabs(x[n-1]))/ *std::min_element(hs.begin(),hs.end()),o.deg)),"%s: integral with an odd function about segment %d is %.12g, exact %.12Lg",nm,k,v,w); }
    P q3; q3.push_back(1.5L); q3.push_back(-.5L); q3.push_back(.25L); PolyF F(q3);
    double xm=fmax(fabs(pts[0]),fabs(pts.back())), range=pts.back()-pts[0];
    for(size_t i=0;i<pts.size();i++) for(size_t j=0;j<pts.size();j++) { for(int m=0;m<=3;m++) { LD w=pp.integ(pts[i],pts[j],m); double v=s.integrate(pts[i],pts[j],m); check(fabsl(v-w)<=1e-11*sc*range*pw_(xm,m)*(1+pw_(xm/ *std::min_element(hs.begin(),hs.end()),o.deg)*1e-3),"%s: integral of x^%d over (%g,%g) is %.12g, exact %.12Lg",nm,m,pts[i],pts[j],v,w); }
        double a=pts[i],b=pts[j]; double sg=1; if(a>b) {std::swap(a,b);sg=-1;} LD w=0; for(int k=0;k<n-1;k++) { LD l=std::max<LD>(a,x[k]),u=std::min<LD>(b,x[k+1]); if(l<u) w+=pp.gl(k,l,u,0,&q3); } double v=s.integrate(pts[i],pts[j],F); 
        check(fabsl(v-sg*w)<=1e-11*sc*range*(2+xm*xm)*(1+pw_(xm/ *std::min_element(hs.begin(),hs.end()),o.deg)),"%s: integral with a polynomial over (%g,%g) is %.12g, exact %.12Lg",nm,pts[i],pts[j],v,sg*w); }
    for(size_t i=0;i<pts.size();i++) { P k=shiftpoly(q3,pts[i]); LD w=0; for(int j=0;j<n-1;j++) w+=pp.gl(j,x[j],x[j+1],0,&k); double v=s.convolve(pts[i],F); check(fabsl(v-w)<=1e-11*sc*range*(2+4*xm*xm)*(1+pw_(2*xm/ *std::min_element(hs.begin(),hs.end()),o.deg)),"%s: convolution at %g is %.12g, exact %.12Lg",nm,pts[i],v,w); }
    return pp;
}
// roots and extrema: every sign change seen on a fine subdivision is reported in the right bracket; everything reported is real
static void rootsExtrema(const BaseInterpolator1d& s, const PP& pp, const char* nm, bool smooth) {
    const V& x=pp.x; int n=x.size(); double sc=pp.scale; V lev; lev.push_back(0); lev.push_back(.37); lev.push_back(s.value(x[n/2]));
    for(int w=0;w<(n>2?5:3);w++) { double a= w==4?x[1]:w==0||w==3?NAN:w==1?x[0]-1:x[0]+.25*(x[1]-x[0]), b= w==3?x[n-2]:w==0||w==4?NAN:w==1?x[n-1]+1:x[n-1]-.3*(x[n-1]-x[n-2]); double lo= w==2||w==4?a:x[0], hi= w==2||w==3?b:x[n-1];
      for(size_t il=0;il<=lev.size();il++) { bool ex=il==lev.size(); double y=ex?0:lev[il]; V r=ex?s.extrema(a,b):s.roots(y,a,b);
        for(size_t k=0;k<r.size();k++) { check((k==0||r[k]>r[k-1])&&r[k]>=lo&&r[k]<=hi,"%s: %s(%g; %g,%g) = %s not sorted or out of range",nm,ex?"extrema":"roots",y,a,b,sv(r).c_str());
            if(!ex) { double v=s.value(r[k]); double d; s.evalDeriv(r[k],NULL,&d,NULL,NULL); check(fabs(v-y)<=1e-9*sc+4e-16*fabs(d*r[k]),"%s: root %.12g of level %g has value %.12g",nm,r[k],y,v); }
            else if(r[k]!=lo&&r[k]!=hi) { bool ok=false; LD e=1e-5*(hi-lo); LD f0=pp.val(r[k]), fl=pp.val(std::max<LD>(lo,r[k]-1e-4*pp.h(0)*0-e)), fr=pp.val(std::min<LD>(hi,r[k]+e)); (void)fl;(void)fr; double d=0; s.evalDeriv(r[k],NULL,&d,NULL,NULL); int seg=0; while(seg+2<n&&r[k]>=x[seg+1]) seg++; double tol=1e-6*sc/pp.h(seg); bool node=false; for(int i=0;i<n;i++) node|=r[k]==x[i]; ok=fabs(d)<=tol||node; (void)f0; check(ok,"%s: reported extremum %.12g has derivative %g",nm,r[k],d); } }
        if(ex) { bool ok=r.size()&&r[0]==lo; if(ok&&hi-r.back()>1e-10*(hi-lo)) for(int i=0;i<=20;i++) ok&=fabs(s.value(fmin(hi,r.back()+(hi-r.back())*i/20))-s.value(hi))<=1e-12*sc; check(ok,"%s: extrema %s do not include the ends of (%g,%g)",nm,sv(r).c_str(),lo,hi); }
        // bracketing scan within each segment
        for(int k=0;k<n-1;k++) { int M=40; LD l=std::max<LD>(lo,x[k]),u=std::min<LD>(hi,x[k+1]); if(l>=u) continue; LD pf=0,px=0; bool have=false; 
            for(int i=0;i<=M;i++) { LD xx=l+(u-l)*i/M, f= ex?pp.at(k,xx,1):pp.at(k,xx,0)-y; double thr= ex?1e-8*sc/pp.h(k):1e-9*sc; if(fabsl(f)<thr) { have=false; continue; } if(have&&(f>0)!=(pf>0)) { bool found=false; for(size_t j=0;j<r.size();j++) found|= r[j]>=px-1e-9*(hi-lo)&&r[j]<=xx+1e-9*(hi-lo); check(found,"%s: %s(%g; %g,%g)=%s misses the one between %.9Lg and %.9Lg",nm,ex?"extrema":"roots",y,a,b,sv(r).c_str(),px,xx); } pf=f; px=xx; have=true; } }
        outcome(fmt("%s%d%zu",ex?"ext":"root",smooth,r.size())); } }
}
static const double spc[3]={1,3,0.05}; static const double vals[4]={0,1,-2,1.5};
static V mkgrid(int code,int nseg,double x0) { V x(1,x0); for(int i=0;i<nseg;i++) { x.push_back(x.back()+spc[code%3]); code/=3; } return x; }
static V mkval(int code,int n,int base=3) { V f; for(int i=0;i<n;i++) { f.push_back(vals[code%base]); code/=base; } return f; }
static double nodeTol(const V& f) { double s=1; for(size_t i=0;i<f.size();i++) s=fmax(s,fabs(f[i])); return 1e-13*s; }
static void nodes(const BaseInterpolator1d& s, const V& x, const V& f, const V* d, const V* d2, const char* nm) { for(size_t i=0;i<x.size();i++) { double v,a,b; s.evalDeriv(x[i],&v,&a,&b,NULL); check(fabs(v-f[i])<=nodeTol(f),"%s: node %zu has value %.15g, not %g",nm,i,v,f[i]); double h=1e9; if(i) h=fmin(h,x[i]-x[i-1]); if(i+1<x.size()) h=fmin(h,x[i+1]-x[i]); if(d) check(vh::close(a,(*d)[i],1e-11,1e-12/h),"%s: node %zu has derivative %.15g, not %g",nm,i,a,(*d)[i]); if(d2) check(vh::close(b,(*d2)[i],1e-10,1e-10/h/h),"%s: node %zu has second derivative %.15g, not %g",nm,i,b,(*d2)[i]); } }
static void bc(const PP& pp, bool right, int order, double want, const char* nm) { int k=right?pp.x.size()-2:0; LD v=pp.at(k,right?pp.x.back():pp.x[0],order); double h=pp.h(k); check(fabsl(v-want)<=2e-11*pw_(30,order-1)*pp.scale*pw_(h,-order)+1e-12*fabs(want),"%s: derivative of order %d at the %s boundary is %.12Lg, not %g",nm,order,right?"right":"left",v,want); }
static void monotone(const PP& pp, const V& f, const char* nm, bool whole) { int n=f.size(); const V& x=pp.x; 
    bool up=true,dn=true; for(int i=0;i+1<n;i++) { up&=f[i+1]>=f[i]; dn&=f[i+1]<=f[i]; }
    for(int k=0;k<n-1;k++) { bool u=f[k+1]>f[k], d=f[k+1]<f[k]; bool inner= k>0&&k<n-2 && ((u&&f[k]>f[k-1]&&f[k+2]>f[k+1])||(d&&f[k]<f[k-1]&&f[k+2]<f[k+1])); if(!(inner||((whole)&&(up||dn)))) continue; 
        double lim=1e-10*pp.scale; for(int i=0;i<60;i++) { LD a=pp.at(k,x[k]+pp.h(k)*i/60.L,0),b=pp.at(k,x[k]+pp.h(k)*(i+1)/60.L,0); bool bad= (u||(!d&&up))? b<a-lim : b>a+lim; if(!u&&!d) bad=fabsl(b-a)>lim; if(bad) { check(false,"%s: not monotonic in segment %d of data %s on %s",nm,k,sv(f).c_str(),sv(x).c_str()); break; } } check(true,""); } }
static void one() {
    int mx=thorough()?5:4;
    for(int nseg=1;nseg<=mx;nseg++) { int ng=pw_(3,nseg)+.5, nv=pw_(3,nseg+1)+.5;
      for(int g=0;g<ng;g++) for(int part=0;part<(nv+26)/27;part++) { if(!begin(fmt("spline1d segments=%d grid=%d values from %d",nseg,g,part*27))) continue;
        V x=mkgrid(g,nseg,-1.25); int n=nseg+1; if(part%2==g%2) x=mkgrid(g,nseg,-.5*(x[n-1]-x[0]));
        for(int v=part*27;v<std::min(nv,part*27+27);v++) { if(nseg==(thorough()?5:4)&&(v+g)%3) continue; V f=mkval(v,n), d(n),d2(n); for(int i=0;i<n;i++) { d[i]=((i*5+v)%7)-3; d2[i]=((i*3+v)%5)-2; }
            std::string id=fmt("f=%s x=%s",sv(f).c_str(),sv(x).c_str()); std::string t;
            { LinearInterpolator s(x,f); t="linear "+id; nodes(s,x,f,NULL,NULL,t.c_str()); PP pp=generic1d(s,x,{1,0,true},t.c_str()); rootsExtrema(s,pp,t.c_str(),false); }
            for(int b=0;b<4;b++) { double dl=b&1?1.5:NAN, dr=b&2?-2.:NAN; t=fmt("cubic(%g,%g) ",dl,dr)+id; CubicSpline s(x,f,false,dl,dr); nodes(s,x,f,NULL,NULL,t.c_str()); PP pp=generic1d(s,x,{3,2,true},t.c_str()); bc(pp,false,b&1?1:2,b&1?dl:0,t.c_str()); bc(pp,true,b&2?1:2,b&2?dr:0,t.c_str()); if(b==0||b==3) rootsExtrema(s,pp,t.c_str(),true);
                t=fmt("quintic(%g,%g) ",dl,dr)+id; QuinticSpline q(x,f,dl,dr); nodes(q,x,f,NULL,NULL,t.c_str()); PP pq=generic1d(q,x,{5,4,true},t.c_str()); bc(pq,false,b&1?1:2,b&1?dl:0,t.c_str()); bc(pq,true,b&2?1:2,b&2?dr:0,t.c_str()); bc(pq,false,4,0,t.c_str()); bc(pq,true,4,0,t.c_str()); if(b==0) rootsExtrema(q,pq,t.c_str(),true); }
            { CubicSpline s(x,f,true); t="regularized "+id; nodes(s,x,f,NULL,NULL,t.c_str()); PP pp=generic1d(s,x,{3,1,true},t.c_str()); monotone(pp,f,t.c_str(),true); rootsExtrema(s,pp,t.c_str(),true); 
              V fm(n); double acc=0; for(int i=0;i<n;i++) { acc+=fabs(f[i])*(i%2?1:.001); fm[i]=v%2?acc:-acc; } CubicSpline sm(x,fm,true); PP pm=extract(sm,x,3); monotone(pm,fm,"regularized monotonic",true); nodes(sm,x,fm,NULL,NULL,"regularized monotonic"); }
            { CubicSpline s(x,f,d); t="hermite3 "+id; nodes(s,x,f,&d,NULL,t.c_str()); generic1d(s,x,{3,1,true},t.c_str()); }
            { QuinticSpline s(x,f,d); t="quintic+deriv "+id; nodes(s,x,f,&d,NULL,t.c_str()); PP pp=generic1d(s,x,{5,3,true},t.c_str()); bc(pp,false,4,0,t.c_str()); bc(pp,true,4,0,t.c_str()); }
            { QuinticSpline s(x,f,d,d2); t="hermite5 "+id; nodes(s,x,f,&d,&d2,t.c_str()); PP pp=generic1d(s,x,{5,2,true},t.c_str()); rootsExtrema(s,pp,t.c_str(),true); }
            S.states++; }
        outcome(fmt("seg%d",nseg)); } }
}
// ---- B-splines
template<int N> static void bspl() {
    int mx=thorough()?5:4;
    for(int nseg=1;nseg<=mx;nseg++) { int ng=pw_(3,nseg)+.5; for(int g=0;g<ng;g++) { if(!begin(fmt("bspline N=%d segments=%d grid=%d",N,nseg,g))) continue;
        V x=mkgrid(g,nseg,-.75); int nc=nseg+N; BsplineInterpolator1d<N> B(x); check((int)B.numValues()==nc&&B.xmin()==x[0]&&B.xmax()==x.back(),"number of components"); FiniteElement1d<N> FE(B);
        double hmin=*std::min_element(spc,spc+3); (void)hmin;
        // each basis function
        std::vector<PP> bas; for(int c=0;c<nc;c++) { V a(nc,0.); a[c]=1; BsplineWrapper<N> w(x,a); std::string t=fmt("basis function %d",c); PP pp=generic1d(w,x,{N,N-1,false},t.c_str()); bas.push_back(pp);
            int nz=0; for(int k=0;k<nseg;k++) { LD m=0; for(int i=0;i<=20;i++) { LD v=pp.at(k,x[k]+pp.h(k)*i/20.L,0); if(v< -1e-12) check(false,"%s: negative",t.c_str()); m=std::max(m,v); } nz+=m>1e-12; bool in= k>=c-N&&k<=c; check(in==(m>1e-12),"%s: support includes segment %d: %d",t.c_str(),k,!in); }
            if(N>=1) { V da=B.deriv(a); check((int)da.size()==nc-1,"deriv size"); BsplineInterpolator1d<(N>0?N-1:0)> Bd(x); for(int k=0;k<nseg;k++) for(int i=0;i<4;i++) { double xx=x[k]+pp.h(k)*(i+.5)/4; check(fabs(Bd.interpolate(xx,da)-(double)pp.at(k,xx,1))<1e-10/pp.h(k),"%s: deriv() representation at %g",t.c_str(),xx); } }
            if(N<3) { V ia=B.antideriv(a); check((int)ia.size()==nc+1&&ia[0]==0,"antideriv size"); BsplineInterpolator1d<(N<3?N+1:3)> Bi(x); for(int k=0;k<nseg;k++) for(int i=0;i<4;i++) { double xx=x[k]+pp.h(k)*(i+.5)/4; check(fabs(Bi.interpolate(xx,ia)-(double)pp.integ(x[0],xx,0))<1e-11*(x.back()-x[0]),"%s: antideriv() representation at %g",t.c_str(),xx); } } }
        for(int k=0;k<nseg;k++) for(int i=0;i<=4;i++) { double xx=x[k]+(x[k+1]-x[k])*i/4.; V e(nc,-7.),ad(nc,.5); B.eval(&xx,&e[0]); B.addPoint(&xx,2.,&ad[0]); double sum=0; for(int c=0;c<nc;c++) { sum+=e[c]; check(fabsl(e[c]-bas[c].val(xx))<1e-11,"eval(%g) component %d: %g",xx,c,e[c]); check(fabs(ad[c]-.5-2*e[c])<1e-14,"addPoint"); } check(fabs(sum-1)<1e-13,"sum of basis functions is %.15g at %g",sum,xx);
            for(int d=0;d<=N;d++) { double nzv[N+1]; unsigned l=B.nonzeroComponents(xx,d,nzv); bool ok=l+N<(unsigned)nc; for(int c=0;c<nc&&ok;c++) { double w=(c>=(int)l&&c<=(int)l+N)?nzv[c-l]:0; LD r=bas[c].val(xx,d); double h=x[k+1]-x[k]; if(i==4&&k<nseg-1) continue; if(fabsl(r-w)>1e-10*pw_(20/h,d)) { ok=false; } } check(ok,"nonzeroComponents(%g, deriv %d)",xx,d); } }
        for(int sd=0;sd<2;sd++) { double xx=sd?x.back()+.1:x[0]-.1; V e(nc,-7.); B.eval(&xx,&e[0]); for(int c=0;c<nc;c++) check(e[c]==0,"nonzero value outside the grid"); V a(nc,1.); check(B.interpolate(xx,a)==0,"interpolate outside the grid is not zero"); }
        { bool t=false; V a(nc+1,1.); try{ B.interpolate(x[0],a);}catch(std::length_error&){t=true;} check(t,"wrong number of amplitudes accepted"); }
        // combinations: values, roots; equivalence with cubic splines
        for(int v=0;v<9;v++) { V a(nc); for(int c=0;c<nc;c++) a[c]=vals[(v+c*(v+1)+c*c)%4]; BsplineWrapper<N> w(x,a); std::string t="amplitudes "+sv(a); PP pp=generic1d(w,x,{N,N-1,false},t.c_str()); if(N>=1) rootsExtrema(w,pp,t.c_str(),false);
            for(int k=0;k<nseg;k++) { double xx=x[k]+.37*(x[k+1]-x[k]); LD s=0; for(int c=0;c<nc;c++) s+=a[c]*bas[c].at(k,xx,0); check(fabsl(s-w.value(xx))<1e-11,"not a linear combination"); for(int m=0;m<=2;m++) check(vh::close(B.integrate(x[0]-1,xx,a,m),w.integrate(x[0]-1,xx,m),1e-12,1e-12),"integrals of the two classes differ"); }
            if(N>=2) { CubicSpline s(x,a); PP ps=extract(s,x,3); for(int k=0;k<nseg;k++) for(int i=0;i<=4;i++) { double xx=x[k]+pp.h(k)*i/4.; for(int d=0;d<=2;d++) check(fabsl(ps.at(k,xx,d)-pp.at(k,xx,d))<1e-11*pw_(20/pp.h(k),d)*pp.scale,"cubic spline made from B-spline amplitudes differs in derivative %d at %g",d,xx); } } }
        // finite elements: Gram matrices and projections against exact integrals
        for(int p=0;p<=N;p++) for(int q=0;q<=N;q++) for(int wf=0;wf<2;wf++) { V fv; const V& ip=FE.integrPoints(); if(wf) for(size_t i=0;i<ip.size();i++) fv.push_back(1+.5*ip[i]); BandMatrix<double> M=FE.computeProjMatrix(fv,p,q);
            for(int a=0;a<nc;a++) for(int b=0;b<nc;b++) { LD s=0,sc=0; for(int k=0;k<nseg;k++) { LD h=bas[a].h(k); for(int i=0;i<=200;i++) { /* composite Simpson is exact for cubics only; use 8-point Gauss */ break; } static const LD X[4]={0.1834346424956498049394761L,0.5255324099163289858177390L,0.7966664774136267395915539L,0.9602898564975362316835609L}, W[4]={0.3626837833783619829651504L,0.3137066458778872873379622L,0.2223810344533744705443560L,0.1012285362903762591525314L};
                for(int i=0;i<4;i++) for(int sg=-1;sg<=1;sg+=2) { LD xx=x[k]+h*(.5L+sg*.5L*X[i]); s+=W[i]*h/2*bas[a].at(k,xx,p)*bas[b].at(k,xx,q)*(wf?1+.5L*xx:1); } sc=std::max(sc,powl(20/h,p+q)*h); }
                check(fabsl(M.at(a,b)-s)<1e-10*sc,"projection matrix (%d,%d) weight %d element %d,%d is %g, exact %Lg",p,q,wf,a,b,M.at(a,b),s); } }
        for(int m=0;m<=N+1;m++) { const V& ip=FE.integrPoints(); V fv; for(size_t i=0;i<ip.size();i++) fv.push_back(pw_(ip[i],m)); for(int p=0;p<=N;p++) { V pv=FE.computeProjVector(fv,p); for(int a=0;a<nc;a++) { LD s=0,sc=0; for(int k=0;k<nseg;k++) { LD h=bas[a].h(k); static const LD X[4]={0.1834346424956498049394761L,0.5255324099163289858177390L,0.7966664774136267395915539L,0.9602898564975362316835609L}, W[4]={0.3626837833783619829651504L,0.3137066458778872873379622L,0.2223810344533744705443560L,0.1012285362903762591525314L}; for(int i=0;i<4;i++) for(int sg=-1;sg<=1;sg+=2) { LD xx=x[k]+h*(.5L+sg*.5L*X[i]); s+=W[i]*h/2*bas[a].at(k,xx,p)*powl(xx,m); } sc=std::max(sc,powl(20/h,p)*h*powl(12,m)); } check(fabsl(pv[a]-s)<1e-11*sc,"projection of x^%d, deriv %d, element %d: %g, exact %Lg",m,p,a,pv[a],s); } } }
        for(int m=0;m<=N;m++) { struct PF: IFunctionNoDeriv { int m; double value(double xx) const { return std::pow(xx,m); } } F; F.m=m; V a=FE.computeAmplitudes(F); for(int k=0;k<nseg;k++) for(int i=0;i<=4;i++) { double xx=x[k]+(x[k+1]-x[k])*i/4.; check(fabs(B.interpolate(xx,a)-std::pow(xx,m))<1e-9*std::pow(12,m),"polynomial x^%d is not reproduced at %g: %g",m,xx,B.interpolate(xx,a)); } }
        // convolution with a smooth kernel: matrix and point forms agree with direct integration of the basis functions
        { Gaussian K(.7); for(int p=0;p<=N;p++) { for(int i=0;i<3;i++) { double xx=x[0]+(x.back()-x[0])*(.5*i+.1); V acc(nc,.25),acc2(nc,.25); FE.template addPointConv<true>(xx,2.,K,p,&acc[0]); FE.template addPointConv<false>(xx,2.,K,p,&acc2[0]);
            for(int a=0;a<nc;a++) { LD s=0,sc=0; for(int k=0;k<nseg;k++) { LD h=bas[a].h(k); sc=std::max(sc,powl(20/h,p)*h); int M=400; for(int j=0;j<M;j++) for(int sg=-1;sg<=1;sg+=2) { LD y=x[k]+h*(j+.5L+sg*.5L/sqrtl(3))/M; s+=h/M/2*bas[a].at(k,y,p)*expl(-.5L*(xx-y)*(xx-y)/.49L)/(.7L*sqrtl(2*acosl(-1.L))); } } check(fabsl((acc[a]-.25)/2-s)<1e-7*sc,"convolved component %d deriv %d at %g: %g, exact %Lg",a,p,xx,(acc[a]-.25)/2,s); check(fabs(acc[a]-acc2[a])<1e-12*sc,"convolution with an even kernel depends on the sign convention"); } } } 
          if(nseg<=2) { Matrix<double> C=FE.computeConvMatrix(K); const V& ip=FE.integrPoints(); std::vector<V> pj,cv; for(size_t p=0;p<ip.size();p++) { V e(ip.size(),0.),c(nc,0.); e[p]=1; pj.push_back(FE.computeProjVector(e,0)); FE.template addPointConv<true>(ip[p],1.,K,0,&c[0]); cv.push_back(c); } for(int a=0;a<nc;a++) for(int b=0;b<nc;b++) { double w=0,sc=0; for(size_t p=0;p<ip.size();p++) { w+=pj[p][a]*cv[p][b]; sc+=fabs(pj[p][a]*cv[p][b]); } check(fabs(C(a,b)-w)<=1e-11*sc+1e-15,"convolution matrix %d,%d is %g, not %g",a,b,C(a,b),w); } } }
        outcome(fmt("bspl%d%d",N,nseg)); S.states++; } }
}
// ---- 2d
static P linefit(const std::vector<LD>& t,const std::vector<LD>& y){ return fitpoly(t,y); }
// derivative consistency inside each cell via polynomial fits along each axis
template<class S2> static void cells2d(const S2& s,const V& x,const V& y,int deg,double sc,const char* nm) {
    for(size_t i=0;i+1<x.size();i++) for(size_t j=0;j+1<y.size();j++) { double hx=x[i+1]-x[i],hy=y[j+1]-y[j]; 
        for(int a=0;a<3;a++) for(int b=0;b<3;b++) { double xx=x[i]+hx*(a==0?0:a==1?.3:.95), yy=y[j]+hy*(b==0?0:b==1?.6:.95); double v,dx,dy,dxx,dxy,dyy; s.evalDeriv(xx,yy,&v,&dx,&dy,&dxx,&dxy,&dyy);
            std::vector<LD> tx,vx,dyx,ty,vy; for(int k=0;k<=deg;k++) { double u=.5-.499*cos(M_PI*(k+.5)/(deg+1)); double v1,d1; s.evalDeriv(x[i]+hx*u,yy,&v1,NULL,&d1,NULL,NULL,NULL); tx.push_back((x[i]+hx*u-(LD)x[i])/hx); vx.push_back(v1); dyx.push_back(d1); s.evalDeriv(xx,y[j]+hy*u,&v1,NULL,NULL,NULL,NULL,NULL); ty.push_back((y[j]+hy*u-(LD)y[j])/hy); vy.push_back(v1); }
            P px=linefit(tx,vx),pdy=linefit(tx,dyx),py=linefit(ty,vy); LD ux=((LD)xx-x[i])/hx,uy=((LD)yy-y[j])/hy; double e=1e-10*sc;
            check(fabsl(ev(px,ux)-v)<e&&fabsl(ev(px,ux,1)/hx-dx)<e*100/hx&&fabsl(ev(py,uy,1)/hy-dy)<e*100/hy&&fabsl(ev(px,ux,2)/hx/hx-dxx)<e*1e3/hx/hx&&fabsl(ev(py,uy,2)/hy/hy-dyy)<e*1e3/hy/hy&&fabsl(ev(pdy,ux,1)/hx-dxy)<e*1e3/hx/hy,"%s at (%g,%g): value and derivatives %.10g %.10g %.10g %.10g %.10g %.10g inconsistent with values: %.10Lg %.10Lg %.10Lg %.10Lg %.10Lg",nm,xx,yy,v,dx,dy,dxx,dxy,dyy,ev(px,ux,1)/hx,ev(py,uy,1)/hy,ev(px,ux,2)/hx/hx,ev(pdy,ux,1)/hx,ev(py,uy,2)/hy/hy);
            double w; s.evalDeriv(xx,yy,&w); check(w==v,"value depends on outputs"); w=0; s.evalDeriv(xx,yy,NULL,NULL,NULL,NULL,&w,NULL); check(vh::close(w,dxy,1e-12,1e-12*sc/hx/hy),"mixed derivative depends on outputs"); s.evalDeriv(xx,yy,NULL,&w); check(vh::close(w,dx,1e-12,1e-12*sc/hx),"derivative depends on outputs"); } }
    // continuity of value and first derivatives across cell edges is by node-side evaluation
    if(deg>=3) for(size_t i=1;i+1<x.size();i++) for(int b=0;b<7;b++) { double yy=fmin(y.back(),y[0]+(y.back()-y[0])*b/6.), h=1e-9*std::min(x[i]-x[i-1],x[i+1]-x[i]), q[12]; s.evalDeriv(x[i]-h,yy,q,q+1,q+2,q+3,q+4,q+5); s.evalDeriv(x[i]+h,yy,q+6,q+7,q+8,q+9,q+10,q+11); double hm=std::min(x[i]-x[i-1],x[i+1]-x[i]),hy=.05,sc2=sc+20*fabs(q[0])+10*fabs(q[1])*hm+10*fabs(q[2])*hy; check(fabs(q[0]-q[6])<1e-7*sc2&&fabs(q[1]-q[7])<1e-6*sc2/hm&&fabs(q[2]-q[8])<1e-6*sc2/hy,"%s: jumps across x=%g at y=%g",nm,x[i],yy); }
    if(deg>=3) for(size_t j=1;j+1<y.size();j++) for(int b=0;b<7;b++) { double xx=fmin(x.back(),x[0]+(x.back()-x[0])*b/6.), h=1e-9*std::min(y[j]-y[j-1],y[j+1]-y[j]), q[12]; s.evalDeriv(xx,y[j]-h,q,q+1,q+2,q+3,q+4,q+5); s.evalDeriv(xx,y[j]+h,q+6,q+7,q+8,q+9,q+10,q+11); double hm=std::min(y[j]-y[j-1],y[j+1]-y[j]),hy=.05,sc2=sc+20*fabs(q[0])+10*fabs(q[2])*hm+10*fabs(q[1])*hy; check(fabs(q[0]-q[6])<1e-7*sc2&&fabs(q[2]-q[8])<1e-6*sc2/hm&&fabs(q[1]-q[7])<1e-6*sc2/hy,"%s: jumps across y=%g at x=%g: %.10g %.10g %.10g -> %.10g %.10g %.10g",nm,y[j],xx,q[0],q[1],q[2],q[6],q[7],q[8]); }
    double o[6]; for(int k=0;k<4;k++) { s.evalDeriv(k==0?x[0]-.1:k==1?x.back()+.1:x[0],k==2?y[0]-.1:k==3?y.back()+.1:y[0],o,o+1,o+2,o+3,o+4,o+5); check(o[0]!=o[0],"%s: outside the grid not NaN",nm); }
}
static void two() {
    for(int nx=1;nx<=3;nx++) for(int ny=1;ny<=3;ny++) for(int gx=0;gx<9;gx+=(nx==1?3:1)) for(int gy=0;gy<9;gy+=(ny==1?3:2)) for(int v=0;v<(thorough()?6:2);v++) {
        if(!begin(fmt("spline2d %d %d grids %d %d values %d",nx,ny,gx,gy,v))) continue; V x=mkgrid(gx,nx,-.5), y=mkgrid(gy,ny,.25); int n=x.size(),m=y.size(); Matrix<double> F(n,m),FX(n,m),FY(n,m),FXY(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) { F(i,j)=vals[(i*5+j*3+v+i*j)%4]; FX(i,j)=((i*3+j*7+v)%5)-2; FY(i,j)=((i*2+j*5+v)%7)-3; FXY(i,j)=((i+j*3+v)%5)-1.5; }
        { LinearInterpolator2d s(x,y,F); for(int i=0;i<n;i++) for(int j=0;j<m;j++) check(fabs(s.value(x[i],y[j])-F(i,j))<1e-14,"linear2d node"); for(int a=0;a<=10;a++) for(int b=0;b<=10;b++) { double xx=x[0]+(x[n-1]-x[0])*a/10,yy=y[0]+(y[m-1]-y[0])*b/10; xx=fmin(xx,x[n-1]); yy=fmin(yy,y[m-1]); int i=0,j=0; while(i+2<n&&xx>=x[i+1]) i++; while(j+2<m&&yy>=y[j+1]) j++; double u=(xx-x[i])/(x[i+1]-x[i]),w=(yy-y[j])/(y[j+1]-y[j]); double r=(F(i,j)*(1-u)+F(i+1,j)*u)*(1-w)+(F(i,j+1)*(1-u)+F(i+1,j+1)*u)*w; check(fabs(s.value(xx,yy)-r)<1e-12,"bilinear value at %g %g: %g, not %g",xx,yy,s.value(xx,yy),r); double d[6]; s.evalDeriv(xx,yy,d,d+1,d+2,d+3,d+4,d+5); check(d[3]==0&&d[5]==0,"second derivatives"); 
              double rx=((F(i+1,j)-F(i,j))*(1-w)+(F(i+1,j+1)-F(i,j+1))*w)/(x[i+1]-x[i]), ry=((F(i,j+1)-F(i,j))*(1-u)+(F(i+1,j+1)-F(i+1,j))*u)/(y[j+1]-y[j]); check(fabs(d[1]-rx)<1e-10&&fabs(d[2]-ry)<1e-10,"bilinear derivatives at %g %g: %g %g, not %g %g",xx,yy,d[1],d[2],rx,ry); } }
        for(int b=0;b<16;b++) { double dxl=b&1?1.:NAN,dxr=b&2?-.5:NAN,dyl=b&4?2.:NAN,dyr=b&8?0.:NAN; CubicSpline2d s(x,y,F,false,dxl,dxr,dyl,dyr); std::string t=fmt("cubic2d bc=%d",b); double sc=1;
            // tensor-product reference from one-dimensional splines
            std::vector<CubicSpline> rows; for(int i=0;i<n;i++) { V r(m); for(int j=0;j<m;j++) r[j]=F(i,j); rows.push_back(CubicSpline(y,r,false,dyl,dyr)); }
            for(int bb=0;bb<=8;bb++) { double yy=fmin(y[0]+(y[m-1]-y[0])*bb/8,y[m-1]); V c(n); for(int i=0;i<n;i++) { c[i]=rows[i].value(yy); sc=fmax(sc,fabs(c[i])); } CubicSpline col(x,c,false,dxl,dxr); for(int a=0;a<=8;a++) { double xx=fmin(x[0]+(x[n-1]-x[0])*a/8,x[n-1]), r=col.value(xx); sc=fmax(sc,fabs(r)); check(fabs(s.value(xx,yy)-r)<1e-11*sc,"%s: value at %g %g is %.12g, tensor product %.12g",t.c_str(),xx,yy,s.value(xx,yy),r); } }
            if(b==0||b==15||b==6) cells2d(s,x,y,3,sc*10,t.c_str()); }
        { CubicSpline2d s(x,y,F,true); for(int i=0;i<n;i++) for(int j=0;j<m;j++) check(fabs(s.value(x[i],y[j])-F(i,j))<1e-13,"regularized cubic2d node"); cells2d(s,x,y,3,100,"regularized cubic2d"); }
        for(int k=0;k<2;k++) { QuinticSpline2d s= k? QuinticSpline2d(x,y,F,FX,FY,FXY):QuinticSpline2d(x,y,F,FX,FY); std::string t=k?"quintic2d+mixed":"quintic2d"; for(int i=0;i<n;i++) for(int j=0;j<m;j++) { double d[6]; s.evalDeriv(x[i],y[j],d,d+1,d+2,d+3,d+4,d+5); check(fabs(d[0]-F(i,j))<1e-12&&fabs(d[1]-FX(i,j))<1e-9&&fabs(d[2]-FY(i,j))<1e-9&&(!k||fabs(d[4]-FXY(i,j))<1e-6),"%s: node %d %d: %g %g %g %g",t.c_str(),i,j,d[0],d[1],d[2],d[4]); } cells2d(s,x,y,5,300,t.c_str());
            // along grid lines it is the one-dimensional quintic spline
            for(int i=0;i<n;i++) { V f(m),d(m); for(int j=0;j<m;j++) { f[j]=F(i,j); d[j]=FY(i,j); } QuinticSpline q(y,f,d); for(int b=0;b<=9;b++) { double yy=fmin(y[0]+(y[m-1]-y[0])*b/9,y[m-1]); check(fabs(q.value(yy)-s.value(x[i],yy))<1e-10,"%s: on grid line x=%g at y=%g: %g, not %g",t.c_str(),x[i],yy,s.value(x[i],yy),q.value(yy)); } }
            for(int j=0;j<m;j++) { V f(n),d(n); for(int i=0;i<n;i++) { f[i]=F(i,j); d[i]=FX(i,j); } QuinticSpline q(x,f,d); for(int b=0;b<=9;b++) { double xx=fmin(x[0]+(x[n-1]-x[0])*b/9,x[n-1]); check(fabs(q.value(xx)-s.value(xx,y[j]))<1e-10,"%s: on grid line y=%g at x=%g: %g, not %g",t.c_str(),y[j],xx,s.value(xx,y[j]),q.value(xx)); } } }
        // polynomials
        for(int a=0;a<=3;a++) for(int b=0;b<=3;b++) { Matrix<double> f(n,m),fx(n,m),fy(n,m),fxy(n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) { f(i,j)=pw_(x[i],a)*pw_(y[j],b); fx(i,j)=a?a*pw_(x[i],a-1)*pw_(y[j],b):0; fy(i,j)=b?b*pw_(x[i],a)*pw_(y[j],b-1):0; fxy(i,j)=a&&b?a*b*pw_(x[i],a-1)*pw_(y[j],b-1):0; } QuinticSpline2d s(x,y,f,fx,fy,fxy); for(int p=0;p<=6;p++) for(int q=0;q<=6;q++) { double xx=fmin(x[0]+(x[n-1]-x[0])*p/6,x[n-1]),yy=fmin(y[0]+(y[m-1]-y[0])*q/6,y[m-1]),w=pw_(xx,a)*pw_(yy,b); check(vh::close(s.value(xx,yy),w,1e-11,1e-11*pw_(10,a+b)),"quintic2d does not reproduce x^%d y^%d at %g %g: %g",a,b,xx,yy,s.value(xx,yy)); } }
        outcome(fmt("2d%d%d",nx,ny)); S.states++; }
}
static void three() {
    for(int nx=1;nx<=3;nx++) for(int ny=1;ny<=2;ny++) for(int nz=1;nz<=3;nz++) for(int g=0;g<9;g+=2) for(int v=0;v<2;v++) { if(!begin(fmt("spline3d %d %d %d grid %d values %d",nx,ny,nz,g,v))) continue; V x=mkgrid(g,nx,-.5),y=mkgrid(g/2+1,ny,.25),z=mkgrid(8-g,nz,1); int n=x.size(),m=y.size(),l=z.size(); V f(n*m*l); for(size_t k=0;k<f.size();k++) f[k]=vals[(k*5+k/3+v)%4];
        LinearInterpolator3d s1(x,y,z,f); CubicSpline3d s3(x,y,z,f), sr(x,y,z,f,true); V am((n+2)*(m+2)*(l+2)); for(size_t k=0;k<am.size();k++) am[k]=vals[(k*3+k/5+v)%4]; CubicSpline3d sb(x,y,z,am); BsplineInterpolator3d<3> B(x,y,z); BsplineInterpolator3d<1> B1(x,y,z); check(B.numValues()==am.size()&&B1.numValues()==f.size(),"number of components");
        for(int i=0;i<n;i++) for(int j=0;j<m;j++) for(int k=0;k<l;k++) { double w=f[(i*m+j)*l+k]; check(fabs(s1.value(x[i],y[j],z[k])-w)<1e-13&&fabs(s3.value(x[i],y[j],z[k])-w)<1e-12&&fabs(sr.value(x[i],y[j],z[k])-w)<1e-12,"3d node"); }
        for(int a=0;a<=4;a++) for(int b=0;b<=4;b++) for(int c=0;c<=4;c++) { double p[3]={fmin(x[0]+(x[n-1]-x[0])*a/4,x[n-1]),fmin(y[0]+(y[m-1]-y[0])*b/4,y[m-1]),fmin(z[0]+(z[l-1]-z[0])*c/4,z[l-1])};
            V ci(n),li(n); for(int i=0;i<n;i++) { V cj(m),lj(m); for(int j=0;j<m;j++) { V r(f.begin()+(i*m+j)*l,f.begin()+(i*m+j+1)*l); cj[j]=CubicSpline(z,r).value(p[2]); lj[j]=LinearInterpolator(z,r).value(p[2]); } ci[i]=CubicSpline(y,cj).value(p[1]); li[i]=LinearInterpolator(y,lj).value(p[1]); }
            double w3=CubicSpline(x,ci).value(p[0]), w1=LinearInterpolator(x,li).value(p[0]); check(fabs(s3.value(p[0],p[1],p[2])-w3)<1e-10*(1+fabs(w3))*100,"cubic3d at %g %g %g: %.12g, tensor product %.12g",p[0],p[1],p[2],s3.value(p[0],p[1],p[2]),w3); check(fabs(s1.value(p[0],p[1],p[2])-w1)<1e-12,"linear3d at %g %g %g: %.12g, tensor product %.12g",p[0],p[1],p[2],s1.value(p[0],p[1],p[2]),w1);
            check(fabs(B1.interpolate(p,f)-w1)<1e-12,"bspline3d<1>"); double bv=B.interpolate(p,am); check(fabs(sb.value(p[0],p[1],p[2])-bv)<1e-11,"cubic3d from amplitudes: %.12g, B-spline %.12g",sb.value(p[0],p[1],p[2]),bv);
            V e(am.size(),-7.); B.eval(p,&e[0]); double s=0,t=0; for(size_t k=0;k<e.size();k++) { s+=e[k]; t+=e[k]*am[k]; check(e[k]>=-1e-13,"negative basis function"); } check(fabs(s-1)<1e-12&&fabs(t-bv)<1e-12,"3d basis functions: sum %g, combination %g instead of %g",s,t,bv); }
        check(s3.value(x[0]-.1,y[0],z[0])!=s3.value(x[0]-.1,y[0],z[0])&&s1.value(x[0],y[0],z.back()+.1)!=0&&!(s1.value(x[0],y[0],z.back()+.1)==s1.value(x[0],y[0],z.back()+.1)),"outside the 3d grid not NaN"); double pt[3]={x[0],y[0]-1,z[0]}; check(B.interpolate(pt,am)==0,"B-spline outside the grid is not zero");
        for(unsigned c=0;c<B.numValues();c++) { unsigned ind[3]; B.decomposeIndComp(c,ind); check(B.indComp(ind[0],ind[1],ind[2])==c&&ind[0]<(unsigned)n+2&&ind[1]<(unsigned)m+2&&ind[2]<(unsigned)l+2,"component index"); }
        outcome("3d"); S.states++; }
}
static void misc() {
    // log-log splines
    for(int c=0;c<81;c++) { if(!begin(fmt("loglog %d",c))) continue; static const double pv[3]={.1,1,40}; V x; double xx=.02; for(int i=0;i<4;i++) { x.push_back(xx); xx*= i==1?3:1.7; } V f,d; int q=c; for(int i=0;i<4;i++) { f.push_back(pv[q%3]); d.push_back((q%3-1.)*2); q/=3; }
        for(int k=0;k<4;k++) { V ff=f; if(k==2) ff[1+c%2]=0; if(k==3) ff[c%4]=-1; std::unique_ptr<LogLogSpline> s(k==1?new LogLogSpline(x,ff,d):new LogLogSpline(x,ff)); bool pos=true; for(int i=0;i<4;i++) { double v,dd; s->evalDeriv(x[i],&v,&dd); check(vh::close(v,ff[i],1e-13),"loglog node %d (%d): %g, not %g",i,k,v,ff[i]); if(k==1) check(vh::close(dd,d[i],1e-10,1e-10),"loglog node derivative %g, not %g",dd,d[i]); pos&=ff[i]>=0; }
            for(int i=0;i<=60;i++) { double p=x[0]*pw_(x[3]/x[0],i/60.)*(i==0||i==60?1:1.0001); p=fmin(p,x[3]); if(i==60) p=x[3]*.9999; double h=p*1e-4,v,dd,dd2,a,b,da,db; s->evalDeriv(p,&v,&dd,&dd2); if(pos) check(v>=0&&(k==2||v>0),"loglog: value %g at %g of %s",v,p,sv(ff).c_str()); bool near=false; for(int j=0;j<4;j++) near|=fabs(p-x[j])<3*h; if(near) continue; s->evalDeriv(p-h,&a,&da); s->evalDeriv(p+h,&b,&db); if(v==0||a==0||b==0) continue; double sc=fabs(a)+fabs(b)+fabs(v); for(int j=0;j<3;j++) if(p>x[j]&&p<x[j+1]) sc+=fabs(ff[j])+fabs(ff[j+1]); check(fabs((b-a)/(2*h)-dd)<=1e-6*sc/p*30&&fabs((db-da)/(2*h)-dd2)<=1e-5*(fabs(da)+fabs(db)+sc/p)/p*30,"loglog(%d): derivatives %g %g at %g, differences give %g %g; %s",k,dd,dd2,p,(b-a)/(2*h),(db-da)/(2*h),sv(ff).c_str()); } }
        V pl; for(int i=0;i<4;i++) pl.push_back(3*pw_(x[i],c%9-4)); LogLogSpline s(x,pl); double sl=(c%9-4); for(int i=-4;i<=24;i++) { double p=x[0]*pw_(1.25,i),v,dd; s.evalDeriv(p,&v,&dd); check(vh::close(v,3*pw_(p,sl),1e-11)&&vh::close(dd,3*sl*pw_(p,sl-1),1e-10,1e-300),"loglog: power law %g at %g: %g %g",sl,p,v,dd); } outcome("loglog"); }
    // invalid input
    if(begin("invalid input")) { V x(3),f(3,1.); x[0]=0;x[1]=1;x[2]=2; int ok=0,all=0;
        #define BAD(expr) do { all++; try { expr; check(false,"accepted: %s",#expr); } catch(std::length_error&){ok++;} catch(std::invalid_argument&){ok++;} catch(std::exception& e){check(false,"%s: wrong exception %s",#expr,e.what());} } while(0)
        for(int k=0;k<5;k++) { V xb=x,fb=f; if(k==0) xb[1]=0; if(k==1) xb[2]=.5; if(k==2) fb[1]=NAN; if(k==3) fb[2]=INFINITY; if(k==4) fb.resize(2); V d(3,0.); 
            if(k!=2&&k!=3) BAD(LinearInterpolator s(xb,fb)); BAD(CubicSpline s(xb,fb)); BAD(CubicSpline s(xb,fb,d)); BAD(QuinticSpline s(xb,fb,d)); BAD(QuinticSpline s(xb,fb)); if(k<2) BAD(BsplineInterpolator1d<3> s(xb));
            if(k<2) { V am(5,1.); BAD(CubicSpline s(xb,am)); } if(k<2) { Matrix<double> m(3,3,1.); BAD(CubicSpline2d s(xb,x,m)); BAD(CubicSpline2d s(x,xb,m)); BAD(LinearInterpolator2d s(x,xb,m)); BAD(QuinticSpline2d s(xb,x,m,m,m)); V f3(27,1.); BAD(CubicSpline3d s(x,xb,x,f3)); BAD(LinearInterpolator3d s(x,x,xb,f3)); } }
        { Matrix<double> m(3,2,1.),g(3,3,1.); g(1,1)=NAN; BAD(CubicSpline2d s(x,x,m)); BAD(LinearInterpolator2d s(x,x,m)); BAD(QuinticSpline2d s(x,x,m,m,m)); BAD(CubicSpline2d s(x,x,g)); V f3(26,1.); BAD(CubicSpline3d s(x,x,x,f3)); V am(6,1.); BAD(CubicSpline s(x,am)); }
        CubicSpline e; LinearInterpolator l; QuinticSpline q; LogLogSpline g; double v; check(e.empty()&&std::isnan(e.value(1))&&std::isnan(l.value(1))&&std::isnan(q.value(0)),"empty interpolators return NaN"); g.evalDeriv(1,&v); check(v!=v,"empty log-spline"); outcome("err"); }
    // penalised regression: data lying in the spline space, straight lines, weights, exact least-squares optimality
    for(int g=0;g<27;g++) for(int w=0;w<2;w++) { if(!begin(fmt("approx %d %d",g,w))) continue; V x=mkgrid(g,3,0); int n=4; V f; for(int i=0;i<n;i++) f.push_back(vals[(g+i*i)%4]); CubicSpline s(x,f); V px,py,pl,pw; for(int k=0;k<n-1;k++) for(int i=0;i<8;i++) { double p=x[k]+(x[k+1]-x[k])*(i+.5)/8; px.push_back(p); py.push_back(s.value(p)); pl.push_back(2-.7*p); if(w) pw.push_back(1+(i%3)); }
        SplineApprox A(x,px,pw); double rms=-1; V r=A.fit(py,0,&rms); for(int i=0;i<n;i++) check(fabs(r[i]-f[i])<1e-7,"regression does not reproduce spline data: node %d %g, not %g; x=%s",i,r[i],f[i],sv(x).c_str()); double ymax=0; for(size_t i=0;i<py.size();i++) ymax=fmax(ymax,fabs(py[i])); check(rms>=0&&rms<1e-4*ymax,"rms %g",rms);
        static const double edf[]={0,2,2.5,3,3.9,4}; for(int e=0;e<6;e++) { r=A.fit(pl,edf[e],&rms); for(int i=0;i<n;i++) check(fabs(r[i]-(2-.7*x[i]))<1e-7,"straight line not reproduced at edf=%g: %g",edf[e],r[i]); }
        // noisy data: no smoothing = least squares (any perturbation increases the misfit); edf=2 = weighted straight line
        V noisy=py; for(size_t i=0;i<noisy.size();i++) noisy[i]+=((i*37)%11-5)*.05; r=A.fit(noisy,0,&rms); struct Q { static double chi(const V& x,const V& r,const V& px,const V& y,const V& w) { CubicSpline s(x,r); double c=0; for(size_t i=0;i<px.size();i++) { double d=s.value(px[i])-y[i]; c+=d*d*(w.size()?w[i]:1); } return c; } }; double c0=Q::chi(x,r,px,noisy,pw); for(int i=0;i<n;i++) for(int sg=-1;sg<=1;sg+=2) { V r2=r; r2[i]+=sg*.01; check(Q::chi(x,r2,px,noisy,pw)>=c0*(1-1e-12),"fit without smoothing is not a least-squares optimum: misfit %g decreases to %g",c0,Q::chi(x,r2,px,noisy,pw)); }
        double sw=0,sx=0,sy=0,sxx=0,sxy=0; for(size_t i=0;i<px.size();i++) { double ww=w?pw[i]:1; sw+=ww; sx+=ww*px[i]; sy+=ww*noisy[i]; sxx+=ww*px[i]*px[i]; sxy+=ww*px[i]*noisy[i]; } double b=(sw*sxy-sx*sy)/(sw*sxx-sx*sx),a=(sy-b*sx)/sw; r=A.fit(noisy,2,&rms); for(int i=0;i<n;i++) check(fabs(r[i]-(a+b*x[i]))<1e-6*(1+fabs(a)+fabs(b)),"edf=2 is not the linear regression: %g, not %g",r[i],a+b*x[i]);
        double pr=-1; for(int e=5;e>=1;e--) { A.fit(noisy,edf[e],&rms); check(rms>=pr*(1-1e-9)-1e-12,"rms %g decreases with smoothing (%g)",rms,pr); pr=rms; } 
        double ed; V ro=A.fitOptimal(noisy,&rms,&ed); check(ed>=2-1e-9&&ed<=n+1e-9&&rms>0,"optimal fit edf=%g",ed); V rs=A.fit(noisy,ed,&pr); bool same=true; for(int i=0;i<n;i++) same&=fabs(rs[i]-ro[i])<1e-4*(1+fabs(ro[i])); check(same,"fit with the optimal edf %g differs from the optimal fit",ed);
        outcome("approx"); }
    // log-density: exact total mass; invariance under scaling of weights and shift
    for(int g=0;g<9;g++) for(int o=0;o<4;o++) for(int N=1;N<=3;N+=2) for(int third=0;third<(N==3?2:1);third++) { if(!begin(fmt("logdens %d %d %d %d",g,o,N,third))) continue; V x; for(int i=0;i<6;i++) x.push_back(-2.5+i*(1+.1*(g%3)*(i%2))); V px,pw,pw2; for(int i=0;i<60;i++) { double u=(i+.5)/60; double p=x[0]+(x.back()-x[0])*(.5+.45*sin((u-.5)*(2+g*.1))); px.push_back(p); pw.push_back(1./60); pw2.push_back(5./60); }
        FitOptions op=(FitOptions)(o*2+third); V r=N==1?splineLogDensity<1>(x,px,pw,op):splineLogDensity<3>(x,px,pw,op), r5=N==1?splineLogDensity<1>(x,px,pw2,op):splineLogDensity<3>(x,px,pw2,op), r0=N==1?splineLogDensity<1>(x,px,V(),op):splineLogDensity<3>(x,px,V(),op); 
        for(int i=0;i<6;i++) { check(fabs(r5[i]-r[i]-log(5.))<1e-6&&fabs(r0[i]-r[i])<1e-9,"weights scaling: %g %g %g",r[i],r5[i],r0[i]); }
        std::unique_ptr<BaseInterpolator1d> s; if(N==1) s.reset(new LinearInterpolator(x,r)); else s.reset(new CubicSpline(x,r)); double tot=0; int M=20000; for(int k=0;k<M;k++) { double p=x[0]+(x.back()-x[0])*(k+.5)/M; tot+=exp(s->value(p))*(x.back()-x[0])/M; } double dl,dr; s->evalDeriv(x[0],NULL,&dl,NULL,NULL); s->evalDeriv(x.back(),NULL,&dr,NULL,NULL); if(o&1) { check(dl>0,"density does not decline to the left"); tot+=exp(r[0])/dl; } if(o&2) { check(dr<0,"density does not decline to the right"); tot-=exp(r[5])/dr; } check(fabs(tot-1)<1e-5,"integral of the density is %g; N=%d",tot,N); outcome("logdens"); }
    if(begin("interpolation grids")) for(int n=2;n<=12;n++) { for(int k=0;k<4;k++) { double a=k&1?.01:1,b=k&2?1e4:7; V u=createUniformGrid(n,a,b),e=createExpGrid(n,a,b); bool ok=(int)u.size()==n&&(int)e.size()==n&&u[0]==a&&u[n-1]==b&&vh::close(e[0],a,1e-14)&&vh::close(e[n-1],b,1e-14); for(int i=1;i<n;i++) ok&=vh::close(u[i]-u[i-1],(b-a)/(n-1),1e-9)&&vh::close(e[i]/e[i-1],pw_(b/a,1./(n-1)),1e-9); check(ok,"uniform/exponential grid of %d nodes",n); if(n>2) for(int z=0;z<2;z++) { V q=createNonuniformGrid(n,a,b,z); ok=(int)q.size()==n; int o=z; if(z) ok&=q[0]==0; ok&=vh::close(q[o],a,1e-9)&&vh::close(q[n-1],b,1e-9); for(int i=1;i<n;i++) ok&=q[i]>q[i-1]; check(ok||(n-o)<2,"nonuniform grid %s",sv(q).c_str()); } } outcome("grid"); }
}
int main(int c,char**v) { init(c,v); one(); bspl<0>(); bspl<1>(); bspl<2>(); bspl<3>(); two(); three(); misc(); return finish(); }
