// M06: every simple polygon on a small lattice against exact integer geometry
#include "vh.h"
#include "math_geometry.h"
#include <algorithm>
using namespace vh; using namespace math; typedef long long I; typedef std::vector<int> VI;
struct P { I x,y; }; typedef std::vector<P> Pg;
static I cr(P a,P b,P c) { return (b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); }
static int sg(I a) { return a>0?1:a<0?-1:0; }
static bool on(P a,P b,P c) { return cr(a,b,c)==0&&std::min(a.x,b.x)<=c.x&&c.x<=std::max(a.x,b.x)&&std::min(a.y,b.y)<=c.y&&c.y<=std::max(a.y,b.y); }
static bool meet(P a,P b,P c,P d) { if(on(a,b,c)||on(a,b,d)||on(c,d,a)||on(c,d,b)) return true; return sg(cr(a,b,c))*sg(cr(a,b,d))<0&&sg(cr(c,d,a))*sg(cr(c,d,b))<0; }
static bool simple(const Pg& p) { int n=p.size(); for(int i=0;i<n;i++) { P a=p[i],b=p[(i+1)%n],c=p[(i+2)%n]; if(on(a,b,c)||on(b,c,a)) return false; // spike (includes n==3 collinear)
    for(int j=i+2;j<n;j++) { if(i==0&&j==n-1) continue; if(meet(a,b,p[j],p[(j+1)%n])) return false; } } return true; }
static I area2(const Pg& p) { I s=0; int n=p.size(); for(int i=0;i<n;i++) s+=p[i].x*p[(i+1)%n].y-p[(i+1)%n].x*p[i].y; return s; }
// half-open convention: inside iff the point shifted by (e,e^2), e->0+, is strictly inside: exact via scaling by 2^20 (lattice denominators are tiny)
static bool inside(const Pg& p,I x2,I y2) { // point in half-lattice units
    const I K=1<<18; I X=x2*(K/2)+(1<<9), Y=y2*(K/2)+1; bool in=false; int n=p.size();
    for(int i=0;i<n;i++) { P a={p[i].x*K,p[i].y*K},b={p[(i+1)%n].x*K,p[(i+1)%n].y*K}; if((a.y>Y)!=(b.y>Y)) { I c=cr(a,b,P{X,Y}); if(c==0) abort(); if((b.y>a.y)==(c>0)) in=!in; } } return in; }
static Polygon poly(const Pg& p,int rot,bool rev) { Polygon r; int n=p.size(); for(int i=0;i<n;i++) { P q=p[((rev?-i:i)+rot+2*n)%n]; r.push_back(Point2d(q.x,q.y)); } return r; }
// ---- reference: signed fan of triangles, each clipped as a convex polygon by half-planes, in long double
typedef long double L; struct Q { L x,y; }; typedef std::vector<Q> Qg;
static Qg half(const Qg& p,L a,L b,L c) { Qg r; int n=p.size(); for(int i=0;i<n;i++) { Q u=p[i],v=p[(i+1)%n]; L f=a*u.x+b*u.y+c,g=a*v.x+b*v.y+c; if(f>=0) r.push_back(u); if((f>0&&g<0)||(f<0&&g>0)) { L t=f/(f-g); r.push_back(Q{u.x+t*(v.x-u.x),u.y+t*(v.y-u.y)}); } } return r; }
static Qg box(Qg p,L x0,L y0,L x1,L y1) { return half(half(half(half(p,1,0,-x0),-1,0,x1),0,1,-y0),0,-1,y1); }
// integral of x^i y^j-type function over convex polygon by Gauss-Legendre on Duffy-mapped triangles
static const L GX[5]={-0.9061798459386639927976L,-0.5384693101056830910363L,0,0.5384693101056830910363L,0.9061798459386639927976L},GW[5]={0.2369268850561890875143L,0.4786286704993664680413L,0.5688888888888888888889L,0.4786286704993664680413L,0.2369268850561890875143L};
template<class F> static void integ(const Qg& p,L sign,const F& f) { for(size_t k=2;k<p.size();k++) { Q a=p[0],b=p[k-1],c=p[k]; L J=(b.x-a.x)*(c.y-a.y)-(b.y-a.y)*(c.x-a.x); if(J==0) continue; for(int i=0;i<5;i++) for(int j=0;j<5;j++) { L u=(GX[i]+1)/2,v=(GX[j]+1)/2,w=GW[i]*GW[j]/4*u*J*sign; L s=u*(1-v),t=u*v; f(a.x+s*(b.x-a.x)+t*(c.x-a.x),a.y+s*(b.y-a.y)+t*(c.y-a.y),w); } } }
struct One { L* s; void operator()(L,L,L w) const { *s+=w; } };
static L refArea(const Pg& p,L x0,L y0,L x1,L y1) { L s=0; int n=p.size(); for(int i=2;i<n;i++) { Qg t; P a=p[0],b=p[i-1],c=p[i]; I o=cr(a,b,c); if(!o) continue; t.push_back(Q{(L)a.x,(L)a.y}); t.push_back(Q{(L)b.x,(L)b.y}); t.push_back(Q{(L)c.x,(L)c.y}); One f={&s}; integ(box(t,x0,y0,x1,y1),1,f); } return s; }
// ---- reference clamped B-splines (Cox - de Boor)
static L cdb(const std::vector<L>& t,int i,int k,L x) { if(k==0) return t[i]<=x&&x<t[i+1]?1:0; L r=0; if(t[i+k]>t[i]) r+=(x-t[i])/(t[i+k]-t[i])*cdb(t,i,k-1,x); if(t[i+k+1]>t[i+1]) r+=(t[i+k+1]-x)/(t[i+k+1]-t[i+1])*cdb(t,i+1,k-1,x); return r; }
struct Basis { int N; std::vector<double> g; std::vector<L> t; Basis(int n,const std::vector<double>& gr):N(n),g(gr) { for(int i=0;i<N;i++) t.push_back(g[0]); for(size_t i=0;i<g.size();i++) t.push_back(g[i]); for(int i=0;i<N;i++) t.push_back(g.back()); } int size() const { return g.size()-1+N; } };
struct Acc { const Basis *bx,*by; std::vector<L>* o; void operator()(L x,L y,L w) const { int nx=bx->size(),ny=by->size(); std::vector<L> vx(nx),vy(ny); for(int i=0;i<nx;i++) vx[i]=cdb(bx->t,i,bx->N,x); for(int i=0;i<ny;i++) vy[i]=cdb(by->t,i,by->N,y); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) (*o)[j*nx+i]+=w*vx[i]*vy[j]; } };
static std::string name(const Pg& p) { std::string s; for(size_t i=0;i<p.size();i++) s+=fmt("%d%d ",(int)p[i].x,(int)p[i].y); return s; }
template<int N> static void bspl(const Pg& p,const Polygon& lib,const std::vector<double>& gx,const std::vector<double>& gy) {
    Basis bx(N,gx),by(N,gy); std::vector<L> ref(bx.size()*by.size(),0.L); Acc f={&bx,&by,&ref}; L s=area2(p)>0?1:-1;
    for(size_t i=0;i+1<gx.size();i++) for(size_t j=0;j+1<gy.size();j++) for(size_t k=2;k<p.size();k++) { P a=p[0],b=p[k-1],c=p[k]; if(cr(a,b,c)==0) continue; Qg t; t.push_back(Q{(L)a.x,(L)a.y}); t.push_back(Q{(L)b.x,(L)b.y}); t.push_back(Q{(L)c.x,(L)c.y}); integ(box(t,gx[i],gy[j],gx[i+1],gy[j+1]),s,f); }
    BsplineInterpolator1d<N> lx(gx),ly(gy); std::vector<double> out(lx.numValues()*ly.numValues(),0.); if(!check(out.size()==ref.size(),"number of basis functions %d instead of %d",(int)out.size(),(int)ref.size())) return;
    bool oob=computeBsplineIntegralsOverPolygon(lib,lx,ly,&out[0]); double xm=1e9,xM=-1e9,ym=1e9,yM=-1e9; for(size_t i=0;i<p.size();i++) { xm=fmin(xm,p[i].x);xM=fmax(xM,p[i].x);ym=fmin(ym,p[i].y);yM=fmax(yM,p[i].y); }
    bool ro=xm<gx[0]||xM>gx.back()||ym<gy[0]||yM>gy.back(); check(oob==ro,"degree %d: out-of-grid flag is %d",N,oob);
    double sum=0; L rs=0; for(size_t i=0;i<out.size();i++) { sum+=out[i]; rs+=ref[i]; if(N==3) S.extra["max_cubic_dev"]=fmax(S.extra["max_cubic_dev"],fabs(out[i]-(double)ref[i])); check(fabs(out[i]-(double)ref[i])<=(N==3?2e-3:1e-12),"degree %d, grid starting at %g,%g: integral of basis function %d is %.12g instead of %.12g",N,gx[0],gy[0],(int)i,out[i],(double)ref[i]); }
    check(fabs(sum-(double)rs)<1e-12,"degree %d: integrals sum up to %.15g instead of the area inside the grid %.15g",N,sum,(double)rs); }
static unsigned long npoly=0;
static void polygon(const Pg& p,int M,int depth) { npoly++; std::string id=name(p); I a2=area2(p); int n=p.size();
    // full set of transformations for point tests; all rectangles for clipping
    for(int rev=0;rev<2;rev++) for(int rot=0;rot<n;rot++) { Polygon g=poly(p,rot,rev); check(polygonArea(g)==0.5*a2*(rev?-1:1),"area of %s (start %d, reversed %d) is %g instead of %g",id.c_str(),rot,rev,polygonArea(g),0.5*a2*(rev?-1:1));
        for(int x=-1;x<=2*M+1;x++) for(int y=-1;y<=2*M+1;y++) { bool in=isPointInsidePolygon(x*0.5,y*0.5,g); if(in!=inside(p,x,y)) check(false,"polygon %s (start %d, reversed %d): point %g,%g is reported %s",id.c_str(),rot,rev,x*0.5,y*0.5,in?"inside":"outside"); S.nchecks++; } }
    outcome(fmt("%d:%d",n,(int)a2)); if(depth<1) return;
    std::vector<double> cc; for(int x=-1;x<=2*M+1;x++) cc.push_back(x*0.5); cc.push_back(1./3); 
    std::sort(cc.begin(),cc.end()); int st=depth>1?1:3;
    for(size_t i=0;i<cc.size();i+=st) for(size_t j=i+1;j<cc.size();j+=st) for(size_t k=0;k<cc.size();k+=st) for(size_t l=k+1;l<cc.size();l+=st) for(int rev=0;rev<2;rev++) { Polygon g=poly(p,(i+k)%n,rev); Polygon r=clipPolygonByRectangle(g,Rectangle(cc[i],cc[k],cc[j],cc[l]));
        L ra=refArea(p,cc[i],cc[k],cc[j],cc[l])*(rev?-1:1); double la=polygonArea(r); bool bad=fabs(la-(double)ra)>1e-12; if(bad) check(false,"polygon %s clipped by [%g:%g]x[%g:%g] has area %.15g instead of %.15g (reversed %d)",id.c_str(),cc[i],cc[j],cc[k],cc[l],la,(double)ra,rev); S.nchecks++;
        for(size_t v=0;v<r.size();v++) if(!(r[v].x>=cc[i]-1e-15*8&&r[v].x<=cc[j]+8e-15&&r[v].y>=cc[k]-8e-15&&r[v].y<=cc[l]+8e-15)) check(false,"polygon %s clipped by [%g:%g]x[%g:%g] has a vertex outside: %.17g %.17g",id.c_str(),cc[i],cc[j],cc[k],cc[l],r[v].x,r[v].y); } }
static void bsplines(const Pg& p,int M) { int n=p.size(); std::vector<double> g1,g2,g3; for(int i=0;i<=M;i++) g1.push_back(i); double q2[]={-0.5,0.25,1,1.7,M+0.5}; g2.assign(q2,q2+5); double q3[]={0.5,1.5,1.75}; g3.assign(q3,q3+3);
    for(int rev=0;rev<2;rev++) { Polygon g=poly(p,(int)(area2(p)+20)%n,rev); const std::vector<double>* gs[3]={&g1,&g2,&g3}; for(int a=0;a<3;a++) { int b=(a+rev)%3; bspl<0>(p,g,*gs[a],*gs[b]); bspl<1>(p,g,*gs[a],*gs[b]); bspl<2>(p,g,*gs[a],*gs[b]); bspl<3>(p,g,*gs[a],*gs[b]); } } }
static void rec(std::vector<P>& cur,std::vector<bool>& used,int M,int n,int depth,bool bs) { int W=M+1;
    if((int)cur.size()==n) { if(simple(cur)) { if(bs) bsplines(cur,M); else polygon(cur,M,depth); } return; }
    for(int k=0;k<W*W;k++) { if(used[k]) continue; if(k<(int)(cur[0].x*W+cur[0].y)) continue; // canonical start: smallest vertex first
        P q={k/W,k%W}; used[k]=true; cur.push_back(q); rec(cur,used,M,n,depth,bs); cur.pop_back(); used[k]=false; } }
static void family(int M,int n,int depth,bool bs) { int W=M+1; for(int a=0;a<W*W;a++) for(int b=a+1;b<W*W;b++) { if(!begin(fmt("%s lattice %d, %d vertices, clipping depth %d, first %d second %d",bs?"bspline":"polygon",W,n,depth,a,b))) continue; std::vector<P> cur; std::vector<bool> used(W*W,false); P p={a/W,a%W},q={b/W,b%W}; cur.push_back(p); cur.push_back(q); used[a]=used[b]=true; rec(cur,used,M,n,depth,bs); } }
static void degenerate() { if(!begin("degenerate polygons")) return; Polygon g; for(int n=0;n<4;n++) { for(int x=-2;x<6;x++) for(int y=-2;y<6;y++) check(!isPointInsidePolygon(x*0.5,y*0.5,g),"degenerate polygon with %d vertices contains a point",n); check(polygonArea(g)==0,"degenerate polygon has area %g",polygonArea(g));
        check(polygonArea(clipPolygonByRectangle(g,Rectangle(0.5,0.5,1.5,2)))==0,"clipped degenerate polygon has an area"); std::vector<double> gx(3),o(16,0.); gx[0]=-1;gx[1]=1.2;gx[2]=5; BsplineInterpolator1d<1> b(gx); computeBsplineIntegralsOverPolygon(g,b,b,&o[0]); for(int i=0;i<16;i++) check(fabs(o[i])<1e-15,"degenerate polygon has a nonzero integral"); g.push_back(Point2d(n,n)); } outcome("degenerate"); }
int main(int argc,char** argv) { init(argc,argv); bool T=thorough(); degenerate();
    for(int n=3;n<=(T?9:8);n++) family(2,n,n<=5?2:n<=6||T?1:0,false);
    for(int n=3;n<=(T?6:5);n++) family(3,n,n<=3?2:n<=4?1:T?1:0,false);
    for(int n=3;n<=(T?6:5);n++) family(2,n,0,true); family(3,3,0,true);
    S.extra["n_polygons"]=npoly; return finish(); }
