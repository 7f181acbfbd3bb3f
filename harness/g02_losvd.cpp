// G02: LOSVD and KinemShell targets, Gauss-Hermite expansions: every B-spline degree x grid x viewing angle x symmetry x PSF x aperture set of a palette, at every point of a
// phase-space lattice, compared with an independent Cox-de Boor / quadrature / rotation implementation of the projection.
#include "vh.h"
#include "galaxymodel_losvd.h"
#include "galaxymodel_base.h"
#include "math_gausshermite.h"
#include "math_core.h"
#include "potential_factory.h"
#include "potential_analytic.h"
#include "potential_dehnen.h"
#include "df_spherical.h"
#include "df_factory.h"
#include "actions_factory.h"
#include "actions_spherical.h"
#include "utils.h"
#include "utils_config.h"
#include "orbit.h"
#include <algorithm>
using namespace vh;
using galaxymodel::GaussianPSF;
typedef std::vector<double> V;
typedef std::vector<V> M;
static void silent(utils::VerbosityLevel,const char*,const std::string&) {}
static V mk(const char* s) { V r; for(const char* p=s;*p;) { char* e; r.push_back(strtod(p,&e)); p=*e?e+1:e; } return r; }
// ---- independent B-spline basis (Cox - de Boor recursion on the clamped knot vector, closed at the right end)
struct Bs { int N; V g,t; Bs(int n,const V& grid): N(n),g(grid) { for(int i=0;i<N;i++) t.push_back(g[0]); t.insert(t.end(),g.begin(),g.end()); for(int i=0;i<N;i++) t.push_back(g.back()); }
    int size() const { return (int)g.size()+N-1; }
    double rec(int i,int k,double x) const { if(k==0) { bool last=t[i+1]==g.back(); return x>=t[i]&&(x<t[i+1]||(last&&x==t[i+1]&&t[i]<t[i+1]))?1:0; } double a=t[i+k]-t[i],b=t[i+k+1]-t[i+1]; return (a>0?(x-t[i])/a*rec(i,k-1,x):0)+(b>0?(t[i+k+1]-x)/b*rec(i+1,k-1,x):0); }
    double val(int i,double x) const { if(x<g[0]||x>g.back()) return 0; return rec(i,N,x); }
    V all(double x) const { V r(size()); for(int i=0;i<size();i++) r[i]=val(i,x); return r; } };
static void gl(int n,V& x,V& w) { x.resize(n); w.resize(n); for(int i=0;i<n;i++) { double z=cos(M_PI*(i+.75)/(n+.5)),p1=0,p2=0,pp=1; for(int it=0;it<50;it++) { p1=1; p2=0; for(int j=1;j<=n;j++) { double p3=p2; p2=p1; p1=((2*j-1)*z*p2-(j-1)*p3)/j; } pp=n*(z*p1-p2)/(z*z-1); double dz=p1/pp; z-=dz; if(fabs(dz)<1e-15) break; } x[i]=.5-.5*z; w[i]=1/((1-z*z)*pp*pp); } }
// dense Gaussian elimination: solves A X = B for all columns of B
static M solve(M a,M b) { int n=a.size(),m=b[0].size(); for(int i=0;i<n;i++) { int p=i; for(int r=i;r<n;r++) if(fabs(a[r][i])>fabs(a[p][i])) p=r; std::swap(a[i],a[p]); std::swap(b[i],b[p]); for(int r=0;r<n;r++) if(r!=i) { double f=a[r][i]/a[i][i]; for(int c=i;c<n;c++) a[r][c]-=f*a[i][c]; for(int c=0;c<m;c++) b[r][c]-=f*b[i][c]; } } for(int i=0;i<n;i++) for(int c=0;c<m;c++) b[i][c]/=a[i][i]; return b; }
static M transp(const M& a) { M r(a[0].size(),V(a.size())); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[0].size();j++) r[j][i]=a[i][j]; return r; }
static M mul(const M& a,const M& b) { M r(a.size(),V(b[0].size(),0.)); for(size_t i=0;i<a.size();i++) for(size_t k=0;k<b.size();k++) for(size_t j=0;j<b[0].size();j++) r[i][j]+=a[i][k]*b[k][j]; return r; }
// projection matrix P and P^-1 C P^-1 for the given kernel width (0 - no smoothing)
// (the smoothing matrix is symmetric in exact arithmetic; either orientation of its quadrature approximation is accepted)
static bool TR=true;
static M smooth(const Bs& b,double width) {
    static std::map<std::string,M> cache; std::string key=fmt("%d %g %d ",b.N,width,(int)TR); for(size_t i=0;i<b.g.size();i++) key+=fmt("%.17g,",b.g[i]); std::map<std::string,M>::iterator it=cache.find(key); if(it!=cache.end()) return it->second;
    // the outer integral uses the quadrature rule of the finite-element class (N+1 Gauss-Legendre nodes per segment), the inner one is exact
    V gx,gw,ox,ow; gl(8,gx,gw); gl(b.N+1,ox,ow); int n=b.size(),SUB=width>0?24:1; V x,w,X,W; for(size_t s=0;s+1<b.g.size();s++) { double h0=b.g[s+1]-b.g[s]; for(int k=0;k<=b.N;k++) { X.push_back(b.g[s]+h0*ox[k]); W.push_back(h0*ow[k]); } for(int q=0;q<SUB;q++) for(int k=0;k<8;k++) { double h=h0/SUB; x.push_back(b.g[s]+h*(q+gx[k])); w.push_back(gw[k]*h); } }
    M B(x.size()); for(size_t i=0;i<x.size();i++) B[i]=b.all(x[i]);
    M P(n,V(n,0.)),C(n,V(n,0.)); for(size_t i=0;i<x.size();i++) for(int a=0;a<n;a++) for(int c=0;c<n;c++) P[a][c]+=w[i]*B[i][a]*B[i][c];
    if(width>0) { for(size_t i=0;i<X.size();i++) { V O=b.all(X[i]),T(n,0.); for(size_t j=0;j<x.size();j++) { double d=(X[i]-x[j])/width; if(fabs(d)>9) continue; double k=w[j]*exp(-.5*d*d)/width/sqrt(2*M_PI); for(int c=0;c<n;c++) T[c]+=k*B[j][c]; } for(int a=0;a<n;a++) if(O[a]!=0) for(int c=0;c<n;c++) C[a][c]+=W[i]*O[a]*T[c]; } } else C=P;
    M r=solve(P,transp(solve(P,transp(C)))); if(TR) r=transp(r); cache[key]=r; return r; }
// integrals of products of basis functions over a simple polygon: signed triangle fan, clipped by the cells
typedef std::vector<math::Point2d> Pg;
static Pg clip(const Pg& p,int ax,double c,int sgn) { Pg r; int n=p.size(); for(int i=0;i<n;i++) { math::Point2d a=p[i],b=p[(i+1)%n]; double da=sgn*((ax?a.y:a.x)-c),db=sgn*((ax?b.y:b.x)-c); if(da>=0) r.push_back(a); if((da>0&&db<0)||(da<0&&db>0)) { double f=da/(da-db); r.push_back(math::Point2d(a.x+f*(b.x-a.x),a.y+f*(b.y-a.y))); } } return r; }
static double area(const Pg& p) { double s=0; int n=p.size(); for(int i=0;i<n;i++) s+=p[i].x*p[(i+1)%n].y-p[(i+1)%n].x*p[i].y; return s/2; }
static V polyint(const Pg& poly,const Bs& bx,const Bs& by) { V res(bx.size()*by.size(),0.); V gx,gw; gl(6,gx,gw); double tot=area(poly)>0?1:-1;
    for(size_t k=1;k+1<poly.size();k++) { Pg tri; tri.push_back(poly[0]); tri.push_back(poly[k]); tri.push_back(poly[k+1]); double sg=area(tri)>0?tot:-tot; if(area(tri)==0) continue;
        for(size_t i=0;i+1<bx.g.size();i++) for(size_t j=0;j+1<by.g.size();j++) { Pg q=clip(clip(clip(clip(tri,0,bx.g[i],1),0,bx.g[i+1],-1),1,by.g[j],1),1,by.g[j+1],-1); if(q.size()<3) continue;
            for(size_t f=1;f+1<q.size();f++) { double jac=fabs((q[f].x-q[0].x)*(q[f+1].y-q[0].y)-(q[f+1].x-q[0].x)*(q[f].y-q[0].y)); if(jac==0) continue;
                for(int u=0;u<6;u++) for(int v=0;v<6;v++) { double a=gx[u],b=gx[v]; double X=q[0].x+a*((1-b)*(q[f].x-q[0].x)+b*(q[f+1].x-q[0].x)),Y=q[0].y+a*((1-b)*(q[f].y-q[0].y)+b*(q[f+1].y-q[0].y)); double w=sg*gw[u]*gw[v]*a*jac; X=fmin(fmax(X,bx.g[i]+1e-14),bx.g[i+1]-1e-14); Y=fmin(fmax(Y,by.g[j]+1e-14),by.g[j+1]-1e-14);
                    for(int ii=0;ii<=bx.N;ii++) { double wx=bx.val(i+ii,X); if(wx!=0) for(int jj=0;jj<=by.N;jj++) res[(j+jj)*bx.size()+i+ii]+=w*wx*by.val(j+jj,Y); } } } } }
    return res; }
static Pg poly(const char* s) { V v=mk(s); Pg p; for(size_t i=0;i+1<v.size();i+=2) p.push_back(math::Point2d(v[i],v[i+1])); return p; }
static bool isrect(const Pg& p) { if(p.size()!=4) return false; for(int i=0;i<4;i++) if(p[i].x!=p[(i+1)%4].x&&p[i].y!=p[(i+1)%4].y) return false; return true; }
// rotation into the image plane: three consecutive rotations of the coordinate frame
static void rot(double a,double b,double c,const double p[3],double o[3]) { double x=p[0],y=p[1],z=p[2],t; t=cos(a)*x+sin(a)*y; y=-sin(a)*x+cos(a)*y; x=t; t=cos(b)*y+sin(b)*z; z=-sin(b)*y+cos(b)*z; y=t; t=cos(c)*x+sin(c)*y; y=-sin(c)*x+cos(c)*y; x=t; o[0]=x; o[1]=y; o[2]=z; }
struct Grid { const char *x,*y,*v; };
static const Grid GR[]={ {"-2,-1,0,1,2","-1.5,0,1.5","-3,-1,1,3"}, {"-2,-1.2,1.2,2","-1.8,-.6,.6,1.8","-3,-2,0,2,3"}, {"-2,-.5,1,2","-1.5,-.3,1.7","-2.5,0,1,3"}, {"-2,.5,2","-1.8,0,1.8","-3,-1,1,3"}, {"-2,0,2","-1.8,-.4,1.8","-3,-1,1,3"}, {"-2,-1,1,2","-1.8,0,1.8","-3,1,3"}, {".2,1,2.4","-2,0,2","-3,0,3"}, {"-2,2","-1.7,1.7","-3,3"} };
static const double ANG[][3]={{0,0,0},{.7,1.1,-.4},{0,M_PI/2,0},{M_PI/2,M_PI/2,.3},{-1.9,2.6,3.0},{1.2,M_PI,0}};
struct Sym { coord::SymmetryType s; bool mirror,flip,rnd; const char* n; };
static const Sym SY[]={{coord::ST_NONE,false,false,false,"none"},{coord::ST_REFLECTION,true,false,false,"reflection"},{coord::ST_ZREFLECTION,false,false,false,"zreflection"},{coord::ST_BISYMMETRIC,true,true,false,"bisymmetric"},{coord::ST_TRIAXIAL,true,true,false,"triaxial"},{coord::ST_AXISYMMETRIC,true,true,true,"axisymmetric"},{coord::ST_SPHERICAL,true,true,true,"spherical"}};
struct PSFs { int n; double w[2],a[2]; double vel; };
static const PSFs PS[]={{0,{0,0},{0,0},0},{1,{.45,0},{1,0},.6},{2,{.3,.9},{.7,.3},0},{2,{0,.6},{.4,.6},1.1},{1,{0,0},{1,0},.35}};
static const char* AP[]={ "W", "-.4,-.3,.3,-.3,.3,.5,-.4,.5", "-1,-1,1,-1,1,1,-1,1", "-1.1,-1.2,1.5,-.4,.2,1.3", "-1,-1,1,-1,1,.2,.1,.1,0,1.2,-1.1,.9", "-.5,.6,.9,1.1,1.2,-.9,-.8,-1.1" }; // the last one is clockwise, overlapping the others
template<int N> static galaxymodel::LOSVDParams par(const Grid& g,const double an[3],coord::SymmetryType s,const PSFs& p) { galaxymodel::LOSVDParams q; q.alpha=an[0]; q.beta=an[1]; q.gamma=an[2]; q.gridx=mk(g.x); q.gridy=mk(g.y); q.gridv=mk(g.v); q.symmetry=s; q.velocityPSF=p.vel; for(int i=0;i<p.n;i++) q.spatialPSF.push_back(GaussianPSF(p.w[i],p.a[i])); return q; }
static Pg shift(Pg p,const V& gx,const V& gy) { for(size_t i=0;i<p.size();i++) { p[i].x=(gx[0]+gx.back())/2+p[i].x*(gx.back()-gx[0])/4; p[i].y=(gy[0]+gy.back())/2+p[i].y*(gy.back()-gy[0])/4; } return p; }
static Pg whole(const V& x,const V& y) { Pg p; p.push_back(math::Point2d(x[0],y[0])); p.push_back(math::Point2d(x.back(),y[0])); p.push_back(math::Point2d(x.back(),y.back())); p.push_back(math::Point2d(x[0],y.back())); return p; }
// dense operator from the spatial part of the cube to the apertures
struct Oracle { Bs bx,by,bv; M Q,Vc; V tol; Oracle(int N,const galaxymodel::LOSVDParams& q): bx(N,q.gridx),by(N,q.gridy),bv(N,q.gridv) { int nx=bx.size(),ny=by.size(); Q.assign(q.apertures.size(),V(nx*ny,0.)); std::vector<GaussianPSF> ps=q.spatialPSF; if(ps.empty()) ps.push_back(GaussianPSF(0,1)); std::vector<M> X,Y; for(size_t g=0;g<ps.size();g++) { X.push_back(smooth(bx,ps[g].width)); Y.push_back(smooth(by,ps[g].width)); }
        for(size_t a=0;a<q.apertures.size();a++) { V A=polyint(q.apertures[a],bx,by); tol.push_back(N==3?4e-2:1e-3); M Am(ny,V(nx)); for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) Am[j][i]=A[j*nx+i]; for(size_t g=0;g<ps.size();g++) { M R=mul(transp(Y[g]),mul(Am,X[g])); for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) Q[a][j*nx+i]+=ps[g].ampl*R[j][i]; } }
        Vc=smooth(bv,q.velocityPSF); }
    M apply(const M& cube) const { return mul(mul(Q,cube),transp(Vc)); } };
static void image(const Oracle& o,const double p[6],double m,const double an[3],M& cube) { double x[3],v[3]; rot(an[0],an[1],an[2],p,x); rot(an[0],an[1],an[2],p+3,v); V a=o.bx.all(x[0]),b=o.by.all(x[1]),c=o.bv.all(v[2]); for(size_t j=0;j<b.size();j++) for(size_t i=0;i<a.size();i++) if(a[i]*b[j]!=0) for(size_t k=0;k<c.size();k++) cube[j*a.size()+i][k]+=m*a[i]*b[j]*c[k]; }
static bool nearnode(const Oracle& o,const double p[6],const double an[3]) { double x[3],v[3]; rot(an[0],an[1],an[2],p,x); rot(an[0],an[1],an[2],p+3,v); const V* g[3]={&o.bx.g,&o.by.g,&o.bv.g}; double q[3]={x[0],x[1],v[2]}; for(int d=0;d<3;d++) for(size_t i=0;i<g[d]->size();i++) if(fabs(fabs(q[d])-fabs((*g[d])[i]))<1e-9) return true; return false; }
static M mat(const math::Matrix<double>& c) { M r(c.rows(),V(c.cols())); for(size_t i=0;i<c.rows();i++) for(size_t j=0;j<c.cols();j++) r[i][j]=c(i,j); return r; }
static double mx(const M& a) { double s=0; for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[0].size();j++) s=fmax(s,fabs(a[i][j])); return s; }
static double md(const M& a,const M& b) { double s=0; if(a.size()!=b.size()||a[0].size()!=b[0].size()) return INFINITY; for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[0].size();j++) { double d=fabs(a[i][j]-b[i][j]); if(!(d<=s)) s=d; } return s; }
static M finz(const galaxymodel::BaseTarget& t,math::Matrix<double> c,int nv) { std::vector<galaxymodel::StorageNumT> o(t.numCoefs()); t.finalizeDatacube(c,&o[0]); M r(o.size()/nv,V(nv)); for(size_t i=0;i<o.size();i++) r[i/nv][i%nv]=o[i]; return r; }
static std::vector<V> lattice() { std::vector<V> r; double X[]={-1.15,.35,1.72},Vv[]={-1.9,.4}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<3;k++) for(int l=0;l<2;l++) for(int m=0;m<2;m++) for(int n=0;n<2;n++) { double p[]={X[i],X[j]*.9,X[k]*.8,Vv[l],Vv[m]*1.1,Vv[n]*.7}; r.push_back(V(p,p+6)); } double ex[][6]={{0,0,0,0,0,0},{0,0,.5,0,0,1},{2,0,0,1,0,0},{0,1.5,0,0,-3,0},{0,0,-1,0,0,3},{5,0,0,0,0,0},{0,0,0,9,9,9}}; for(int i=0;i<7;i++) r.push_back(V(ex[i],ex[i]+6)); return r; }

template<int N> static void losvd(int gi,int ai,int si,int pi) {
    const Grid& g=GR[gi]; const double* an=ANG[ai]; const Sym& s=SY[si]; const PSFs& ps=PS[pi];
    if(!begin(fmt("losvd N=%d grid=%d angles=%d sym=%s psf=%d",N,gi,ai,s.n,pi))) return;
    galaxymodel::LOSVDParams q=par<N>(g,an,s.s,ps); q.apertures.push_back(whole(q.gridx,q.gridy)); for(int k=1;k<6;k++) q.apertures.push_back(shift(poly(AP[k]),q.gridx,q.gridy));
    galaxymodel::TargetLOSVD<N> t(q); Oracle o(N,q); int nv=o.bv.size(),nx=o.bx.size(),ny=o.by.size();
    check((int)t.numValues()==nx*ny*nv&&(int)t.numCoefs()==nv*6,"numbers of values: %d, %d",(int)t.numValues(),(int)t.numCoefs());
    check(t.newDatacube().size()==t.numValues(),"size of the datacube");
    static std::vector<V> L=lattice(); M sum(nx*ny,V(nv,0.)); math::Matrix<double> csum=t.newDatacube(); double mass=0; int nin=0;
    for(size_t k=0;k<L.size();k++) { const double* p=&L[k][0]; S.transitions++; S.states++;
        // images of the point which the symmetry prescribes, each with an equal share of the mass
        std::vector<V> im; im.push_back(L[k]); if(s.flip) for(size_t i=0,n=im.size();i<n;i++) { V v=im[i]; v[2]=-v[2]; v[5]=-v[5]; im.push_back(v); } if(s.mirror) for(size_t i=0,n=im.size();i<n;i++) { V v=im[i]; for(int d=0;d<6;d++) v[d]=-v[d]; im.push_back(v); }
        bool skip=false; for(size_t i=0;i<im.size();i++) skip|=nearnode(o,&im[i][0],an); if(skip&&N==0) continue;
        M ref(nx*ny,V(nv,0.)); double m=1+.01*k; for(size_t i=0;i<im.size();i++) image(o,&im[i][0],m/im.size(),an,ref);
        math::Matrix<double> c=t.newDatacube(); t.addPoint(p,m,c.data()); t.addPoint(p,m,csum.data());
        // the symmetrisation may take place at the end: compare the final amplitudes (a linear operator with full rank for the whole set is compared on the sum below)
        M got=finz(t,c,nv),want=o.apply(ref); double sc=fmax(mx(want),1e-3); int bad=-1; for(size_t a=0;a<want.size()&&bad<0;a++) for(int v=0;v<nv;v++) if(!(fabs(got[a][v]-want[a][v])<=(o.tol[a]*(N<3&&pi==0&&isrect(q.apertures[a])?.01:1))*sc)) { bad=a*nv+v; break; }
        if(!check(bad<0,"point %g %g %g %g %g %g: %s is %g instead of %g (largest %g)",p[0],p[1],p[2],p[3],p[4],p[5],bad>=0?t.coefName(bad).c_str():"",bad>=0?got[bad/nv][bad%nv]:0,bad>=0?want[bad/nv][bad%nv]:0,sc)) break;
        for(int i=0;i<nx*ny;i++) for(int v=0;v<nv;v++) sum[i][v]+=ref[i][v]; for(int i=0;i<nx*ny;i++) for(int v=0;v<nv;v++) mass+=ref[i][v]; nin++; }
    // everything together; without smoothing the integral over velocity and the whole image plane is the recorded mass
    M got=finz(t,csum,nv),want=o.apply(sum); check(md(got,want)<=(N==3?1.5e-2:3e-3)*mx(want),"accumulated: differ by %g (largest %g)",md(got,want),mx(want));
    if(pi==0) { double tot=0; for(int v=0;v<nv;v++) { double w=0; for(int i=0;i<=N;i++) w+=0; w=(o.bv.t[v+N+1]-o.bv.t[v])/(N+1); tot+=w*got[0][v]; } check(fabs(tot-mass)<(N==3?1e-2:1e-5)*mass,"mass over all velocities and the entire image is %.9g instead of %.9g",tot,mass); }
    // determinism, order independence and linearity
    { math::Matrix<double> a=t.newDatacube(),b=t.newDatacube(); for(size_t k=0;k<L.size();k+=3) t.addPoint(&L[k][0],1,a.data()); for(size_t k=0;k<L.size();k+=3) t.addPoint(&L[(L.size()-1)/3*3-k][0],2,b.data()); M x=finz(t,a,nv),y=finz(t,b,nv); for(size_t i=0;i<y.size();i++) for(int v=0;v<nv;v++) y[i][v]/=2; check(md(x,y)<=1e-5*mx(x),"order of points or the multiplier matters: %g",md(x,y)); }
    std::set<std::string> names; for(unsigned i=0;i<t.numCoefs();i++) names.insert(t.coefName(i)); check(names.size()==t.numCoefs(),"coefficient names are not distinct"); bool th=false; try { t.coefName(t.numCoefs()); } catch(std::exception&) { th=true; } check(th,"name of a coefficient beyond the end"); outcome(fmt("%d %d",N,nin)); }

// axisymmetric and spherical: random but reproducible rotation
template<int N> static void rnd(int gi,int ai,int sph) {
    if(!begin(fmt("random N=%d grid=%d angles=%d %s",N,gi,ai,sph?"spherical":"axisymmetric"))) return; const Grid& g=GR[gi]; const double* an=ANG[ai];
    galaxymodel::LOSVDParams q=par<N>(g,an,sph?coord::ST_SPHERICAL:coord::ST_AXISYMMETRIC,PS[0]); q.apertures.push_back(whole(q.gridx,q.gridy)); galaxymodel::TargetLOSVD<N> t(q); q.alpha+=.77; galaxymodel::TargetLOSVD<N> t2(q); Oracle o(N,q); int nv=o.bv.size(),nx=o.bx.size(),ny=o.by.size(); double an0[3]={0,an[1],an[2]};
    static std::vector<V> L=lattice();
    for(size_t k=0;k<L.size();k+=sph?5:7) { const double* p=&L[k][0]; math::Matrix<double> c=t.newDatacube(),c2=t.newDatacube(),c3=t2.newDatacube(); t.addPoint(p,1,c.data()); t.addPoint(p,1,c2.data()); t2.addPoint(p,1,c3.data()); S.transitions++;
        check(md(mat(c),mat(c2))==0,"two additions of the same point give different results"); if(!sph) check(md(mat(c),mat(c3))<1e-14,"angle alpha matters for an axisymmetric system");
        M a=mat(c); double tot=0; for(int i=0;i<nx*ny;i++) for(int v=0;v<nv;v++) { tot+=a[i][v]; check(a[i][v]>=-1e-15,"negative weight"); } check(tot<1+1e-12,"mass %g of a unit point",tot);
        // points with no lever arm: the rotation has no effect
        bool axis=!sph&&p[0]==0&&p[1]==0&&p[3]==0&&p[4]==0; if(sph) { axis=true; for(int d=0;d<6;d++) axis&=p[d]==0; }
        bool sy=true; { const V* gg[3]={&o.bx.g,&o.by.g,&o.bv.g}; for(int d=0;d<3;d++) for(size_t i=0;i<gg[d]->size();i++) sy&=(*gg[d])[i]==-(*gg[d])[gg[d]->size()-1-i]; }
        // compare after symmetrisation: average with the reversed cube when grids are symmetric
        M b=a; if(sy) for(int i=0;i<nx*ny;i++) for(int v=0;v<nv;v++) b[i][v]=.5*(a[i][v]+a[nx*ny-1-i][nv-1-v]);
        if(axis&&(N>0||!nearnode(o,p,an0))) { M ref(nx*ny,V(nv,0.)); for(int im=0;im<4;im++) { double z[6]; for(int d=0;d<6;d++) z[d]=(im&1?-p[d]:p[d])*(im&2&&d==5?-1:1); image(o,z,.25,an0,ref); } check(md(b,ref)<1e-12,"point on the axis: datacube differs by %g",md(b,ref)); }
        else if(!sph) { // some angle of rotation about the z axis must explain the datacube (together with the fourfold symmetry of the image plane about the line of nodes)
            double best=1e9; int nb=720; V cand; for(int r=0;r<3&&best>1e-9;r++) { double ctr=0,hw=M_PI; if(r>0) { ctr=cand[0]; hw=cand[1]; } double bb=1e9,ba=0; for(int i=0;i<=nb;i++) { double an1=ctr-hw+2*hw*i/nb; double ca=cos(an1),sa=sin(an1); double z[6]={p[0]*ca-p[1]*sa,p[0]*sa+p[1]*ca,p[2],p[3]*ca-p[4]*sa,p[3]*sa+p[4]*ca,p[5]};
                    // projected image (before the rotation by gamma): fourfold images X,Y,V ; -X,-Y,-V ; and the flips about the line of nodes
                    double X[3],W[3]; rot(0,an[1],0,z,X); rot(0,an[1],0,z+3,W); double zm[6]={z[0],z[1],-z[2],z[3],z[4],-z[5]},Xm[3],Wm[3]; rot(0,an[1],0,zm,Xm); rot(0,an[1],0,zm+3,Wm);
                    double im[8][3]={{X[0],X[1],W[2]},{-X[0],-X[1],-W[2]},{Xm[0],Xm[1],Wm[2]},{-Xm[0],-Xm[1],-Wm[2]},{X[0],-X[1],W[2]},{-X[0],X[1],-W[2]},{Xm[0],-Xm[1],Wm[2]},{-Xm[0],Xm[1],-Wm[2]}}; 
                    M ref(nx*ny,V(nv,0.)); double cg=cos(an[2]),sg=sin(an[2]); for(int j=0;j<8;j++) { double x=cg*im[j][0]+sg*im[j][1],y=-sg*im[j][0]+cg*im[j][1]; V A=o.bx.all(x),B=o.by.all(y),C=o.bv.all(im[j][2]); for(int jj=0;jj<ny;jj++) for(int ii=0;ii<nx;ii++) if(A[ii]*B[jj]!=0) for(int v=0;v<nv;v++) ref[jj*nx+ii][v]+=.125*A[ii]*B[jj]*C[v]; }
                    double d=md(b,ref); if(d<bb) { bb=d; ba=an1; } } cand=V(2); cand[0]=ba; cand[1]=hw*2.5/nb; best=bb; }
            if(!check(best<4e-4,"point %g %g %g %g %g %g: no rotation about the z axis explains the datacube (best mismatch %g)",p[0],p[1],p[2],p[3],p[4],p[5],best)) break; } }
    // many points of one orbit family: the distribution of the images is that of a uniform rotation
    { double R=1.1,z=.4,vr=.3,vp=.9,vz=.2; int K=6000; math::Matrix<double> c=t.newDatacube(); M ref(nx*ny,V(nv,0.)); for(int k=0;k<K;k++) { double f=.6+.4*(k+.5)/K; double p[6]={R*f,0,z,vr,vp,vz*f}; t.addPoint(p,1./K,c.data()); }
        // moments of the marginal distributions obtained by uniform rotation
        int KK=sph?40:400; for(int k=0;k<KK;k++) for(int u=0;u<(sph?1600:1);u++) { double f=.6+.4*(k+.5)/KK; double p[6]={R*f,0,z,vr,vp,vz*f},w[6]; if(!sph) { for(int l=0;l<40;l++) { double a=2*M_PI*(l+.37)/40,ca=cos(a),sa=sin(a); double z6[6]={p[0]*ca,p[0]*sa,p[2],p[3]*ca-p[4]*sa,p[3]*sa+p[4]*ca,p[5]}; for(int fl=0;fl<2;fl++) for(int mi=0;mi<2;mi++) { for(int d=0;d<6;d++) w[d]=(fl&&d%3==2?-1:1)*(mi?-1:1)*z6[d]; image(o,w,1./KK/40/4,an0,ref); } } } else { double a=2*M_PI*(u%10+.5)/10,b=acos(1-2*((u/10)%16+.5)/16),cc=2*M_PI*(u/160+.5)/10; rot(a,b,cc,p,w); rot(a,b,cc,p+3,w+3); for(int mi=0;mi<2;mi++) { double m6[6]; for(int d=0;d<6;d++) m6[d]=mi?-w[d]:w[d]; image(o,m6,1./KK/1600/2,an0,ref); } } }
        M a=mat(c),b=a; bool sy=q.gridx[0]==-q.gridx.back()&&gi<2; if(sy) for(int i=0;i<nx*ny;i++) for(int v=0;v<nv;v++) b[i][v]=.5*(a[i][v]+a[nx*ny-1-i][nv-1-v]); double d=md(b,ref); check(d<8/sqrt(double(K))*.5,"images of %d points are not distributed as a uniform rotation (cell differs by %g)",K,d); } }

struct Dn { const char* spec; };
static const Dn DN[]={{"type=Plummer mass=1.5 scaleRadius=.8"},{"type=Spheroid gamma=0 beta=4 axisRatioY=.85 axisRatioZ=.6 densityNorm=.3"},{"type=Plummer mass=1 scaleRadius=1.3 center=.3,.05,-.2"},{"type=Disk surfaceDensity=1 scaleRadius=.9 scaleHeight=.3"}};
static potential::PtrDensity mkd(int i) { std::string t=std::string(DN[i].spec)+" ",w; utils::KeyValueMap kv; for(size_t k=0;k<t.size();k++) if(t[k]==' ') { size_t e=w.find('='); if(e!=std::string::npos) kv.set(w.substr(0,e),w.substr(e+1)); w=""; } else w+=t[k]; return potential::createDensity(kv); }
template<int N> static void dens(int gi,int ai,int di,int pi) {
    if(!begin(fmt("density N=%d grid=%d angles=%d density=%d psf=%d",N,gi,ai,di,pi))) return; const Grid& g=GR[gi]; const double* an=ANG[ai];
    galaxymodel::LOSVDParams q=par<N>(g,an,di==1?coord::ST_TRIAXIAL:coord::ST_NONE,PS[pi]); q.apertures.push_back(whole(q.gridx,q.gridy)); for(int k=1;k<6;k++) q.apertures.push_back(shift(poly(AP[k]),q.gridx,q.gridy)); galaxymodel::TargetLOSVD<N> t(q); Oracle o(N,q); potential::PtrDensity d=mkd(di); V got=t.computeDensityProjection(*d);
    V gx,gw,zx,zw; gl(12,gx,gw); gl(48,zx,zw); M A(o.bx.size()*o.by.size(),V(1,0.)); for(size_t i=0;i+1<q.gridx.size();i++) for(size_t j=0;j+1<q.gridy.size();j++) for(int u=0;u<12;u++) for(int v=0;v<12;v++) { double hx=q.gridx[i+1]-q.gridx[i],hy=q.gridy[j+1]-q.gridy[j],X=q.gridx[i]+hx*gx[u],Y=q.gridy[j]+hy*gx[v],sd=0;
        // surface density by integration along the line of sight in both directions: z = tan mapping
        for(int sg=-1;sg<=1;sg+=2) for(int k=0;k<48;k++) { double th=zx[k]*M_PI/2, Z=sg*tan(th); // inverse rotation
                double x=X,y=Y,z=Z,tt; tt=cos(an[2])*x-sin(an[2])*y; y=sin(an[2])*x+cos(an[2])*y; x=tt; tt=cos(an[1])*y-sin(an[1])*z; z=sin(an[1])*y+cos(an[1])*z; y=tt; tt=cos(an[0])*x-sin(an[0])*y; y=sin(an[0])*x+cos(an[0])*y; x=tt; double r=d->density(coord::PosCar(x,y,z)); sd+=zw[k]*M_PI/2*r/pow(cos(th),2); S.transitions++; }
        if(di==0) { double an0=1.5*.64/M_PI/pow(.64+X*X+Y*Y,2); if(!check(fabs(sd-an0)<1e-5*an0,"own quadrature of the surface density: %g instead of %g",sd,an0)) return; }
        V a=o.bx.all(X),b=o.by.all(Y); for(size_t jj=0;jj<b.size();jj++) for(size_t ii=0;ii<a.size();ii++) A[jj*a.size()+ii][0]+=hx*hy*gw[u]*gw[v]*sd*a[ii]*b[jj]; }
    M want=mul(o.Q,A); check(got.size()==6,"number of values: %d",(int)got.size()); double sc=0; for(int a=0;a<6;a++) sc=fmax(sc,fabs(want[a][0])); for(int a=0;a<6;a++) check(fabs(got[a]-want[a][0])<1.2e-2*fabs(want[a][0])+1e-3*sc,"mass in aperture %d is %.8g instead of %.8g",a,got[a],want[a][0]); }

template<int N> static void shell(int gi) {
    static const char* G[]={"0,.5,1,2.5","0,3","0,1,1.1,4,9"}; if(!begin(fmt("KinemShell N=%d grid=%d",N,gi))) return; V g=mk(G[gi]); galaxymodel::TargetKinemShell<N> t(g); Bs b(N,g); int n=b.size(); check((int)t.numValues()==2*n&&(int)t.numCoefs()==2*n,"number of values");
    static std::vector<V> L=lattice(); for(size_t k=0;k<L.size();k++) { const double* p=&L[k][0]; double r=sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]),v2=p[3]*p[3]+p[4]*p[4]+p[5]*p[5],vr=r>0?(p[0]*p[3]+p[1]*p[4]+p[2]*p[5])/r:0; S.transitions++; S.states++; V o(2*n,.25); t.addPoint(p,1.5,&o[0]); V B=b.all(r); bool node=false; if(N==0) for(size_t i=0;i<g.size();i++) node|=r>0&&fabs(r-g[i])<1e-9; if(node) continue;
        double s1=0; bool ok=true; for(int i=0;i<n;i++) { double a=o[i]-.25,c=o[n+i]-.25; if(r>0) ok&=fabs(a-1.5*vr*vr*B[i])<1e-11*(1+v2)&&fabs(c-1.5*(v2-vr*vr)*B[i])<1e-11*(1+v2); else ok&=fabs(a+c-1.5*v2*B[i])<1e-11*(1+v2)&&a>=0&&c>=-1e-12; s1+=a+c; } if(!check(ok,"point %g %g %g %g %g %g is recorded wrongly (sum of all %g)",p[0],p[1],p[2],p[3],p[4],p[5],s1)) break; }
    std::set<std::string> nm; for(int i=0;i<2*n;i++) nm.insert(t.coefName(i)); check((int)nm.size()==2*n,"coefficient names"); bool th=false; try { t.coefName(2*n); } catch(std::exception&) { th=true; } check(th,"name of a coefficient beyond the end"); th=false; try { t.computeDensityProjection(*mkd(0)); } catch(std::exception&) { th=true; } check(th,"density projection of a kinematic target"); }

// projection of a distribution function
static void dfproj(int which,int N) {
    if(!begin(fmt("df %d N=%d",which,N))) return; potential::PtrPotential pot(new potential::Plummer(1.,.8)); 
    std::string t=which==0||which==2?"type=QuasiSpherical beta0=0 ":"type=QuasiSpherical beta0=0.3 ",w; utils::KeyValueMap kv; for(size_t k=0;k<t.size();k++) if(t[k]==' ') { size_t e=w.find('='); if(e!=std::string::npos) kv.set(w.substr(0,e),w.substr(e+1)); w=""; } else w+=t[k];
    df::PtrDistributionFunction df=df::createDistributionFunction(kv,pot.get(),pot.get()); actions::ActionFinderSpherical af(*pot); galaxymodel::GalaxyModel gm(*pot,af,*df);
    if(which<2) { V g=mk("0,.5,1,2"); std::vector<float> o; shared_ptr<galaxymodel::BaseTarget> tg; if(N==0) tg.reset(new galaxymodel::TargetKinemShell<0>(g)); else tg.reset(new galaxymodel::TargetKinemShell<1>(g)); o.resize(tg->numCoefs()); tg->computeDFProjection(gm,&o[0]); Bs b(N,g); int n=b.size(); V gx,gw; gl(10,gx,gw); V R(n,0.),T(n,0.); // Plummer with constant-anisotropy: solve the Jeans equation numerically: (rho s2)' + 2 beta/r rho s2 = -rho M/r^2
        double beta=which==1?.3:0; struct F { static double rhos(double r,double be) { double s=0; V x,w; gl(40,x,w); for(int k=0;k<40;k++) { double u=x[k],q=r/u; double dq=r/u/u; double rho=3/(4*M_PI*pow(.8,3))*pow(1+q*q/.64,-2.5),Mq=pow(q,3)/pow(q*q+.64,1.5); s+=w[k]*dq*pow(q/r,2*be)*rho*Mq/q/q; } return s; } };
        for(size_t s=0;s+1<g.size();s++) for(int k=0;k<10;k++) { double r=g[s]+(g[s+1]-g[s])*gx[k],ww=(g[s+1]-g[s])*gw[k]*4*M_PI*r*r*F::rhos(r,beta); V B=b.all(r); for(int i=0;i<n;i++) { R[i]+=ww*B[i]; T[i]+=2*(1-beta)*ww*B[i]; } }
        for(int i=0;i<n;i++) { check(fabs(o[i]-R[i])<2e-2*fabs(R[i]),"radial term %d is %g instead of %g",i,o[i],R[i]); check(fabs(o[n+i]-T[i])<2e-2*fabs(T[i]),"tangential term %d is %g instead of %g",i,o[n+i],T[i]); } S.transitions+=2*n; return; }
    galaxymodel::LOSVDParams q; q.beta=.6; q.gridx=mk("-1,0,1"); q.gridy=mk("-1,1"); q.gridv=mk("-1.6,-.5,.5,1.6"); q.symmetry=coord::ST_SPHERICAL; q.apertures.push_back(whole(q.gridx,q.gridy)); q.apertures.push_back(poly("0,0,1,0,1,1,0,1")); galaxymodel::TargetLOSVD<0> tg(q); std::vector<float> o(tg.numCoefs()); tg.computeDFProjection(gm,&o[0]); V m=tg.computeDensityProjection(*pot); double w3[]={1.1,1.,1.1};
    for(int a=0;a<2;a++) { double s=0; for(int v=0;v<3;v++) s+=o[a*3+v]*w3[v]; check(fabs(s-m[a])<1e-2*m[a],"aperture %d: mass over all velocities %g, surface density gives %g",a,s,m[a]); check(fabs(o[a*3]-o[a*3+2])<2e-2*o[a*3],"aperture %d: velocity distribution is not symmetric: %g, %g",a,o[a*3],o[a*3+2]); check(o[a*3+1]>o[a*3],"aperture %d: not peaked at the centre",a); } S.transitions+=6; }

template<int N> static void tryLos(const galaxymodel::LOSVDParams& q,const char* what,bool ok) { bool th=false; std::string msg; try { galaxymodel::TargetLOSVD<N> t(q); } catch(std::invalid_argument& e) { th=true; msg=e.what(); } catch(std::exception& e) { th=true; msg=std::string("other: ")+e.what(); } S.transitions++; check(th!=ok,"%s: %s",what,th?msg.c_str():"accepted"); }
template<int N> static void errors() {
    if(!begin(fmt("errors N=%d",N))) return; galaxymodel::LOSVDParams q=par<N>(GR[0],ANG[0],coord::ST_NONE,PS[0]); tryLos<N>(q,"no apertures",false); Pg w=whole(q.gridx,q.gridy); q.apertures.push_back(w); tryLos<N>(q,"whole grid",true);
    for(int k=0;k<4;k++) for(int d=0;d<2;d++) { galaxymodel::LOSVDParams r=q; Pg p=w; (d?p[k].y:p[k].x)*=1.01; r.apertures.insert(r.apertures.begin()+(k%2),p); tryLos<N>(r,"aperture outside the datacube",false); p=poly("-.5,-.5,.5,-.5,0,.5"); r.apertures.assign(7,p); tryLos<N>(r,"inside",true); p[k%3].x+=9; r.apertures[k]=p; tryLos<N>(r,"one of the apertures outside the datacube",false); }
    { galaxymodel::LOSVDParams r=q; Pg p=w; for(int k=0;k<4;k++) p[k].x+=100; r.apertures.assign(1,p); tryLos<N>(r,"disjoint aperture",false); }
    const char* bad[]={"1","2,1","0,0,1","0,nan,1"}; for(int b=0;b<4;b++) for(int d=0;d<3;d++) { galaxymodel::LOSVDParams r=q; (d==0?r.gridx:d==1?r.gridy:r.gridv)=mk(bad[b]); r.apertures.assign(1,poly(".1,.1,.2,.1,.2,.2")); tryLos<N>(r,fmt("grid %d %s",d,bad[b]).c_str(),false); } }

// ---- Gauss-Hermite expansions
static double H(int n,double x) { double a=1,b=M_SQRT2*x; if(n==0) return a; for(int k=1;k<n;k++) { double c=(M_SQRT2*x*b-sqrt(double(k))*a)/sqrt(k+1.); a=b; b=c; } return b; }
struct Fn: math::IFunctionNoDeriv { int k; double a,c,w; Fn(int k_,double a_,double c_,double w_): k(k_),a(a_),c(c_),w(w_) {} double value(double x) const { double y=(x-c)/w; if(fabs(y)>30) return 0; double g=a/w/sqrt(2*M_PI)*exp(-.5*y*y); switch(k) { case 0: return g; case 1: return g*(1+.1*H(3,y)+.05*H(4,y)); case 2: { double z=(x-c-1.5*w)/(.5*w); return g+.3*a/(.5*w)/sqrt(2*M_PI)*exp(-.5*z*z); } default: return fabs(y)<2?a/w*pow(1-y*y/4,2):0; } } };
template<int N> static math::GaussHermiteExpansion* ghb(const V& g,const V& amp,int order,double A=NAN,double c=NAN,double w=NAN) { math::BsplineWrapper<N> b(g,amp); return new math::GaussHermiteExpansion(static_cast<const math::BaseInterpolator1d&>(b),order,A,c,w); }
static void gh(int kind,int ci,int wi,int order) {
    static const double C[]={0,.7,-2.3,30},W[]={1,.3,40}; double a=kind==1?2.5:.8,c=C[ci],w=W[wi];
    if(!begin(fmt("gauss-hermite kind=%d centre=%g width=%g order=%d",kind,c,w,order))) return; Fn f(kind,a,c,w); V gx,gw; gl(16,gx,gw);
    struct Q { static double mom(const Fn& f,int n,double A,double C,double W,const V& gx,const V& gw) { double s=0; for(int k=-60;k<60;k++) for(int i=0;i<16;i++) { double y=(k+gx[i])/5.; s+=gw[i]/5*W*M_SQRT2/A*exp(-.5*y*y)*H(n,y)*f(C+W*y); } return s; } };
    // with given parameters: coefficients are the integrals
    double pa[][3]={{a,c,w},{a*1.3,c+.4*w,w*.8},{-2,c-.1*w,1.5*w}}; for(int k=0;k<3;k++) { math::GaussHermiteExpansion e(f,order,pa[k][0],pa[k][1],pa[k][2]); check((int)e.coefs().size()==order+1&&e.ampl()==pa[k][0]&&e.center()==pa[k][1]&&e.width()==pa[k][2],"parameters are not kept"); double tot=0; for(int n=0;n<=order;n++) { double r=Q::mom(f,n,pa[k][0],pa[k][1],pa[k][2],gx,gw); S.transitions++; if(!check(fabs(e.coefs()[n]-r)<(kind==3?3e-3:1e-9),"coefficient %d is %.9g, integral is %.9g",n,e.coefs()[n],r)) break; double I=0; for(int q=-60;q<60;q++) for(int i=0;i<16;i++) { double y=(q+gx[i])/5.; I+=gw[i]/5*exp(-.5*y*y)*H(n,y)/sqrt(2*M_PI); } check(fabs(I-math::GaussHermiteExpansion::normn(n))<1e-9,"integral of the basis function %d is %.12g, normn gives %.12g",n,I,math::GaussHermiteExpansion::normn(n)); tot+=I*e.coefs()[n]*pa[k][0]; } check(fabs(e.norm()-tot)<1e-8*(1+fabs(tot)),"norm %g, integral %g",e.norm(),tot);
        for(int i=-6;i<=6;i++) { double y=i*.5,x=pa[k][1]+y*pa[k][2],s=0; for(int n=0;n<=order;n++) s+=e.coefs()[n]*H(n,y); s*=pa[k][0]/pa[k][2]/sqrt(2*M_PI)*exp(-.5*y*y); check(fabs(e(x)-s)<1e-11*(1+fabs(s)),"value at %g: %g, sum of the terms %g",x,e(x),s); } math::GaussHermiteExpansion e2(e.coefs(),e.ampl(),e.center(),e.width()); check(e2(c+.3*w)==e(c+.3*w)&&e2.norm()==e.norm(),"expansion built from coefficients differs"); }
    // fitted parameters: the first three moments are 1,0,0; functions representable exactly are reproduced
    if(ci==3&&wi<2) { return; } // far from the origin: documented limitation of the generic variant
    math::GaussHermiteExpansion e(f,order); check(fabs(e.coefs()[0]-1)<(kind==3?1e-3:2e-4)&&fabs(e.coefs()[1])<(kind==3?1e-3:2e-4)&&fabs(e.coefs()[2])<(kind==3?1e-3:2e-4),"fit: first moments %g %g %g",e.coefs()[0],e.coefs()[1],e.coefs()[2]); if(kind==0) { check(fabs(e.ampl()-a)<1e-5*a&&fabs(e.center()-c)<1e-4*w&&fabs(e.width()-w)<1e-4*w,"Gaussian: parameters %g %g %g instead of %g %g %g",e.ampl(),e.center(),e.width(),a,c,w); for(int n=3;n<=order;n++) check(fabs(e.coefs()[n])<1e-4,"Gaussian: higher moment %d = %g",n,e.coefs()[n]); } if(kind==1&&order>=4) check(fabs(e.coefs()[3]-.1)<2e-3&&fabs(e.coefs()[4]-.05)<2e-3&&fabs(e.center()-c)<1e-3*w,"moments h3=%g h4=%g",e.coefs()[3],e.coefs()[4]);
    for(int m=2;m<order;m++) { math::GaussHermiteExpansion em(f,m); bool ok=em.ampl()==e.ampl()&&em.center()==e.center()&&em.width()==e.width(); for(int n=0;n<=m;n++) ok&=fabs(em.coefs()[n]-e.coefs()[n])<1e-13; check(ok,"expansion of order %d is not a truncation of the one of order %d",m,order); } outcome(fmt("%d %.3f",kind,e.norm())); }
static void ghmat(int N,int gi,int order,int pi) {
    static const char* G[]={"-3,-2,-1,0,1,2,3","-2.5,-2,-1.2,-.7,-.2,.4,.9,1.3,2,2.8","0,.5,1,1.5,2"}; static const double P[][3]={{1,0,1},{2,.5,1.3},{.3,-1,.9},{1,0,2.5}}; if(!begin(fmt("gh matrix N=%d grid=%d order=%d par=%d",N,gi,order,pi))) return; V g=mk(G[gi]); Bs b(N,g); math::Matrix<double> m=math::computeGaussHermiteMatrix(N,g,order,P[pi][0],P[pi][1],P[pi][2]); check((int)m.rows()==order+1&&(int)m.cols()==b.size(),"shape %dx%d",(int)m.rows(),(int)m.cols()); V gx,gw; gl(24,gx,gw); M R(order+1,V(b.size(),0.)); for(size_t s=0;s+1<g.size();s++) for(int k=0;k<24;k++) { double x=g[s]+(g[s+1]-g[s])*gx[k],y=(x-P[pi][1])/P[pi][2],w=M_SQRT2/P[pi][0]*(g[s+1]-g[s])*gw[k]*exp(-.5*y*y); V B=b.all(x); for(int n=0;n<=order;n++) { double h=H(n,y); for(int i=0;i<b.size();i++) R[n][i]+=w*h*B[i]; } }
    double d=md(mat(m),R); S.transitions+=b.size()*(order+1); check(d<2e-3*mx(R),"matrix differs from the integrals by %g (largest %g)",d,mx(R));
    // a spline with given amplitudes: matrix times amplitudes = expansion with the same parameters; fit gives 1,0,0
    V amp(b.size()); for(int i=0;i<b.size();i++) { double x=.5*(b.t[i]+b.t[i+N+1]); double c=gi==2?1:.2,w=gi==2?.28:.75; amp[i]=exp(-.5*pow((x-c)/w,2))*(1+.1*(i%2)); } if(order<2) return;
    math::GaussHermiteExpansion* e=N==0?ghb<0>(g,amp,order,P[pi][0],P[pi][1],P[pi][2]):N==1?ghb<1>(g,amp,order,P[pi][0],P[pi][1],P[pi][2]):N==2?ghb<2>(g,amp,order,P[pi][0],P[pi][1],P[pi][2]):ghb<3>(g,amp,order,P[pi][0],P[pi][1],P[pi][2]); double sc=0; V q(order+1,0.); for(int n=0;n<=order;n++) { for(int i=0;i<b.size();i++) q[n]+=R[n][i]*amp[i]; sc=fmax(sc,fabs(q[n])); } for(int n=0;n<=order;n++) check(fabs(e->coefs()[n]-q[n])<3e-3*sc,"moment %d of the spline is %g, integral %g",n,e->coefs()[n],q[n]); delete e;
    e=N==0?ghb<0>(g,amp,order):N==1?ghb<1>(g,amp,order):N==2?ghb<2>(g,amp,order):ghb<3>(g,amp,order); check(fabs(e->coefs()[0]-1)<5e-2&&fabs(e->coefs()[1])<5e-2&&fabs(e->coefs()[2])<5e-2,"fit to a spline: first moments %g %g %g",e->coefs()[0],e->coefs()[1],e->coefs()[2]); delete e; }
int main(int argc,char** argv) { init(argc,argv); utils::msg=silent; bool T=thorough();
    errors<0>(); errors<1>(); errors<2>(); errors<3>();
    for(int gi=0;gi<8;gi++) for(int ai=0;ai<6;ai++) for(int si=0;si<5;si++) for(int pi=0;pi<5;pi++) { if(!T&&pi&&(gi+ai+si+pi)%3) continue; losvd<0>(gi,ai,si,pi); losvd<1>(gi,ai,si,pi); losvd<2>(gi,ai,si,pi); if(gi!=6) losvd<3>(gi,ai,si,pi); }
    for(int gi=0;gi<7;gi++) for(int ai=0;ai<6;ai++) for(int sph=0;sph<2;sph++) { if(!T&&(gi+ai)%2) continue; rnd<0>(gi,ai,1); rnd<1>(gi,ai,sph); rnd<2>(gi,ai,sph); rnd<3>(gi,ai,sph); }
    for(int gi=0;gi<8;gi++) for(int ai=0;ai<6;ai++) for(int di=0;di<4;di++) for(int pi=0;pi<5;pi++) { if((!T&&(gi+2*ai+di+pi)%5)||(T&&(gi+ai+pi)%2)) continue; if((di==3&&(ai==2||ai==3))||gi==3||gi==7) continue; dens<0>(gi,ai,di,pi); dens<1>(gi,ai,di,pi); dens<2>(gi,ai,di,pi); dens<3>(gi,ai,di,pi); }
    for(int gi=0;gi<3;gi++) { shell<0>(gi); shell<1>(gi); shell<2>(gi); shell<3>(gi); }
    for(int w=0;w<2;w++) for(int n=0;n<2;n++) dfproj(w,n); dfproj(2,0);
    for(int k=0;k<4;k++) for(int c=0;c<4;c++) for(int w=0;w<3;w++) for(int o=2;o<=(T?12:8);o+=T?1:2) gh(k,c,w,o);
    for(int N=0;N<4;N++) for(int g=0;g<3;g++) for(int o=0;o<=(T?10:8);o+=T?1:2) for(int p=0;p<4;p++) ghmat(N,g,o,p);
    { if(begin("gh errors")) { bool th=false; try { Fn f(0,1,0,1); math::GaussHermiteExpansion e(f,1); } catch(std::invalid_argument&) { th=true; } check(th,"order 1 accepted"); th=false; try { math::computeGaussHermiteMatrix(4,mk("0,1,2"),4,1,0,1); } catch(std::invalid_argument&) { th=true; } check(th,"degree 4 accepted"); th=false; try { math::computeGaussHermiteMatrix(-1,mk("0,1,2"),4,1,0,1); } catch(std::invalid_argument&) { th=true; } check(th,"degree -1 accepted"); } }
    return finish(); }
