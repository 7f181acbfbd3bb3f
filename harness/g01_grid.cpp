// G01: spatial density targets: every target type x small grid x symmetry x lattice point (cell centres, fractions, faces, edges, corners, axes, origin, outside),
// compared with an independent definition of the basis functions; projections of analytic densities compared with independent quadrature.
#include "vh.h"
#include "galaxymodel_densitygrid.h"
#include "galaxymodel_base.h"
#include "potential_factory.h"
#include "potential_utils.h"
#include "math_core.h"
#include "orbit.h"
#include "utils_config.h"
#include "utils.h"
#include <cmath>
#include <memory>
#include <algorithm>
using namespace vh;
typedef std::vector<double> V;
static const double INF=INFINITY;
struct P3 { double x,y,z; };
static V mk(double a,double b=-9,double c=-9,double d=-9,double e=-9) { V v; double q[5]={a,b,c,d,e}; for(int i=0;i<5;i++) if(q[i]!=-9) v.push_back(q[i]); return v; }
// independent hat function on a grid with an implied node at zero
static double hat(const V& g,int k,double r) { double p=k==0?0:k==1?0:g[k-2], c=k==0?0:g[k-1], n=k<(int)g.size()?g[k]:c; if(r<p&&k>0) return 0; if(r>n) return 0; if(r<=c) return k==0?(r==0?1:0)*1.0+(r>0?0:0):(r-p)/(c-p); return k<(int)g.size()?(n-r)/(n-c):0; }
static void parse3(const std::string& s,double* v) { size_t p=0; for(int i=0;i<3;i++) { p=s.find('=',p)+1; v[i]=atof(s.c_str()+p); } }
static double legP(int l,int m,double x) { // associated Legendre without the Condon-Shortley phase, normalised so that int Y^2 = 1 over the sphere with factors cos(m phi)*sqrt2
    double pmm=1,s=sqrt(fmax(0,1-x*x)); for(int i=1;i<=m;i++) pmm*=(2*i-1)*s; double a=pmm,b=x*(2*m+1)*pmm,r; if(l==m) r=a; else if(l==m+1) r=b; else { for(int k=m+2;k<=l;k++) { r=((2*k-1)*x*b-(k+m-1)*a)/(k-m); a=b; b=r; } }
    double f=1; for(int k=l-m+1;k<=l+m;k++) f*=k; return r*sqrt((2*l+1)/(4*M_PI)/f); }
// ---- generic tests for any target
static V eval(const galaxymodel::BaseTarget& t,const P3& p,double mult=1) { V r(t.numValues(),0.); double x[3]={p.x,p.y,p.z}; t.addPoint(x,mult,&r[0]); return r; }
static double maxdiff(const V& a,const V& b) { double d=0; for(size_t i=0;i<a.size();i++) d=fmax(d,fabs(a[i]-b[i])); return d; }
static void generic(const galaxymodel::BaseTarget& t,const std::vector<P3>& pts,int idx) {
    int n=t.numValues(); std::vector<V> val(pts.size()); for(size_t i=0;i<pts.size();i++) val[i]=eval(t,pts[i]);
    // linear in the multiplier, accumulates into the array, never writes outside
    for(size_t i=0;i<pts.size();i++) { V buf(n+2,-.5); buf[0]=buf[n+1]=77; double x[3]={pts[i].x,pts[i].y,pts[i].z}; t.addPoint(x,2.5,&buf[1]); double d=fmax(fabs(buf[0]-77),fabs(buf[n+1]-77)); for(int k=0;k<n;k++) d=fmax(d,fabs(buf[k+1]+.5-2.5*val[i][k])); S.transitions++;
        if(!check(d<1e-13*(1+10),"point %g %g %g: weights are not linear in the mass or not added: %g",pts[i].x,pts[i].y,pts[i].z,d)) break;
        V z=eval(t,pts[i],0); double s=0; for(int k=0;k<n;k++) s=fmax(s,fabs(z[k])); check(s==0,"point of zero mass contributes");
        // mirror images
        for(int m=1;m<8;m++) { P3 q={m&1?-pts[i].x:pts[i].x,m&2?-pts[i].y:pts[i].y,m&4?-pts[i].z:pts[i].z}; double dd=maxdiff(eval(t,q),val[i]); if(!check(dd<2e-12,"point %g %g %g: mirror image %d gives other weights (%g)",pts[i].x,pts[i].y,pts[i].z,m,dd)) break; } }
    // order and grouping: all permutations of four points, all groupings into two arrays
    for(size_t i=0;i+4<=pts.size();i+=7) { int pm[4]={0,1,2,3}; V ref; do { V r(n,0.); for(int k=0;k<4;k++) { const P3& p=pts[i+pm[k]]; double x[3]={p.x,p.y,p.z}; t.addPoint(x,1+.1*pm[k],&r[0]); } S.transitions++; if(ref.empty()) ref=r; else if(!check(maxdiff(r,ref)<1e-13*8,"order of points matters: %g",maxdiff(r,ref))) return; } while(std::next_permutation(pm,pm+4));
        for(int g=0;g<16;g++) { V a(n,0.),b(n,0.); for(int k=0;k<4;k++) { const P3& p=pts[i+k]; double x[3]={p.x,p.y,p.z}; t.addPoint(x,1+.1*k,g>>k&1?&a[0]:&b[0]); } for(int k=0;k<n;k++) a[k]+=b[k]; if(!check(maxdiff(a,ref)<1e-13*8,"grouping of points matters: %g",maxdiff(a,ref))) return; } }
    // names
    std::vector<std::string> nm; for(int k=0;k<n;k++) nm.push_back(t.coefName(k)); std::sort(nm.begin(),nm.end()); check(std::unique(nm.begin(),nm.end())==nm.end(),"names of coefficients are not distinct"); bool thr=false; try { t.coefName(n); } catch(std::exception&) { thr=true; } check(thr,"name of a coefficient beyond the end"); check((int)t.numCoefs()==n&&t.newDatacube().size()==(size_t)n,"sizes"); (void)idx; }
static int nn(const V& v,double eps=0) { int c=0; for(size_t i=0;i<v.size();i++) c+=fabs(v[i])>eps; return c; }
// ---- densities
struct Dens { const char* spec; int sym; }; // sym 0 spherical, 1 axisymmetric, 2 triaxial
static const Dens DS[]={{"type=Plummer mass=1.5 scaleRadius=.8",0},{"type=Spheroid gamma=0.5 beta=5 densityNorm=1 outerCutoffRadius=3 axisRatioZ=.7",1},{"type=Spheroid gamma=0 beta=4 axisRatioY=.85 axisRatioZ=.6 densityNorm=.3",2},{"type=Plummer mass=1 scaleRadius=1.3 center=.1,.05,0",3}};
static potential::PtrDensity mkd(int i) { std::string s=DS[i].spec; utils::KeyValueMap kv; std::string w; std::string t=s+" "; for(size_t k=0;k<t.size();k++) if(t[k]==' ') { size_t e=w.find('='); if(e!=std::string::npos) kv.set(w.substr(0,e),w.substr(e+1)); w=""; } else w+=t[k]; return potential::createDensity(kv); }
struct Unif: potential::BaseDensity { std::string name() const { return "u"; } coord::SymmetryType symmetry() const { return coord::ST_SPHERICAL; } double densityCyl(const coord::PosCyl&,double) const { return 1; } double densitySph(const coord::PosSph&,double) const { return 1; } double densityCar(const coord::PosCar&,double) const { return 1; } };
// Gauss-Legendre nodes computed by Newton's method
static void gl(int n,V& x,V& w) { x.resize(n); w.resize(n); for(int i=0;i<n;i++) { double z=cos(M_PI*(i+.75)/(n+.5)),p1=0,p2=0,pp=1; for(int it=0;it<50;it++) { p1=1; p2=0; for(int j=1;j<=n;j++) { double p3=p2; p2=p1; p1=((2*j-1)*z*p2-(j-1)*p3)/j; } pp=n*(z*p1-p2)/(z*z-1); double dz=p1/pp; z-=dz; if(fabs(dz)<1e-15) break; } x[i]=.5-.5*z; w[i]=1/((1-z*z)*pp*pp); } }
static void cmpproj(const char* what,const galaxymodel::BaseTargetDensity& t,const V& ref,const V& got,double tol) { double s=0; for(size_t i=0;i<ref.size();i++) s=fmax(s,fabs(ref[i])); check(got.size()==ref.size(),"%s: size",what); for(size_t i=0;i<ref.size();i++) if(!check(fabs(got[i]-ref[i])<=tol*fabs(ref[i])+tol*.1*s,"%s: projection onto %s is %.9g instead of %.9g (largest %.9g)",what,t.coefName(i).c_str(),got[i],ref[i],s)) return; }
// ---- Classic grid
template<int N> static void classic(const V& gr,int strips,double ay,double az) {
    if(!begin(fmt("classic%d shells=%d..%g zero=%d strips=%d axes=%g,%g",N,(int)gr.size(),gr.back(),(int)(gr[0]==0),strips,ay,az))) return;
    galaxymodel::TargetDensityClassic<N> t(strips,gr,ay,az); V g(gr); if(g[0]==0) g.erase(g.begin()); int ns=g.size(); double ax=1/cbrt(ay*az), A[3]={ax,ax*ay,ax*az};
    int n=t.numValues(); if(!check(n==(N==0?3*strips*strips*ns:(3*strips*(strips+1)+1)*ns+1),"number of values %d",n)) return;
    // directions of nodes / cell centres taken from the names of coefficients
    std::vector<P3> node(n); for(int k=0;k<n;k++) { double v[3]; parse3(t.coefName(k),v); node[k].x=v[0]/A[0]; node[k].y=v[1]/A[1]; node[k].z=v[2]/A[2]; }
    std::vector<P3> all;
    // lattice: every pane, every position inside the pane in units of half (quarter) cells including borders, every shell fraction
    V fr=mk(0,.25,.5,.875); 
    for(int pane=0;pane<3;pane++) for(int i1=0;i1<=strips*4;i1++) for(int i2=0;i2<=strips*4;i2++) for(int sh=0;sh<=ns;sh++) for(int k=0;k<(sh==ns?2:4);k++) {
        double r0=sh==0?0:g[sh-1], r1=sh<ns?g[sh]:g[ns-1]*1.5, r=r0+(r1-r0)*(sh==ns?.5*k:fr[k]); double a1=i1/(4.*strips),a2=i2/(4.*strips), c[3]={1,i1==4*strips?1:tan(M_PI/4*a1),i2==4*strips?1:tan(M_PI/4*a2)}, nr=sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]); for(int q=0;q<3;q++) c[q]*=r/nr;
        double X[3]; for(int q=0;q<3;q++) X[(q+pane)%3]=c[q]; P3 p={X[0]*A[0],X[1]*A[1],X[2]*A[2]}; if((i1+i2+sh+k)%5==0) all.push_back(p);
        V v=eval(t,p); double sum=0,mn=0; for(int q=0;q<n;q++) { sum+=v[q]; mn=fmin(mn,v[q]); } S.states++;
        bool edge=sh==ns&&k==0, out=sh==ns&&k>0; bool face=i1==0||i2==0||i1==4*strips||i2==4*strips||i1%4==0||i2%4==0||(fr[k]==0&&sh<ns); 
        check(mn>-1e-13,"negative weight %g at pane %d (%d,%d) shell %d+%g",mn,pane,i1,i2,sh,fr[k]);
        if(out) { check(nn(v)==0,"point outside the grid contributes %g",sum); continue; } if(edge) { check(fabs(sum-1)<1e-12||nn(v)==0,"outer boundary: sum of weights %g",sum); if(nn(v)==0) continue; }
        if(!check(fabs(sum-1)<1e-12,"sum of weights %.15g at pane %d (%d,%d) shell %d+%g",sum,pane,i1,i2,sh,fr[k])) continue;
        if(N==0) { if(!check(nn(v)==1,"%d cells contain the point",nn(v))) continue; int q=0; while(v[q]==0) q++;
            if(!face&&!edge) { // the cell's centre (from the name) must be in the same pane, strips and shell
                double C[3]={node[q].x,node[q].y,node[q].z}, rc=sqrt(C[0]*C[0]+C[1]*C[1]+C[2]*C[2]); double b1=atan(C[(pane+1)%3]/C[pane])*4/M_PI*strips, b2=atan(C[(pane+2)%3]/C[pane])*4/M_PI*strips;
                check((int)(b1+1e-9)==i1/4&&(int)(b2+1e-9)==i2/4&&rc>=r0&&rc<=r1&&b1<strips&&b2<strips,"pane %d (%d,%d) shell %d goes to the cell %s",pane,i1,i2,sh,t.coefName(q).c_str()); } }
        else { // four corner directions with bilinear weights, two shells
            V e(n,0.); double s1=a1*strips,s2=a2*strips; int j1=std::min((int)s1,strips-1),j2=std::min((int)s2,strips-1); double f1=s1-j1,f2=s2-j2; double fk=(r-r0)/(r1-r0); if(edge) { fk=1; r1=g[ns-1]; r0=ns>1?g[ns-2]:0; }
            for(int c1=0;c1<2;c1++) for(int c2=0;c2<2;c2++) for(int cr=0;cr<2;cr++) { double w=(c1?f1:1-f1)*(c2?f2:1-f2)*(cr?fk:1-fk); if(w==0) continue; double rr=cr?r1:r0; double d[3]={1,tan(M_PI/4*(j1+c1)/strips),tan(M_PI/4*(j2+c2)/strips)},nd=sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]),D[3]; for(int q=0;q<3;q++) D[(q+pane)%3]=d[q]*rr/nd;
                int best=-1; for(int q=0;q<n;q++) if(fabs(node[q].x-D[0])+fabs(node[q].y-D[1])+fabs(node[q].z-D[2])<2e-4*(1e-3+rr)+ (rr==0?1e-12:0)) { best=q; break; } if(!check(best>=0,"no basis function at the node %g %g %g",D[0],D[1],D[2])) break; e[best]+=w; }
            double d=maxdiff(e,v); check(d<1e-11,"weights differ from trilinear interpolation by %g at pane %d (%d,%d) shell %d+%g",d,pane,i1,i2,sh,sh<ns?fr[k]:0); } }
    generic(t,all,0);
    V x,w; gl(10,x,w);
    for(int di=-1;di<4;di++) { if(di==3) continue; potential::PtrDensity dn= di<0?potential::PtrDensity(new Unif()):mkd(di); V ref(n,0.); double vol=0;
        // independent quadrature: in the angles of each cell and radius of each shell (10 points each)
        for(int pane=0;pane<3;pane++) for(int j1=0;j1<strips;j1++) for(int j2=0;j2<strips;j2++) for(int sh=0;sh<ns;sh++) for(int a=0;a<10;a++) for(int b=0;b<10;b++) for(int c=0;c<10;c++) {
            double r0=sh?g[sh-1]:0,r1=g[sh],r=r0+(r1-r0)*x[c]; double u1=(j1+x[a])/strips,u2=(j2+x[b])/strips, d1=tan(M_PI/4*u1),d2=tan(M_PI/4*u2), q=1+d1*d1+d2*d2; double jac=8*r*r*(r1-r0)*w[c]*w[a]*w[b]*(M_PI/4/strips)*(M_PI/4/strips)*(1+d1*d1)*(1+d2*d2)/(q*sqrt(q)); double C[3]={1,d1,d2},X[3]; for(int k=0;k<3;k++) X[(k+pane)%3]=C[k]*r/sqrt(q);
            double xx[3]={X[0]*A[0],X[1]*A[1],X[2]*A[2]}; double rho=dn->density(coord::PosCar(xx[0],xx[1],xx[2])); t.addPoint(xx,jac*rho,&ref[0]); vol+=jac; S.transitions++; }
        double rm=g.back(); if(di<0) check(fabs(vol/(4./3*M_PI*rm*rm*rm)-1)<1e-9,"volume");
        V got=t.computeDensityProjection(*dn); cmpproj(fmt("density %d",di).c_str(),t,ref,got,strips==1?5e-3:2e-3); double sm=0; for(int k=0;k<n;k++) sm+=got[k];
        if(di==0&&ay==1&&az==1) { double a=.8,m=1.5*pow(1+a*a/(rm*rm),-1.5); check(fabs(sm/m-1)<1e-3,"total mass %g instead of %g",sm,m); }
        if(di<0) check(fabs(sm/(4./3*M_PI*rm*rm*rm)-1)<1e-3,"total volume %g",sm); }
    outcome(fmt("c%d %d %d",N,strips,ns)); }
// ---- spherical-harmonic grid
static void sphharm(const V& gr,int lmax,int mmax) {
    if(!begin(fmt("sphharm shells=%d..%g zero=%d l=%d m=%d",(int)gr.size(),gr.back(),(int)(gr[0]==0),lmax,mmax))) return;
    galaxymodel::TargetDensitySphHarm t(lmax,mmax,gr); V g(gr); if(g[0]==0) g.erase(g.begin()); int ns=g.size(), n=t.numValues(), L=lmax/2*2,M=mmax/2*2; int na=0; for(int m=0;m<=M;m+=2) for(int l=m;l<=L;l+=2) na++; if(!check(n==na*ns+1,"number of values %d instead of %d",n,na*ns+1)) return;
    std::vector<V> nm(n,V(3)); for(int k=0;k<n;k++) parse3(t.coefName(k),&nm[k][0]); std::vector<P3> all;
    static const double TH[]={0,.3,.7,M_PI/2,2,M_PI}, PH[]={0,.4,1,M_PI/2,2.2,4}; V fr=mk(0,.25,.5,.875);
    for(int it=0;it<6;it++) for(int ip=0;ip<6;ip++) for(int sh=0;sh<=ns;sh++) for(int k=0;k<(sh==ns?2:4);k++) { double r0=sh==0?0:g[sh-1], r1=sh<ns?g[sh]:g[ns-1]*1.5, r=r0+(r1-r0)*(sh==ns?.5*k:fr[k]); double th=TH[it],ph=PH[ip]; P3 p={r*(it==0||it==5?0:sin(th))*cos(ph),r*(it==0||it==5?0:sin(th))*sin(ph),it==3?0:r*cos(th)}; if((it+ip+k)%3==0) all.push_back(p); V v=eval(t,p); S.states++; S.transitions++;
        double sum=0; for(int q=0;q<n;q++) if(nm[q][1]==0) { sum+=v[q]; check(v[q]>=-1e-14,"negative monopole weight"); } if(sh==ns&&k) { check(nn(v)==0,"outside"); continue; } if(sh==ns) { check(nn(v)==0||fabs(sum-1)<1e-12,"boundary"); if(nn(v)==0) continue; }
        check(fabs(sum-1)<1e-12,"sum of monopole weights %g",sum);
        for(int q=0;q<n;q++) { int l=nm[q][1],m=nm[q][2]; int kr=0; if(nm[q][0]>0) { for(int z=0;z<ns;z++) if(fabs(g[z]-nm[q][0])<1e-4*g[z]) kr=z+1; if(!check(kr>0,"name %s",t.coefName(q).c_str())) return; } double h= kr==0? (r<g[0]?1-r/g[0]:0) : hat(g,kr,r); double cth=r>0?p.z/r:1; double rr=hypot(p.x,p.y); double cphi=rr>0?cos(m*atan2(p.y,p.x)):(m==0); if(r==0) h=kr==0; double e=h*legP(l,m,cth)*sqrt(4*M_PI)*(m?M_SQRT2*cphi:1); if(r==0&&l>0) e=0;
            if(!check(fabs(e-v[q])<1e-11,"weight of %s at r=%g theta=%g phi=%g is %.12g instead of %.12g",t.coefName(q).c_str(),r,th,ph,v[q],e)) break; } }
    generic(t,all,1);
    V x,w; gl(12,x,w);
    for(int di=-1;di<3;di++) { potential::PtrDensity dn= di<0?potential::PtrDensity(new Unif()):mkd(di); V ref(n,0.); const int NC=14,NP=32; V cx,cw; gl(NC,cx,cw);
        for(int sh=0;sh<ns;sh++) for(int c=0;c<12;c++) for(int a=0;a<NC;a++) for(int b=0;b<NP;b++) { double r0=sh?g[sh-1]:0,r1=g[sh],r=r0+(r1-r0)*x[c],ct=cx[a],st=sqrt(1-ct*ct),ph=2*M_PI*(b+.5)/NP; double xx[3]={r*st*cos(ph),r*st*sin(ph),r*ct}; t.addPoint(xx,4*M_PI*r*r*(r1-r0)*w[c]*cw[a]/NP*dn->density(coord::PosCar(xx[0],xx[1],xx[2])),&ref[0]); S.transitions++; }
        V got=t.computeDensityProjection(*dn); cmpproj(fmt("density %d",di).c_str(),t,ref,got,2e-3);
        double sm=0,rm=g.back(); for(int q=0;q<n;q++) if(nm[q][1]==0) sm+=got[q]; if(di==0) { double m=1.5*pow(1+.64/(rm*rm),-1.5); check(fabs(sm/m-1)<1e-3,"total mass %g instead of %g",sm,m); } }
    outcome(fmt("s%d %d %d",lmax,mmax,ns)); }
// ---- cylindrical grid
template<int N> static void cylindrical(const V& gR,const V& gz,int mmax) {
    if(!begin(fmt("cyl%d R=%d..%g z=%d..%g zero=%d%d m=%d",N,(int)gR.size(),gR.back(),(int)gz.size(),gz.back(),(int)(gR[0]==0),(int)(gz[0]==0),mmax))) return;
    galaxymodel::TargetDensityCylindrical<N> t(mmax,gR,gz); V g(gR),h(gz); if(g[0]==0) g.erase(g.begin()); if(h[0]==0) h.erase(h.begin()); int nR=g.size(),nz=h.size(),n=t.numValues(),M=mmax/2; int exp=N==0?nR*nz*(M+1):(nz+1)*(nR+1)+M*nR*(nz+1); if(!check(n==exp,"number of values %d instead of %d",n,exp)) return;
    std::vector<V> nm(n,V(3)); for(int k=0;k<n;k++) parse3(t.coefName(k),&nm[k][0]); std::vector<P3> all; V fr=mk(0,.25,.5,.875); static const double PH[]={0,.4,1,M_PI/2,2.2,4};
    for(int iR=0;iR<=nR;iR++) for(int kR=0;kR<(iR==nR?2:4);kR++) for(int iz=0;iz<=nz;iz++) for(int kz=0;kz<(iz==nz?2:4);kz++) for(int ip=0;ip<12;ip++) {
        double R0=iR?g[iR-1]:0,R1=iR<nR?g[iR]:g[nR-1]*1.5,z0=iz?h[iz-1]:0,z1=iz<nz?h[iz]:h[nz-1]*1.5; double R=R0+(R1-R0)*(iR==nR?.5*kR:fr[kR]),z=z0+(z1-z0)*(iz==nz?.5*kz:fr[kz]),ph=PH[ip%6]; bool onax=ip%6==0||ip%6==3; P3 p={ip%6==3?0:R*cos(ph),ip%6==0?0:R*sin(ph),ip<6?z:-z}; (void)onax; if((iR+kR+iz+kz+ip)%5==0) all.push_back(p);
        V v=eval(t,p); S.states++; S.transitions++; bool out=(iR==nR&&kR)||(iz==nz&&kz), edge=iR==nR||iz==nz; if(out) { check(nn(v)==0,"point outside contributes"); continue; } if(edge) { double s=0; for(int q=0;q<n;q++) if(nm[q][2]==0) s+=v[q]; check(nn(v)==0||fabs(s-1)<1e-12,"boundary: %g",s); continue; }
        double sum=0; int cnt=0; for(int q=0;q<n;q++) if(nm[q][2]==0) { sum+=v[q]; cnt+=v[q]!=0; check(v[q]>=-1e-14,"negative weight"); } if(!check(fabs(sum-1)<1e-12,"sum of weights %g at R=%g z=%g",sum,R,z)) continue; if(N==0) check(cnt==1,"%d cells",cnt);
        double Rr=hypot(p.x,p.y), phi=atan2(p.y,p.x); bool face=kR==0||kz==0;
        for(int q=0;q<n;q++) { int m=nm[q][2]; double e; if(N==0) { if(face) break; e=nm[q][0]>R0&&nm[q][0]<R1&&nm[q][1]>z0&&nm[q][1]<z1; } else { int kr=0,kzz=0; for(int a=0;a<nR;a++) if(fabs(g[a]-nm[q][0])<1e-4*g[a]) kr=a+1; for(int a=0;a<nz;a++) if(fabs(h[a]-nm[q][1])<1e-4*h[a]) kzz=a+1; double a= kr==0?(Rr<g[0]?1-Rr/g[0]:0):hat(g,kr,Rr), b=kzz==0?(z<h[0]?1-z/h[0]:0):hat(h,kzz,z); e=a*b; if(m>0&&kr==0) { check(false,"unexpected coefficient %s",t.coefName(q).c_str()); break; } }
            if(m) e*=2*cos(m*phi); if(!check(fabs(e-v[q])<1e-11,"weight of %s at R=%g z=%g phi=%g is %.12g instead of %.12g",t.coefName(q).c_str(),R,z,ph,v[q],e)) break; } }
    generic(t,all,2);
    V x,w; gl(10,x,w);
    for(int di=-1;di<3;di++) { potential::PtrDensity dn= di<0?potential::PtrDensity(new Unif()):mkd(di); V ref(n,0.); const int NP=32;
        for(int iR=0;iR<nR;iR++) for(int a=0;a<10;a++) for(int iz=0;iz<nz;iz++) for(int b=0;b<10;b++) for(int c=0;c<NP;c++) { double R0=iR?g[iR-1]:0,R1=g[iR],z0=iz?h[iz-1]:0,z1=h[iz],R=R0+(R1-R0)*x[a],z=z0+(z1-z0)*x[b],ph=2*M_PI*(c+.5)/NP; double xx[3]={R*cos(ph),R*sin(ph),z}; t.addPoint(xx,2*2*M_PI*R*(R1-R0)*w[a]*(z1-z0)*w[b]/NP*dn->density(coord::PosCar(xx[0],xx[1],xx[2])),&ref[0]); S.transitions++; }
        V got=t.computeDensityProjection(*dn); cmpproj(fmt("density %d",di).c_str(),t,ref,got,2e-3); double sm=0; for(int q=0;q<n;q++) if(nm[q][2]==0) sm+=got[q]; if(di<0) { double e=2*M_PI*g.back()*g.back()*h.back(); check(fabs(sm/e-1)<1e-9,"total volume %g instead of %g",sm,e); } }
    outcome(fmt("y%d %d %d %d",N,nR,nz,mmax)); }
// ---- constructors with every invalid grid; orbits; distribution function
static void misc() {
    if(begin("invalid")) { V good=mk(0,1,2); V bad[]={V(),mk(0),mk(1,1),mk(2,1),mk(0,3,2),mk(0,1,1),mk(0,2,1),mk(1,1,2),mk(1,NAN),mk(0,NAN,2),mk(-1,-.5),mk(0,0,1)};
        #define THROWS(X,...) { bool inv=false; try { X; } catch(std::invalid_argument&) { inv=true; } catch(std::exception&) {} S.transitions++; check(inv,__VA_ARGS__); }
        for(int i=0;i<12;i++) { THROWS(galaxymodel::TargetDensityClassic<0>(2,bad[i]),"classic grid %d accepted",i) THROWS(galaxymodel::TargetDensityClassic<1>(2,bad[i]),"classic grid %d accepted",i) THROWS(galaxymodel::TargetDensitySphHarm(2,2,bad[i]),"sphharm grid %d accepted",i) THROWS(galaxymodel::TargetDensityCylindrical<0>(0,bad[i],good),"cyl R grid %d accepted",i) THROWS(galaxymodel::TargetDensityCylindrical<1>(0,good,bad[i]),"cyl z grid %d accepted",i) }
        THROWS(galaxymodel::TargetDensityClassic<0>(0,good),"zero strips") double ax[]={0,-1}; for(int i=0;i<2;i++) { THROWS(galaxymodel::TargetDensityClassic<0>(2,good,ax[i],1),"axis %g",ax[i]) THROWS(galaxymodel::TargetDensityClassic<1>(2,good,1,ax[i]),"axis %g",ax[i]) }
        THROWS(galaxymodel::TargetDensitySphHarm(-1,0,good),"lmax<0") THROWS(galaxymodel::TargetDensitySphHarm(2,-1,good),"mmax<0") THROWS(galaxymodel::TargetDensitySphHarm(2,4,good),"mmax>lmax") THROWS(galaxymodel::TargetDensityCylindrical<0>(-1,good,good),"mmax<0") }
    // an orbit: the values recorded are the time-averaged weights
    V g=mk(.5,1,2,4); std::shared_ptr<galaxymodel::BaseTargetDensity> T[5]={std::shared_ptr<galaxymodel::BaseTargetDensity>(new galaxymodel::TargetDensityClassic<0>(2,g)),std::shared_ptr<galaxymodel::BaseTargetDensity>(new galaxymodel::TargetDensityClassic<1>(2,g,.9,.8)),std::shared_ptr<galaxymodel::BaseTargetDensity>(new galaxymodel::TargetDensitySphHarm(4,2,g)),std::shared_ptr<galaxymodel::BaseTargetDensity>(new galaxymodel::TargetDensityCylindrical<0>(2,g,g)),std::shared_ptr<galaxymodel::BaseTargetDensity>(new galaxymodel::TargetDensityCylindrical<1>(4,g,g))};
    static const double IC[4][6]={{1,0,0,0,.5,.3},{.3,.2,.1,.1,0,0},{0,0,1,.4,0,0},{1.9,0,.2,0,.9,0}};
    for(int k=0;k<5;k++) for(int o=0;o<4;o++) for(int parts=1;parts<=3;parts++) { if(!begin(fmt("orbit %d %d parts=%d",k,o,parts))) continue; potential::PtrPotential pot=potential::createPotential(utils::KeyValueMap("type=Plummer mass=1 scaleRadius=.7")); int n=T[k]->numCoefs(); std::vector<float> out(n+2,-7.f); V ref(n,0.); double tot=0;
        orbit::OrbitIntParams prm; { orbit::OrbitIntegrator<coord::Car> oi(*pot,0,prm); oi.addRuntimeFnc(orbit::PtrRuntimeFnc(new galaxymodel::RuntimeFncTarget(oi,*T[k],&out[1])));
            struct Rec: orbit::BaseRuntimeFnc { const galaxymodel::BaseTarget& t; V& r; double& tot; Rec(orbit::BaseOrbitIntegrator& o,const galaxymodel::BaseTarget& _t,V& _r,double& _tot):BaseRuntimeFnc(o),t(_t),r(_r),tot(_tot){} bool processTimestep(double a,double b) { for(int s=0;s<10;s++) { double x[6]; orbint.getSol(a+(b-a)*(s+.5)/10).unpack_to(x); t.addPoint(x,(b-a)/10,&r[0]); } tot+=b-a; return true; } };
            oi.addRuntimeFnc(orbit::PtrRuntimeFnc(new Rec(oi,*T[k],ref,tot))); oi.init(coord::PosVelCar(IC[o])); for(int p=0;p<parts;p++) oi.run(12./parts); }
        double d=0; for(int q=0;q<n;q++) d=fmax(d,fabs(out[q+1]-ref[q]/tot)); S.states++; check(d<1e-6&&out[0]==-7&&out[n+1]==-7&&fabs(tot-12)<1e-9,"recorded values differ from the time-averaged weights by %g (time %g)",d,tot); }
    }
int main(int argc,char**argv) { init(argc,argv);  bool th=thorough();
    V G[]={mk(1),mk(0,1),mk(.5,1.25),mk(0,.5,1,3),mk(.3,.8,1.5,2.5)};
    static const double AX[][2]={{1,1},{.8,.5},{1.5,.7},{1,.25}};
    for(int i=0;i<5;i++) for(int s=1;s<=(th?5:3);s++) for(int a=0;a<4;a++) { classic<0>(G[i],s,AX[a][0],AX[a][1]); classic<1>(G[i],s,AX[a][0],AX[a][1]); }
    for(int i=0;i<5;i++) for(int l=0;l<=(th?9:6);l++) for(int m=0;m<=l;m++) sphharm(G[i],l,m);
    for(int i=0;i<5;i++) for(int j=0;j<5;j++) for(int m=0;m<=(th?6:4);m++) { cylindrical<0>(G[i],G[j],m); cylindrical<1>(G[i],G[j],m); }
    misc(); return finish(); }
