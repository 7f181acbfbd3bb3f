// M07: spherical-harmonic and Fourier transforms, index schemes, Legendre and trigonometric arrays.
#include "vh.h"
#include "math_sphharm.h"
#include <algorithm>
using namespace math; using namespace vh;
typedef long double LD; typedef std::vector<double> V;
static const LD PI=acosl(-1.L);
// normalised W_l^m in long double for given cos, sin (Condon-Shortley phase), any sign of m
struct Leg { int lmax; std::vector<LD> w; Leg(int L, LD ct, LD st): lmax(L), w((L+1)*(L+1)) {
    LD pmm=sqrtl(1/(4*PI)); for(int m=0;m<=L;m++) { if(m) pmm*=-st*sqrtl((2*m+1.L)/(2*m)); at(m,m)=pmm; if(m<L) at(m+1,m)=ct*sqrtl(2*m+3.L)*pmm;
        for(int l=m+2;l<=L;l++) { LD a=sqrtl((4.L*l*l-1)/((LD)l*l-(LD)m*m)), b=sqrtl(((l-1.L)*(l-1.L)-(LD)m*m)/(4*(l-1.L)*(l-1.L)-1)); at(l,m)=a*(ct*at(l-1,m)-b*at(l-2,m)); } } }
    LD& at(int l,int m) { return w[l*(lmax+1)+m]; }
    LD g(int l,int m) const { if(abs(m)>l) return 0; LD x=w[l*(lmax+1)+abs(m)]; return m<0&&(m&1)?-x:x; }
    LD d(int l,int m) const { return -0.5L*(sqrtl((LD)(l+m)*(l-m+1))*g(l,m-1)-sqrtl((LD)(l-m)*(l+m+1))*g(l,m+1)); }
    LD d2(int l,int m) const { LD a= m-1>=-l? sqrtl((LD)(l+m)*(l-m+1))*d(l,m-1):0, b= m+1<=l? sqrtl((LD)(l-m)*(l+m+1))*d(l,m+1):0; return -0.5L*(a-b); } };
static void legendre() {
    int L=thorough()?64:32;
    std::vector<double> taus; double e[]={0,1e-300,1e-17,1e-12,1e-9,3e-9,4.9e-9,5.1e-9,1e-8,3e-8,1e-7,1e-6,1e-5,1e-4,1e-3,.01,.03,.1,.2,.3,.41421356237309503,.5,.6,.7,.8,.9,.95,.99};
    for(size_t i=0;i<sizeof e/sizeof*e;i++) for(int s=-1;s<=1;s+=2) { taus.push_back(s*e[i]); taus.push_back(s*(1-e[i])); }
    for(size_t it=0;it<taus.size();it++) for(int m=0;m<=L;m++) {
        double tau=taus[it]; if(!begin(fmt("legendre tau=%.17g m=%d",tau,m))) continue;
        LD t=tau, ct=2*t/(1+t*t), st=(1-t)*(1+t)/(1+t*t); Leg R(L,ct,st); outcome(fmt("leg%d%d",m>2?3:m, st<1e-8?0:st<1e-4?1:2));
        V v(L-m+1,-7.),d(L-m+1,-7.),d2(L-m+1,-7.),v1(v),v2(v),dd(v);
        sphHarmArray(L,m,tau,&v[0],&d[0],&d2[0]); sphHarmArray(L,m,tau,&v1[0]); sphHarmArray(L,m,tau,&v2[0],&dd[0]);
        check(v==v1&&v==v2&&d==dd,"results depend on the set of requested outputs");
        for(int l=m;l<=L;l++) { int i=l-m; LD a=R.g(l,m),b=R.d(l,m),c=R.d2(l,m);
            double s=fmax((double)st,1e-8), tv=2e-14*(1+l), td=tv*(1+l)+(st<1e-8?0:4e-16*(1+l)*(1+l)/s), td2=tv*(1+l)*(1+l)+(st<1e-8? 1e-7*l*l*l : 1e-15*(1+l)*(1+l)/s*(1+l));
            if(st>0&&st<1e-8) td=fmax(td,1e-15*l*l*l);
            check(fabsl(v[i]-a)<=tv*(1+fabsl(a)),"W_%d^%d = %.16g, exact %.16Lg",l,m,v[i],a);
            check(fabsl(d[i]-b)<=td*(1+fabsl(b)),"dW_%d^%d = %.16g, exact %.16Lg",l,m,d[i],b);
            check(fabsl(d2[i]-c)<=td2*(1+fabsl(c)),"d2W_%d^%d = %.16g, exact %.16Lg",l,m,d2[i],c); 
            S.extra["err_value"]=fmax(S.extra["err_value"],(double)fabsl(v[i]-a)); }
        // truncated arrays are prefixes
        for(int l=m;l<=std::min(m+3,L);l++) { V p(l-m+1),q(l-m+1),r(l-m+1); sphHarmArray(l,m,tau,&p[0],&q[0],&r[0]); bool ok=true; for(int i=0;i<=l-m;i++) ok&=p[i]==v[i]&&q[i]==d[i]&&r[i]==d2[i]; check(ok||l==0,"values depend on lmax: l=%d",l); if(l==0) check(fabsl(p[0]-R.g(0,0))<1e-16,"W00"); }
    }
    for(int k=-40;k<=40;k++) for(int sine=0;sine<2;sine++) { double phi=k*0.4L; if(!begin(fmt("trig phi=%g sine=%d",phi,sine))) continue;
        for(int ip=0;ip<4;ip++) { double p= ip==0?phi: ip==1? k*M_PI/4 : ip==2? k*1e-9 : k*25.; for(int m=1;m<=32;m++) { V o(2*m,-7.); trigMultiAngle(p,m,sine,&o[0]); bool ok=true; for(int j=1;j<=m;j++) { ok&=fabsl(o[j-1]-cosl(j*(LD)p))<(1e-14+4e-16*fabs(p))*j; if(sine) ok&=fabsl(o[m+j-1]-sinl(j*(LD)p))<(1e-14+4e-16*fabs(p))*j; else ok&=o[m+j-1]==-7; } check(ok,"m=%d phi=%.17g",m,p); } } outcome("trig"); }
}
// sign of a real harmonic under the reflections
static bool allowed(int sym,int l,int m) { int am=abs(m); bool odd=am&1;
    if((sym&coord::ST_XREFLECTION) && (m>=0?odd:!odd)) return false; if((sym&coord::ST_YREFLECTION)&&m<0) return false;
    if((sym&coord::ST_ZREFLECTION)&&((l+am)&1)) return false; if((sym&coord::ST_REFLECTION)&&(l&1)) return false; return true; }
static std::vector<int> syms() { std::vector<int> r; int b[4]={coord::ST_XREFLECTION,coord::ST_YREFLECTION,coord::ST_ZREFLECTION,coord::ST_REFLECTION}; for(int k=0;k<16;k++) { int s=0; for(int i=0;i<4;i++) if(k>>i&1) s|=b[i]; r.push_back(s); } r.push_back(coord::ST_AXISYMMETRIC); r.push_back(coord::ST_SPHERICAL); r.push_back(coord::ST_ZROTATION|coord::ST_XREFLECTION|coord::ST_YREFLECTION); return r; }
static LD ref(int lmax,const V& C,LD ct,LD st,LD phi) { Leg R(lmax,ct,st); LD s=0; for(int l=0;l<=lmax;l++) for(int m=-l;m<=l;m++) { double c=C[l*(l+1)+m]; if(c!=0) s+=c*R.g(l,abs(m))*2*sqrtl(PI)*(m==0?1:sqrtl(2)*(m>0?cosl(m*phi):sinl(-m*phi))); } return s; }
static void transforms() {
    std::vector<int> sy=syms(); int L=thorough()?12:7;
    for(size_t is=0;is<sy.size();is++) for(int lmax=0;lmax<=L;lmax++) for(int mmax=0;mmax<=lmax;mmax++) {
        int sym=sy[is]; if(is>=16&&mmax>0) continue; if(!begin(fmt("transform sym=%d lmax=%d mmax=%d",sym,lmax,mmax))) continue;
        bool bad=(sym&7)==7&&!(sym&8)&&coord::ST_XREFLECTION+coord::ST_YREFLECTION+coord::ST_ZREFLECTION==7;
        bool xyz=(sym&coord::ST_XREFLECTION)&&(sym&coord::ST_YREFLECTION)&&(sym&coord::ST_ZREFLECTION)&&!(sym&coord::ST_REFLECTION); (void)bad;
        bool thr=false; try { SphHarmIndices x(lmax,mmax,(coord::SymmetryType)sym); } catch(std::invalid_argument&) { thr=true; }
        check(thr==xyz,"inconsistent symmetry accepted or a valid one rejected"); if(thr) continue;
        SphHarmIndices ind(lmax,mmax,(coord::SymmetryType)sym); check(ind.size()==(unsigned)(lmax+1)*(lmax+1),"size");
        std::set<int> act; for(int m=ind.mmin();m<=ind.mmax;m++) for(int l=ind.lmin(m);l<=ind.lmax;l+=ind.step) act.insert(SphHarmIndices::index(l,m));
        for(int l=0;l<=lmax;l++) for(int m=-l;m<=l;m++) { bool want=abs(m)<=mmax&&allowed(sym,l,m); check(want==(bool)act.count(l*(l+1)+m),"term l=%d m=%d is %s by the index scheme",l,m,want?"skipped":"kept"); }
        std::vector<int> az=getIndicesAzimuthal(mmax,(coord::SymmetryType)sym), wa; std::set<int> sa(az.begin(),az.end()), sw; 
        for(int m=-mmax;m<=mmax;m++) { bool u=false; for(int l=abs(m);l<=abs(m)+1;l++) u|=allowed(sym,l,m); if(u||m==0) sw.insert(m); } check(sa==sw&&sa.size()==az.size(),"list of azimuthal harmonics");
        SphHarmTransformForward T(ind); int N=T.size(); V x(N); 
        std::vector<V> fam; for(std::set<int>::iterator c=act.begin();c!=act.end();++c) { V C(ind.size(),0.); C[*c]=1; fam.push_back(C); }
        V all(ind.size(),0.); for(std::set<int>::iterator c=act.begin();c!=act.end();++c) all[*c]=((*c*7)%11)-4.5; fam.push_back(all);
        for(size_t f=0;f<fam.size();f++) for(int stride=1;stride<=(f+1==fam.size()?3:1);stride++) { const V& C=fam[f];
            V val((N-1)*stride+1,NAN); for(int i=0;i<N;i++) { LD ct=T.costheta(i); val[i*stride]=(double)ref(lmax,C,ct,sqrtl((1-ct)*(1+ct)),T.phi(i)); }
            V out(ind.size(),NAN); T.transform(&val[0],&out[0],stride);
            for(size_t k=0;k<out.size();k++) { if(!act.count(k)&&lmax>0) check(out[k]==0,"excluded coefficient #%zu = %g",k,out[k]); else check(fabs(out[k]-C[k])<1e-13*(1+lmax)*(f+1==fam.size()?10:1),"transform of the harmonic set %zu (stride %d): coefficient #%zu = %.15g instead of %g",f,stride,k,out[k],C[k]); }
            static const double ta[]={-1,-.999999,-.7,-.2,0,.1,.5,1}, ph[]={0,.3,1.5707963267948966,2.5,3.1415926535897931,4,-1.2,100};
            if(stride==1) for(int a=0;a<8;a++) for(int b=0;b<8;b++) { LD t=ta[a]; double r=sphHarmTransformInverse(ind,&C[0],ta[a],ph[b]); LD w=ref(lmax,C,2*t/(1+t*t),(1-t*t)/(1+t*t),ph[b]); check(fabsl(r-w)<1e-13*(1+lmax)*(1+lmax)*(f+1==fam.size()?20:1),"synthesis of %zu at tau=%g phi=%g: %.15g, exact %.15Lg",f,ta[a],ph[b],r,w); }
        }
        outcome(fmt("tr%d%d%d",sym,lmax&1,mmax>0)); S.states++;
    }
    for(int mmax=0;mmax<=12;mmax++) for(int sine=0;sine<2;sine++) for(int stride=1;stride<=3;stride++) { if(!begin(fmt("fourier %d %d %d",mmax,sine,stride))) continue;
        FourierTransformForward F(mmax,sine); int N=F.size(); check(N==(sine?2*mmax+1:mmax+1),"size"); for(int m=sine?-mmax:0;m<=mmax;m++) { V val((N-1)*stride+1,NAN),out(N,NAN); for(int i=0;i<N;i++) { LD p=F.phi(i); check(p>=0&&p<(sine?2*PI:PI),"node"); val[i*stride]=m>=0?cosl(m*p):sinl(-m*p); } F.transform(&val[0],&out[0],stride);
            for(int k=0;k<N;k++) { int mm=sine?k-mmax:k; double w=mm==m?(m==0?2*M_PI:M_PI):0; check(fabs(out[k]-w)<1e-13*(1+mmax),"harmonic %d: coefficient %d is %g",m,mm,out[k]); } } outcome("fourier"); }
    // indices from coefficients: for every subset of at most two nonzero terms (three in thorough mode), the scheme keeps all nonzero terms and its symmetry is exactly what they have in common
    int LL=thorough()?5:4, n=(LL+1)*(LL+1);
    for(int a=-1;a<n;a++) { if(!begin(fmt("coefs first=%d",a))) continue; for(int b=a;b<n;b++) for(int c=b;c<n;c++) { if(!thorough()&&c!=b&&b!=a&&(c%3)) continue; V C(n,0.); if(a>=0) C[a]=1e-300; if(b>=0) C[b]=-2; if(c>=0) C[c]=3;
        SphHarmIndices ind=getIndicesFromCoefs(C); int want=coord::ST_SPHERICAL, mm=0; check(ind.lmax==LL,"lmax"); 
        for(int k=0;k<n;k++) if(C[k]!=0) { int l=(int)sqrt(k+.5), m=k-l*(l+1); check(SphHarmIndices::index_l(k)==l&&SphHarmIndices::index_m(k)==m,"index decoding"); int bits[4]={coord::ST_XREFLECTION,coord::ST_YREFLECTION,coord::ST_ZREFLECTION,coord::ST_REFLECTION}; for(int i=0;i<4;i++) if(!allowed(bits[i],l,m)) want&=~bits[i]; if(m) { want&=~coord::ST_ZROTATION; mm=std::max(mm,abs(m)); } if(l) want&=~coord::ST_ROTATION; 
            check(l>=ind.lmin(m)&&(l-ind.lmin(m))%ind.step==0&&m>=ind.mmin(),"nonzero coefficient %d,%d is not represented",l,m); }
        check(ind.mmax==mm,"mmax=%d",ind.mmax); check((int)ind.symmetry()==want,"symmetry %d, expected %d",(int)ind.symmetry(),want); S.states++; } outcome("coefs"); }
    if(begin("index decoding")) for(int l=0;l<=2000;l++) for(int m=-l;m<=l;m+=(l<60?1:l)) { unsigned c=SphHarmIndices::index(l,m); check(SphHarmIndices::index_l(c)==l&&SphHarmIndices::index_m(c)==m,"l=%d m=%d",l,m); }
    if(begin("errors")) { int t=0; V c(5,1.); try{ getIndicesFromCoefs(c);}catch(std::invalid_argument&){t++;} c.resize(4); c[2]=NAN; try{ getIndicesFromCoefs(c);}catch(std::domain_error&){t++;} 
        try{ SphHarmIndices(2,3,coord::ST_NONE);}catch(std::invalid_argument&){t++;} try{ SphHarmIndices(-1,0,coord::ST_NONE);}catch(std::invalid_argument&){t++;} try{ SphHarmIndices(2,2,coord::ST_UNKNOWN);}catch(std::invalid_argument&){t++;} double r; try{ sphHarmArray(1,2,0,&r);}catch(std::domain_error&){t++;} check(t==6,"%d errors of 6",t); outcome("err"); }
}
int main(int c,char**v) { init(c,v); legendre(); transforms(); return finish(); }
