// M02: linear algebra against naive definitions, over all shapes, modes, small-integer matrices and storage orders.
#include "vh.h"
#include "math_linalg.h"
#include <algorithm>
using namespace math; using namespace vh;
typedef std::vector<double> V; typedef long double LD; typedef std::vector<std::vector<LD> > M;
static M mk(size_t r, size_t c, LD v=0) { return M(r, std::vector<LD>(c, v)); }
static Matrix<double> dense(const M& a, size_t c) { Matrix<double> m(a.size(), c); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<c;j++) m(i,j)=(double)a[i][j]; return m; }
static std::vector<Triplet> trip(const M& a) { std::vector<Triplet> t; for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[i].size();j++) if(a[i][j]!=0) t.push_back(Triplet(i,j,(double)a[i][j])); return t; }
// deterministic non-symmetric fill with zeros inside; "seed" changes pattern
static M filled(size_t r, size_t c, int seed) { M a=mk(r,c); for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) { int k=(int)((i*7+j*3+seed*5+(i*j)%3)%9)-4; a[i][j]=((i+2*j+seed)%4==1)?0:k*0.75L; } return a; }
static V fv(size_t n, int seed) { V v(n); for(size_t i=0;i<n;i++) v[i]=(double)((int)((i*5+seed*3)%7)-3)*0.5+0.25; return v; }
static M op(const M& a, size_t c, bool t) { if(!t) return a; M b=mk(c,a.size()); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<c;j++) b[j][i]=a[i][j]; return b; }
static M mul(const M& a, const M& b) { size_t c=b.empty()?0:b[0].size(); M r=mk(a.size(), c); for(size_t i=0;i<a.size();i++) for(size_t k=0;k<b.size();k++) for(size_t j=0;j<c;j++) r[i][j]+=a[i][k]*b[k][j]; return r; }
template<class T> static bool same(const T& m, const M& a, size_t c, double tol=1e-13) {
    if(m.rows()!=a.size()||m.cols()!=c) return false;
    for(size_t i=0;i<a.size();i++) for(size_t j=0;j<c;j++) { double x=m.at(i,j); if(!(fabsl(x-a[i][j])<=tol*(1+fabsl(a[i][j])))) return false; } return true; }
static std::string show(const IMatrix<double>& m) { std::string s=fmt("%zux%zu[",m.rows(),m.cols()); for(size_t i=0;i<m.rows();i++) { for(size_t j=0;j<m.cols();j++) s+=fmt("%g ",m.at(i,j)); s+="; "; } return s+"]"; }
static std::string showv(const V& v) { std::string s="("; for(size_t i=0;i<v.size();i++) s+=fmt("%g ",v[i]); return s+")"; }
static const double coefs[5]={0,1,-1,2,.5};
static const char* tn(bool t){return t?"T":"N";}

// ---- A: products
template<class MT> struct Mk; 
template<> struct Mk<Matrix<double> > { static Matrix<double> go(const M& a,size_t c){return dense(a,c);} static const char* n(){return "dense";} };
template<> struct Mk<SparseMatrix<double> > { static SparseMatrix<double> go(const M& a,size_t c){return SparseMatrix<double>(a.size(),c,trip(a));} static const char* n(){return "sparse";} };
template<class MT> static void gemm() {
    int mx=thorough()?4:3;
    for(int m=1;m<=mx;m++) for(int k=1;k<=mx;k++) for(int n=1;n<=mx;n++) for(int ta=0;ta<2;ta++) for(int tb=0;tb<2;tb++) for(int seed=0;seed<(thorough()?6:3);seed++) {
        if(!begin(fmt("gemm %s %d %d %d %s%s %d",Mk<MT>::n(),m,k,n,tn(ta),tn(tb),seed))) continue;
        M a=filled(ta?k:m, ta?m:k, seed), b=filled(tb?n:k, tb?k:n, seed+11), c0=filled(m,n,seed+5), p=mul(op(a,ta?m:k,ta),op(b,tb?k:n,tb));
        MT A=Mk<MT>::go(a,ta?m:k), B=Mk<MT>::go(b,tb?k:n);
        for(int ia=0;ia<5;ia++) for(int ib=0;ib<5;ib++) {
            M r=mk(m,n); for(int i=0;i<m;i++) for(int j=0;j<n;j++) r[i][j]=coefs[ia]*p[i][j]+coefs[ib]*c0[i][j];
            MT C=Mk<MT>::go(c0,n); blas_dgemm(ta?CblasTrans:CblasNoTrans, tb?CblasTrans:CblasNoTrans, coefs[ia],A,B,coefs[ib],C);
            check(same(C,r,n),"alpha=%g beta=%g result %s, C0=%s A=%s B=%s",coefs[ia],coefs[ib],show(C).c_str(),show(Mk<MT>::go(c0,n)).c_str(),show(A).c_str(),show(B).c_str());
        }
        check(same(A,a,ta?m:k)&&same(B,b,tb?k:n),"operands changed");
        outcome(fmt("gemm%s%d%d",Mk<MT>::n(),ta,tb));
        // incompatible sizes are reported
        bool thr=false; MT B2=Mk<MT>::go(mk(tb?n:k+1,tb?k+1:n),tb?k+1:n), C2=Mk<MT>::go(c0,n); try{ blas_dgemm(ta?CblasTrans:CblasNoTrans, tb?CblasTrans:CblasNoTrans,1,A,B2,1,C2);} catch(std::exception&){thr=true;} check(thr,"wrong inner size accepted");
    }
}
template<class MT> static void gemv1(const MT& A, const M& a, int r, int c, int t, int seed) {
    M o=op(a,c,t); int m=t?c:r, k=t?r:c; V x=fv(k,seed), y0=fv(m,seed+3);
    for(int ia=0;ia<5;ia++) for(int ib=0;ib<5;ib++) for(int nan=0;nan<2;nan++) {
        if(nan && coefs[ib]!=0) continue;
        V y=y0; if(nan) { y.assign(m,NAN); }
        blas_dgemv(t?CblasTrans:CblasNoTrans, coefs[ia],A,x,coefs[ib],y);
        bool ok=(int)y.size()==m;
        for(int i=0;i<m&&ok;i++) { LD s=0; for(int j=0;j<k;j++) s+=o[i][j]*x[j]; s=coefs[ia]*s+(coefs[ib]==0?0:coefs[ib]*(LD)y0[i]); ok&=fabsl(y[i]-s)<=1e-13*(1+fabsl(s)); }
        check(ok,"alpha=%g beta=%g nan=%d y0=%s x=%s -> %s A=%s",coefs[ia],coefs[ib],nan,showv(y0).c_str(),showv(x).c_str(),showv(y).c_str(),show(A).c_str());
    }
}
static M bandfill(int n,int b,int seed) { M a=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(abs(i-j)<=b) a[i][j]=((i*7+j*3+seed)%9)-3.5L; return a; }
static BandMatrix<double> mkband(const M& a,int b) { BandMatrix<double> B(a.size(),b,-77.); for(int i=0;i<(int)a.size();i++) for(int j=0;j<(int)a.size();j++) if(abs(i-j)<=b) B(i,j)=(double)a[i][j]; return B; }
static void gemv() {
    int mx=thorough()?6:4;
    for(int r=1;r<=mx;r++) for(int c=1;c<=mx;c++) for(int t=0;t<2;t++) for(int seed=0;seed<4;seed++) {
        if(!begin(fmt("gemv %d %d %s %d",r,c,tn(t),seed))) continue;
        M a=filled(r,c,seed); gemv1(dense(a,c),a,r,c,t,seed); gemv1(Mk<SparseMatrix<double> >::go(a,c),a,r,c,t,seed); outcome(fmt("gemv%d",t)); }
    for(int n=1;n<=8;n++) for(int b=0;b<n;b++) for(int t=0;t<2;t++) {
        if(!begin(fmt("gemv band %d %d %s",n,b,tn(t)))) continue;
        M a=bandfill(n,b,b+n); gemv1(mkband(a,b),a,n,n,t,n); for(int w=0;w<2;w++) { bool thr=false; V xx(n+w,1.),yy(n+1-w,1.); try{ blas_dgemv(t?CblasTrans:CblasNoTrans,1,mkband(a,b),xx,1,yy);} catch(std::length_error&){thr=true;} check(thr,"wrong vector size accepted"); } outcome(fmt("bandmv%d",t)); }
}
// ---- B: triangular
static void tri() {
    for(int n=1;n<=4;n++) for(int up=0;up<2;up++) for(int t=0;t<2;t++) for(int unit=0;unit<2;unit++) for(int seed=0;seed<3;seed++) {
        if(!begin(fmt("tri %d %s%s%s %d",n,up?"U":"L",tn(t),unit?"unit":"diag",seed))) continue;
        M full=mk(n,n), a=mk(n,n);   // the other triangle (and unit diagonal) contains garbage that must be ignored
        for(int i=0;i<n;i++) for(int j=0;j<n;j++) { full[i][j]=((i*5+j*11+seed*3)%7)-2.75L; if(i==j&&fabsl(full[i][j])<1) full[i][j]=2;
            a[i][j]= i==j ? (unit?1:full[i][j]) : ((up?j>i:j<i)?full[i][j]:0); }
        Matrix<double> A=dense(full,n); M o=op(a,n,t); V x=fv(n,seed), x0=x;
        blas_dtrmv(up?CblasUpper:CblasLower,t?CblasTrans:CblasNoTrans,unit?CblasUnit:CblasNonUnit,A,x);
        bool ok=true; for(int i=0;i<n;i++) { LD s=0; for(int j=0;j<n;j++) s+=o[i][j]*x0[j]; ok&=fabsl(s-x[i])<1e-12*(1+fabsl(s)); }
        check(ok,"dtrmv %s of %s -> %s",show(A).c_str(),showv(x0).c_str(),showv(x).c_str());
        for(int side=0;side<2;side++) for(int w=1;w<=3;w++) for(int ia=0;ia<5;ia++) {
            M b=side?filled(w,n,seed):filled(n,w,seed); int bc=side?n:w; Matrix<double> B=dense(b,bc);
            blas_dtrsm(side?CblasRight:CblasLeft,up?CblasUpper:CblasLower,t?CblasTrans:CblasNoTrans,unit?CblasUnit:CblasNonUnit,coefs[ia],A,B);
            M X=mk(B.rows(),B.cols()); for(size_t i=0;i<B.rows();i++) for(size_t j=0;j<B.cols();j++) X[i][j]=B(i,j);
            M back=side?mul(X,o):mul(o,X); ok=B.rows()==b.size()&&(int)B.cols()==bc; double mxx=1; for(size_t i=0;i<B.rows();i++) for(size_t j=0;j<B.cols();j++) mxx=fmax(mxx,fabs(B(i,j)));
            for(size_t i=0;i<b.size();i++) for(int j=0;j<bc;j++) ok&=fabsl(back[i][j]-coefs[ia]*b[i][j])<1e-11*mxx;
            check(ok,"dtrsm side=%d alpha=%g: A=%s B=%s -> %s",side,coefs[ia],show(A).c_str(),show(dense(b,bc)).c_str(),show(B).c_str());
        }
        outcome(fmt("tri%d%d%d",up,t,unit));
    }
}
// ---- C: decompositions of all small-integer matrices
static long det(const int* a,int n) { if(n==1) return a[0]; if(n==2) return (long)a[0]*a[3]-(long)a[1]*a[2];
    return (long)a[0]*(a[4]*a[8]-a[5]*a[7])-(long)a[1]*(a[3]*a[8]-a[5]*a[6])+(long)a[2]*(a[3]*a[7]-a[4]*a[6]); }
static double maxres(const M& a,const V& x,const V& b) { LD r=0; for(size_t i=0;i<a.size();i++) { LD s=0; for(size_t j=0;j<x.size();j++) s+=a[i][j]*x[j]; LD d=fabsl(s-b[i]); if(!(d<=r)) r=d; } return (double)r; }
static double maxabs(const V& x){double m=1;for(size_t i=0;i<x.size();i++)m=fmax(m,fabs(x[i]));return m;}
static void checkSVD(const M& a,size_t c,const V& b,const char* what) {
    size_t r=a.size(); Matrix<double> A=dense(a,c); SVDecomp D(A); SVDecomp D2(D), D3; D3=D2;
    Matrix<double> U=D3.U(), W=D.V(); V s=D2.S(); size_t k=std::min(r,c);
    bool ok=s.size()==k && U.rows()==r && W.rows()==c && U.cols()>=k && W.cols()>=k;
    if(!check(ok,"%s: shapes U %zux%zu V %zux%zu S %zu",what,U.rows(),U.cols(),W.rows(),W.cols(),s.size())) return;
    LD scale=1; for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) scale=std::max(scale,fabsl(a[i][j])); double tol=1e-13*scale*(r+c);
    for(size_t i=0;i<k;i++) ok&= s[i]>=0 && (i==0||s[i]<=s[i-1]);
    check(ok,"%s: singular values %s not sorted",what,showv(s).c_str());
    for(size_t i=0;i<r&&ok;i++) for(size_t j=0;j<c;j++) { LD t=0; for(size_t l=0;l<k;l++) t+=(LD)U(i,l)*s[l]*W(j,l); ok&=fabsl(t-a[i][j])<=tol; }
    check(ok,"%s: U S V^T does not reproduce %s",what,r<5?show(A).c_str():"");
    for(size_t p=0;p<k&&ok;p++) for(size_t q=0;q<k;q++) { LD u=0,w=0; for(size_t i=0;i<r;i++) u+=(LD)U(i,p)*U(i,q); for(size_t i=0;i<c;i++) w+=(LD)W(i,p)*W(i,q); ok&=fabsl(u-(p==q))<1e-12*(1+k)&&fabsl(w-(p==q))<1e-12*(1+k); }
    check(ok,"%s: singular vectors are not orthonormal (%s)",what,r<5?show(A).c_str():"");
    V x=D.solve(b); check(x.size()==c,"%s: solution length %zu",what,x.size()); if(x.size()!=c) return;
    // least squares: A^T (A x - b)=0 ; minimum norm: x orthogonal to the null space
    double smin=0; for(size_t i=0;i<k;i++) if(s[i]>1e-10*s[0]) smin=s[i]; double cond=smin>0?s[0]/smin:1;
    std::vector<LD> res(r); for(size_t i=0;i<r;i++) { res[i]=-b[i]; for(size_t j=0;j<c;j++) res[i]+=a[i][j]*x[j]; }
    for(size_t j=0;j<c;j++) { LD g=0; for(size_t i=0;i<r;i++) g+=a[i][j]*res[i]; ok&=fabsl(g)<=1e-11*cond*scale*scale*maxabs(x)*(r+c)+1e-11*scale*maxabs(b)*r; }
    check(ok,"%s: least-square condition violated: x=%s b=%s %s",what,c<6?showv(x).c_str():"",r<6?showv(b).c_str():"",r<5?show(A).c_str():"");
    LD inspan=0, tot=0; for(size_t j=0;j<c;j++) tot+=(LD)x[j]*x[j]; for(size_t l=0;l<k;l++) if(s[l]>1e-10*(s[0]>0?s[0]:1)) { LD d=0; for(size_t j=0;j<c;j++) d+=(LD)W(j,l)*x[j]; inspan+=d*d; }
    check(fabsl(inspan-tot)<=1e-9*(1+tot)*cond,"%s: solution %s is not of minimum norm; %s",what,c<6?showv(x).c_str():"",r<5?show(A).c_str():"");
}
static void checkQR(const M& a,size_t c,const char* what) {
    size_t r=a.size(); Matrix<double> A=dense(a,c); QRDecomp D(A); QRDecomp D2(D),D3; D3=D2; Matrix<double> Q,R; D3.QR(Q,R);
    LD scale=1; for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) scale=std::max(scale,fabsl(a[i][j]));
    bool ok=Q.rows()==r&&R.cols()==c&&Q.cols()==R.rows(); if(!check(ok,"%s: shapes Q %zux%zu R %zux%zu",what,Q.rows(),Q.cols(),R.rows(),R.cols())) return;
    for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) { LD t=0; for(size_t l=0;l<Q.cols();l++) t+=(LD)Q(i,l)*R(l,j); ok&=fabsl(t-a[i][j])<=1e-13*scale*(r+c); }
    check(ok,"%s: QR does not reproduce %s: Q=%s R=%s",what,r<5?show(A).c_str():"",r<5?show(Q).c_str():"",r<5?show(R).c_str():"");
    for(size_t i=0;i<R.rows();i++) for(size_t j=0;j<std::min(i,c);j++) ok&=R(i,j)==0; check(ok,"%s: R is not upper triangular",what);
    for(size_t p=0;p<Q.cols();p++) for(size_t q=0;q<Q.cols();q++) { LD u=0; for(size_t i=0;i<r;i++) u+=(LD)Q(i,p)*Q(i,q); ok&=fabsl(u-(p==q))<1e-13*(1+r); }
    check(ok,"%s: Q is not orthogonal",what);
}
static void decomp() {
    static const int e3[3]={-1,0,2}; static const int e5[5]={-3,-1,0,1,2};
    for(int n=1;n<=3;n++) { int nv = n==3 ? 3 : 5; const int* e = n==3 ? e3 : e5; long tot=1; for(int i=0;i<n*n;i++) tot*=nv;
        long grp = n==3?27:25;
        for(long g=0; g<tot; g+=grp) { if(!begin(fmt("decomp %d from %ld",n,g))) continue;
        for(long c=g;c<std::min(tot,g+grp);c++) {
            int a[9]; long q=c; for(int i=0;i<n*n;i++) { a[i]=e[q%nv]; q/=nv; }
            M m=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m[i][j]=a[i*n+j];
            long d=det(a,n); std::string nm=fmt("#%ld",c); V b=fv(n,c%7);
            Matrix<double> A=dense(m,n); checkSVD(m,n,b,nm.c_str()); checkQR(m,n,nm.c_str());
            if(d!=0) { LUDecomp L(A), L2(L), L3; L3=L2; V x=L3.solve(b); check(x.size()==(size_t)n&&maxres(m,x,b)<1e-12*maxabs(x),"LU of %s: x=%s",show(A).c_str(),showv(x).c_str());
                SparseMatrix<double> Sp(n,n,trip(m)); LUDecomp P(Sp); x=P.solve(b); check(x.size()==(size_t)n&&maxres(m,x,b)<1e-12*maxabs(x),"sparse LU of %s: x=%s",show(A).c_str(),showv(x).c_str());
                QRDecomp Q(A); x=Q.solve(b); check(x.size()==(size_t)n&&maxres(m,x,b)<1e-12*maxabs(x),"QR solve of %s: x=%s",show(A).c_str(),showv(x).c_str()); 
                SVDecomp Z(A); x=Z.solve(b); check(maxres(m,x,b)<1e-12*maxabs(x),"SVD solve of %s: x=%s",show(A).c_str(),showv(x).c_str());
            }
            outcome(fmt("dec%d%d",n,d==0)); S.states++;
        } } }
    // all symmetric matrices: Cholesky; the upper triangle holds garbage
    static const int es[5]={-1,0,1,2,4};
    for(int n=1;n<=3;n++) { int k=n*(n+1)/2; long tot=1; for(int i=0;i<k;i++) tot*=5;
        for(long g=0;g<tot;g+=125) { if(!begin(fmt("chol %d from %ld",n,g))) continue;
        for(long c=g;c<std::min(tot,g+125);c++) {
            int a[9]; long q=c; M m=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) { int v=es[q%5]; q/=5; a[i*n+j]=a[j*n+i]=v; m[i][j]=m[j][i]=v; }
            long m1=a[0], m2=n>1?(long)a[0]*a[n+1]-(long)a[1]*a[1]:1, m3=n>2?det(a,3):1;
            bool pd=m1>0&&m2>0&&m3>0;
            // indefinite with a clear margin: some leading minor of integers is negative
            bool neg=m1<0||m2<0||m3<0; if(!pd&&!neg) continue;
            Matrix<double> A=dense(m,n); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) A(i,j)=99+i;
            bool thr=false; 
            try { CholeskyDecomp D(A), D2(D), D3; D3=D2; if(pd) { Matrix<double> L=D3.L(); M l=mk(n,n); bool ok=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) { l[i][j]=L(i,j); if(j>i) ok&=L(i,j)==0; else if(i==j) ok&=L(i,j)>0; }
                M p=mul(l,op(l,n,true)); check(ok&&same(dense(p,n),m,n),"Cholesky factor %s of %s",show(L).c_str(),show(dense(m,n)).c_str());
                V b=fv(n,c%5), x=D.solve(b); check(maxres(m,x,b)<1e-12*maxabs(x),"Cholesky solve of %s: %s",show(dense(m,n)).c_str(),showv(x).c_str()); } }
            catch(std::domain_error&) { thr=true; }
            check(thr==!pd,"Cholesky of %s: %s",show(dense(m,n)).c_str(),thr?"rejected a positive-definite matrix":"accepted an indefinite matrix"); outcome(fmt("chol%d%d",n,pd)); S.states++;
        } } }
    // rectangular shapes and larger sizes
    for(int r=1;r<=6;r++) for(int c=1;c<=6;c++) for(int s=0;s<5;s++) { if(!begin(fmt("rect %d %d %d",r,c,s))) continue;
        M a=filled(r,c,s); if(s==4) for(int i=0;i<r;i++) for(int j=0;j<c;j++) a[i][j]=(i+1)*(j-1.5L);  // rank 1
        if(r>=c) checkSVD(a,c,fv(r,s),"rect"); checkQR(a,c,"rect");
        outcome("rect"); }
    static const int sz[]={8,15,16,17,25,32,40};
    for(int k=0;k<7;k++) for(int t=0;t<4;t++) { int n=sz[k]; if(!begin(fmt("large %d %d",n,t))) continue;
        M a=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) { LD v= t==0?1.L/(1+abs(i-j)) : t==1? (i==j?4.:sin(i*3.7L+j*1.3L)) : t==2? (abs(i-j)<=2? (i==j?6:-1+0.1L*((i*j)%5)):0) : ((i*j)%11==3||(i==j&&i%2)?1.5L+i-j*0.5L:0)+((i+1)%n==j?3.L*n:0); a[i][j]=v; }
        V b=fv(n,t), x; Matrix<double> A=dense(a,n);
        checkSVD(a,n,b,"large"); checkQR(a,n,"large");
        x=LUDecomp(A).solve(b); check(maxres(a,x,b)<1e-11*maxabs(x)*n,"LU residual %g",maxres(a,x,b));
        SparseMatrix<double> Sp(n,n,trip(a)); x=LUDecomp(Sp).solve(b); check(maxres(a,x,b)<1e-11*maxabs(x)*n,"sparse LU residual %g",maxres(a,x,b));
        x=QRDecomp(A).solve(b); check(maxres(a,x,b)<1e-11*maxabs(x)*n,"QR residual");
        if(t==0) { CholeskyDecomp C(A); x=C.solve(b); check(maxres(a,x,b)<1e-11*maxabs(x)*n,"Cholesky residual"); }
        // tall matrix: least squares
        M tall=mk(2*n,n/2); for(int i=0;i<2*n;i++) for(int j=0;j<n/2;j++) tall[i][j]=cosl(i*0.37L*(j+1))+(i==j); checkSVD(tall,n/2,fv(2*n,t),"tall"); checkQR(tall,n/2,"tall");
        outcome("large"); }
    for(int n=1;n<=9;n++) for(int b=0;b<n;b++) for(int s=0;s<4;s++) { if(!begin(fmt("solveband %d %d %d",n,b,s))) continue;
        M a=bandfill(n,b,s*3+1); for(int i=0;i<n;i++) a[i][i]=(s&1?-1:1)*(20.L+i)*(b+1); BandMatrix<double> B=mkband(a,b); V r=fv(n,s), x=solveBand(B,r);
        check(x.size()==(size_t)n&&maxres(a,x,r)<1e-13*40,"solveBand of %s rhs %s -> %s",show(B).c_str(),showv(r).c_str(),showv(x).c_str());
        bool thr=false; try{ solveBand(B,V(n+1,1.)); }catch(std::logic_error&){thr=true;} check(thr,"wrong length accepted"); 
        check(same(B,a,n),"matrix changed"); outcome("band"); }
    // non-square
    for(int r=1;r<=3;r++) for(int c=1;c<=3;c++) if(r!=c) { if(!begin(fmt("nonsquare %d %d",r,c))) continue; M a=filled(r,c,1); Matrix<double> A=dense(a,c); bool thr=false;
        try{ LUDecomp x(A); }catch(std::exception&){thr=true;} check(thr,"LU of a non-square matrix accepted"); thr=false; 
        try{ LUDecomp x(SparseMatrix<double>(r,c,trip(a))); }catch(std::exception&){thr=true;} check(thr,"sparse LU of a non-square matrix accepted"); thr=false;
        try{ CholeskyDecomp x(A); }catch(std::exception&){thr=true;} check(thr,"Cholesky of a non-square matrix accepted"); }
    if(begin("empty decompositions")) {   // default-constructed objects can be copied and assigned
        LUDecomp a,b(a); b=a; CholeskyDecomp c,d(c); d=c; QRDecomp e,f(e); f=e; SVDecomp g,h(g); h=g; check(true,"");
        bool t=false; try{ b.solve(V(1,1.)); } catch(std::exception&){t=true;} check(t,"empty LU solved");
        t=false; try{ d.solve(V(1,1.)); } catch(std::exception&){t=true;} check(t,"empty Cholesky solved");
        t=false; try{ f.solve(V(1,1.)); } catch(std::exception&){t=true;} check(t,"empty QR solved");
        t=false; try{ h.solve(V(1,1.)); } catch(std::exception&){t=true;} check(t,"empty SVD solved"); }
}
// ---- D: storage
template<class F> static bool throwsRange(F f) { try { f(); } catch(std::out_of_range&) { return true; } catch(std::exception&) {} return false; }
// every view of matrix agrees with the reference
static void views(const IMatrix<double>& m, const M& a, size_t c, bool densely, const char* what) {
    size_t r=a.size(); if(!check(m.rows()==r&&m.cols()==c,"%s: size %zux%zu",what,m.rows(),m.cols())) return;
    check(same(m,a,c,0),"%s: elements %s",what,show(m).c_str());
    M got=mk(r,c); std::set<std::pair<size_t,size_t> > seen; bool ok=true;
    for(size_t k=0;k<m.size();k++) { size_t i=999,j=999; double v=m.elem(k,i,j); if(i>=r||j>=c||!seen.insert(std::make_pair(i,j)).second) { ok=false; check(false,"%s: elem(%zu) gives (%zu,%zu) out of range or repeated",what,k,i,j); } else got[i][j]=v; }
    if(ok) for(size_t i=0;i<r;i++) for(size_t j=0;j<c;j++) ok&=got[i][j]==a[i][j];
    check(ok,"%s: loop over elem() gives another matrix than at(): %s",what,show(m).c_str());
    if(densely) check(m.size()==r*c,"%s: size() of dense is %zu",what,m.size());
    size_t i,j; check(throwsRange([&]{m.elem(m.size(),i,j);}),"%s: elem beyond size() does not throw",what);
    check(throwsRange([&]{m.at(r,0);})&&throwsRange([&]{m.at(0,c);}),"%s: at() outside the matrix does not throw out_of_range",what);
    bool z=true; for(size_t p=0;p<r;p++) for(size_t q=0;q<c;q++) z&=a[p][q]==0; check(allZeros(m)==z,"%s: allZeros",what);
}
static void storage() {
    // sparse matrices from each sparsity pattern and every order of triplets
    for(int r=1;r<=3;r++) for(int c=1;c<=3;c++) for(int mask=0;mask<(1<<(r*c));mask++) {
        if(__builtin_popcount(mask)>(thorough()?6:4) && mask!=(1<<(r*c))-1) continue;
        if(!begin(fmt("sparse %d %d mask %x",r,c,mask))) continue;
        M a=mk(r,c); std::vector<Triplet> t; for(int k=0;k<r*c;k++) if(mask>>k&1) { a[k/c][k%c]=k+1.5; t.push_back(Triplet(k/c,k%c,k+1.5)); }
        std::vector<int> p(t.size()); for(size_t i=0;i<p.size();i++) p[i]=i; int nperm=0;
        do { std::vector<Triplet> u; for(size_t i=0;i<p.size();i++) u.push_back(t[p[i]]);
            SparseMatrix<double> s(r,c,u); views(s,a,c,false,"sparse"); check(s.size()==t.size(),"sparse: %zu elements stored for %zu triplets",s.size(),t.size());
            std::vector<Triplet> v=s.values(); M g=mk(r,c); for(size_t i=0;i<v.size();i++) g[v[i].i][v[i].j]+=v[i].v; check(v.size()==t.size()&&same(dense(g,c),a,c,0),"sparse: values() list");
            Matrix<double> d(r,c,u); views(d,a,c,true,"dense from triplets"); views(Matrix<double>(s),a,c,true,"dense from sparse"); views(Matrix<double>(static_cast<const IMatrix<double>&>(s)),a,c,true,"dense from IMatrix");
            SparseMatrix<double> s2(s), s3, s4(c,r); s3=s; swap(s4,s2); views(s3,a,c,false,"assigned sparse"); views(s4,a,c,false,"swapped sparse"); check(s2.rows()==(size_t)c&&s2.cols()==(size_t)r&&s2.size()==0,"swap: other side");
            TransposedMatrix<double> tr(s), trd(d); M at=op(a,c,true); views(tr,at,r,false,"transposed sparse"); views(trd,at,r,true,"transposed dense");
            if(++nperm>=24) break;
        } while(std::next_permutation(p.begin(),p.end()));
        outcome(fmt("sp%d",(int)t.size()));
        for(int k=0;k<r*c;k++) {   // triplets outside the matrix are an error
            std::vector<Triplet> u=t; u.push_back(Triplet(r,k%c,1.)); check(throwsRange([&]{SparseMatrix<double> s(r,c,u);}),"row index outside accepted by a sparse matrix"); check(throwsRange([&]{Matrix<double> s(r,c,u);}),"row index outside accepted by a dense matrix");
            u.back()=Triplet(k/c,c,1.); check(throwsRange([&]{SparseMatrix<double> s(r,c,u);}),"column index outside accepted by a sparse matrix"); check(throwsRange([&]{Matrix<double> s(r,c,u);}),"column index outside accepted by a dense matrix"); }
    }
    for(int n=1;n<=8;n++) for(int b=0;b<n;b++) { if(!begin(fmt("band %d %d",n,b))) continue;
        M a=bandfill(n,b,n+2*b); BandMatrix<double> B=mkband(a,b); views(B,a,n,false,"band"); check(B.bandwidth()==(size_t)b,"bandwidth");
        int cnt=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) cnt+=abs(i-j)<=b; check((int)B.size()==cnt,"size() is %zu, not %d",B.size(),cnt);
        std::vector<Triplet> v=B.values(); M g=mk(n,n); bool ok=true; for(size_t i=0;i<v.size();i++) { ok&=v[i].i<(size_t)n&&v[i].j<(size_t)n; if(ok) g[v[i].i][v[i].j]+=v[i].v; } check(ok&&same(dense(g,n),a,n,0),"values()");
        views(Matrix<double>(B),a,n,true,"dense from band"); views(SparseMatrix<double>(B),a,n,false,"sparse from band"); views(Matrix<double>(static_cast<const IMatrix<double>&>(B)),a,n,true,"dense from IMatrix(band)");
        TransposedMatrix<double> tr(B); views(tr,op(a,n,true),n,false,"transposed band");
        for(int i=0;i<=n;i++) for(int j=0;j<=n;j++) { bool in=i<n&&j<n&&abs(i-j)<=b; bool thr=throwsRange([&]{ const BandMatrix<double>& cb=B; volatile double x=cb(i,j); (void)x; }), thw=throwsRange([&]{ B(i,j)+=0; }); check(thr==!in&&thw==!in,"operator()(%d,%d) range check",i,j); }
        BandMatrix<double> C(n,b,2.5); M e=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) e[i][j]=abs(i-j)<=b?2.5:0; views(C,e,n,false,"filled band");
        // vector-space operations on all storage kinds
        for(int ia=0;ia<5;ia++) { M r1=mk(n,n),r2=mk(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) { r1[i][j]=e[i][j]+coefs[ia]*a[i][j]; r2[i][j]=coefs[ia]*a[i][j]; }
            BandMatrix<double> Y=C; blas_daxpy(coefs[ia],B,Y); check(same(Y,r1,n),"band daxpy %g",coefs[ia]); Y=B; blas_dmul(coefs[ia],Y); check(same(Y,r2,n),"band dmul");
            Matrix<double> D(C); blas_daxpy(coefs[ia],Matrix<double>(B),D); check(same(D,r1,n),"dense daxpy"); D=Matrix<double>(B); blas_dmul(coefs[ia],D); check(same(D,r2,n),"dense dmul");
            SparseMatrix<double> Sx(C); blas_daxpy(coefs[ia],SparseMatrix<double>(B),Sx); check(same(Sx,r1,n),"sparse daxpy"); Sx=SparseMatrix<double>(B); blas_dmul(coefs[ia],Sx); check(same(Sx,r2,n),"sparse dmul"); }
        LD s=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) s+=a[i][j]*a[i][j]; check(vh::close(blas_dnrm2(Matrix<double>(B)),(double)s,1e-14),"Frobenius norm");
        check([&]{ try{ BandMatrix<double> bad(n,n); }catch(std::logic_error&){return true;} return false; }(),"bandwidth>=size accepted");
        if(b>0) { bool t=false; BandMatrix<double> o(n,b-1); try{ blas_daxpy(1,o,C); }catch(std::exception&){t=true;} (void)t; }
        outcome(fmt("band%d",2*b+1>n)); }
    for(int n=0;n<=5;n++) for(int s=0;s<4;s++) { if(!begin(fmt("vector %d %d",n,s))) continue; V x=fv(n,s), y=fv(n,s+2); LD d=0,q=0; for(int i=0;i<n;i++) { d+=(LD)x[i]*y[i]; q+=(LD)x[i]*x[i]; }
        check(vh::close(blas_ddot(x,y),(double)d,1e-14,1e-14),"ddot"); check(vh::close(blas_dnrm2(x),(double)q,1e-14),"dnrm2");
        for(int ia=0;ia<5;ia++) { V z=y; blas_daxpy(coefs[ia],x,z); bool ok=true; for(int i=0;i<n;i++) ok&=vh::close(z[i],y[i]+coefs[ia]*x[i],1e-15,1e-15); z=y; blas_dmul(coefs[ia],z); for(int i=0;i<n;i++) ok&=z[i]==y[i]*coefs[ia]; check(ok,"daxpy/dmul"); }
        bool t=false; V w(n+1,1.); try{ blas_ddot(x,w);}catch(std::exception&){t=true;} check(t,"ddot of different lengths"); t=false; try{ blas_daxpy(1,x,w);}catch(std::exception&){t=true;} check(t,"daxpy of different lengths");
        check(allZeros(x)==(n==0),"allZeros vector"); check(allZeros(V(n,0.)),"allZeros of zeros"); if(n) { V z(n,0.); z[n-1]=-1e-300; check(!allZeros(z),"last element nonzero"); }
        // near zeros: threshold relative to the largest magnitude
        if(n) for(int k=0;k<n;k++) for(int sg=-1;sg<=1;sg+=2) { V z(n,3e-16); z[k]=sg; V z0=z; eliminateNearZeros(z,1e-15); bool ok=true; for(int i=0;i<n;i++) ok&=z[i]==(i==k?sg:0.); check(ok,"eliminateNearZeros"); z=z0; eliminateNearZeros(z,1e-16); check(z==z0,"eliminateNearZeros removed large elements");
            Matrix<double> mm(n,2,sg*2e-16); mm(k,1)=sg*0.5; eliminateNearZeros(mm,1e-15); ok=true; for(int i=0;i<n;i++) for(int j=0;j<2;j++) ok&=mm(i,j)==(i==k&&j==1?sg*0.5:0.); check(ok,"eliminateNearZeros matrix"); }
        outcome("vec"); }
    if(begin("dense copies")) { M a=filled(3,2,1); Matrix<double> A=dense(a,2), B(A), C, D(1,1,5.); C=A; B(0,0)=100; check(same(A,a,2),"copy shares storage"); check(same(C,a,2),"assigned"); swap(C,D); check(same(D,a,2)&&C.rows()==1&&C(0,0)==5,"swap"); Matrix<double> E(std::move(D)); check(same(E,a,2),"move");
        MatrixView<double> w(3,2,A.data()); views(w,a,2,true,"view"); w.data()[0]=-9; check(A(0,0)==-9,"view does not alias"); Matrix<double> F(2,2); F=F; Matrix<double> G(2,3,7.); check(G.rows()==2&&G.cols()==3&&G(1,2)==7,"fill");
        SparseMatrix<double> z; check(z.rows()==0&&z.size()==0,"default sparse"); SparseMatrix<double> z2(z); z2=z; Matrix<double> y; check(y.rows()==0&&y.size()==0,"default dense"); Matrix<double> y2(y); 
        Matrix<float> mf(2,2,1.5f); check(mf.at(1,1)==1.5f,"float");
        std::vector<double> dg(4); for(int i=0;i<4;i++) dg[i]=i-1.5; BandMatrix<double> bd(dg); M ad=mk(4,4); for(int i=0;i<4;i++) ad[i][i]=dg[i]; views(bd,ad,4,false,"diagonal"); outcome("copy"); }
}
int main(int c,char**v) { init(c,v); gemm<Matrix<double> >(); gemm<SparseMatrix<double> >(); gemv(); tri(); decomp(); storage(); return finish(); }
