// M03: optimisation solvers against exhaustive enumeration of candidate optima for all small integer problems.
// math_optimization.cpp is compiled into this file so that the transformation made by quadraticOptimizationSolveApprox can be
// decided as well: its back end (CVXOPT, not available here) is replaced by an exact active-set enumeration.
#include "vh.h"
#include "math_optimization.h"
#include <Eigen/Dense>
typedef std::vector<double> V;
static V qpBackend(const math::IMatrix<double>& A, const V& rhs, const V& L, const math::IMatrix<double>& Q, const V& xmin, const V& xmax);
namespace math { template<> std::vector<double> quadraticOptimizationSolve<double>(const IMatrix<double>& A, const V& rhs, const V& L, const IMatrix<double>& Q, const V& xmin, const V& xmax) { return qpBackend(A,rhs,L,Q,xmin,xmax); } }
#include "math_optimization.cpp"
using namespace vh;
static const double INF=INFINITY;
static std::string show(const V& v) { std::string s="("; for(size_t i=0;i<v.size();i++) s+=fmt("%g ",v[i]); return s+")"; }

// ---- the oracle: min sum L x + 1/2 x Q x + sum_c [ pl_c |r_c| + 1/2 pq_c r_c^2 ], r=b-Ax; r_c=0 exactly where pl or pq is infinite; lo<=x<=hi
struct Prob { int n, m; V A, b, L, Q/*n*n*/, lo, hi, pl, pq;
    double val(const V& x, double* viol=NULL) const { double f=0, w=0; for(int i=0;i<n;i++) { f+=L[i]*x[i]; for(int j=0;j<n;j++) f+=.5*x[i]*Q[i*n+j]*x[j]; w=fmax(w,fmax(lo[i]-x[i],x[i]-hi[i])); }
        for(int c=0;c<m;c++) { double r=b[c]; for(int j=0;j<n;j++) r-=A[c*n+j]*x[j]; if(pl[c]==INF||pq[c]==INF) w=fmax(w,fabs(r)); else f+=pl[c]*fabs(r)+.5*pq[c]*r*r; } if(viol) *viol=w; return f; } };
enum St { INFEAS, UNBD, OPT };
struct Res { St st; double f; V x; };
// enumerate every activity pattern: each variable at its lower bound / upper bound / interior, each penalised row with residual 0 / + / -
static Res enumerate(const Prob& p) {
    Res R; R.st=INFEAS; R.f=INF;
    int n=p.n, m=p.m; std::vector<int> k(n+m,0), mx(n+m);
    for(int i=0;i<n;i++) mx[i]=3; for(int c=0;c<m;c++) mx[n+c]=(p.pl[c]==INF||p.pq[c]==INF||p.pl[c]==0)?1:3;
    for(;;) {
        bool ok=true; for(int i=0;i<n&&ok;i++) if((k[i]==1&&!(p.lo[i]>-INF))||(k[i]==2&&!(p.hi[i]<INF))) ok=false;
        if(ok) {
            std::vector<int> fr; V x(n,0); for(int i=0;i<n;i++) { if(k[i]==0) fr.push_back(i); else x[i]=k[i]==1?p.lo[i]:p.hi[i]; }
            // rows imposed as equalities
            std::vector<int> eq; for(int c=0;c<m;c++) { bool hard=p.pl[c]==INF||p.pq[c]==INF; if(hard||(p.pl[c]>0&&k[n+c]==0)) eq.push_back(c); }
            int nf=fr.size(), ne=eq.size(), N=nf+ne;
            Eigen::MatrixXd K=Eigen::MatrixXd::Zero(N,N); Eigen::VectorXd h=Eigen::VectorXd::Zero(N);
            // gradient w.r.t. free variables: L + Qx - sum_c A_c (pl sgn + pq r)
            for(int a=0;a<nf;a++) { int i=fr[a]; double g=p.L[i]; for(int j=0;j<n;j++) { if(k[j]!=0) g+=p.Q[i*n+j]*x[j]; }
                for(int b=0;b<nf;b++) K(a,b)+=p.Q[i*n+fr[b]];
                for(int c=0;c<m;c++) { bool hard=p.pl[c]==INF||p.pq[c]==INF; if(hard||(p.pl[c]>0&&k[n+c]==0)) continue;
                    double s=k[n+c]==1?1:k[n+c]==2?-1:0, r0=p.b[c]; for(int j=0;j<n;j++) if(k[j]!=0) r0-=p.A[c*n+j]*x[j];
                    g-=p.A[c*n+i]*(p.pl[c]*s+p.pq[c]*r0); for(int b=0;b<nf;b++) K(a,b)+=p.A[c*n+i]*p.pq[c]*p.A[c*n+fr[b]]; }
                h(a)=-g; for(int e=0;e<ne;e++) K(a,nf+e)=K(nf+e,a)=p.A[eq[e]*n+i]; }
            for(int e=0;e<ne;e++) { double r=p.b[eq[e]]; for(int j=0;j<n;j++) if(k[j]!=0) r-=p.A[eq[e]*n+j]*x[j]; h(nf+e)=r; }
            bool cons=true; Eigen::VectorXd z(N);
            if(N>0) { Eigen::FullPivLU<Eigen::MatrixXd> lu(K); lu.setThreshold(1e-10); z=lu.solve(h); cons=(K*z-h).norm()<1e-8*(1+h.norm()); }
            if(cons) { for(int a=0;a<nf;a++) x[fr[a]]=z(a); double w; double f=p.val(x,&w); if(w<1e-8&&f<R.f) { R.f=f; R.x=x; R.st=OPT; } }
        }
        int q=0; while(q<n+m&&++k[q]==mx[q]) k[q++]=0; if(q==n+m) break;
    }
    return R; }
// a feasible point anywhere? and a descent direction of recession?
static Res oracle(const Prob& p) {
    bool hasHard=false; (void)hasHard;
    // feasibility: zero objective with a tiny strictly convex term => always attained
    Prob f=p; f.L.assign(p.n,0); f.Q.assign(p.n*p.n,0); for(int i=0;i<p.n;i++) f.Q[i*p.n+i]=1; for(int c=0;c<p.m;c++) if(!(p.pl[c]==INF||p.pq[c]==INF)) { f.pl[c]=0; f.pq[c]=0; }
    Res r=enumerate(f); if(r.st==INFEAS) return r;
    // recession directions: A_hard d=0, d within the recession cone of the box, Qd=0, pq_c A_c d=0; L d + sum pl_c |A_c d| < 0
    Prob d=p; for(int i=0;i<p.n;i++) { d.lo[i]=p.lo[i]>-INF?0:-1; d.hi[i]=p.hi[i]<INF?0:1; } d.b.assign(p.m,0);
    for(int c=0;c<p.m;c++) if(p.pq[c]>0) { d.pl[c]=INF; d.pq[c]=0; }
    // Q d = 0 as extra hard rows
    for(int i=0;i<p.n;i++) { bool nz=false; for(int j=0;j<p.n;j++) nz|=p.Q[i*p.n+j]!=0; if(!nz) continue; for(int j=0;j<p.n;j++) d.A.push_back(p.Q[i*p.n+j]); d.b.push_back(0); d.pl.push_back(INF); d.pq.push_back(0); d.m++; }
    d.Q.assign(p.n*p.n,0);
    Res e=enumerate(d); if(e.st==OPT&&e.f<-1e-9) { r.st=UNBD; return r; }
    Res o=enumerate(p); return o; }

static int backendCalls; static Prob lastQP;
static V qpBackend(const math::IMatrix<double>& A, const V& rhs, const V& L, const math::IMatrix<double>& Q, const V& xmin, const V& xmax) {
    backendCalls++; Prob p; p.n=A.cols(); p.m=A.rows();
    if((int)rhs.size()!=p.m||(!L.empty()&&(int)L.size()!=p.n)||(!xmin.empty()&&(int)xmin.size()!=p.n)||(!xmax.empty()&&(int)xmax.size()!=p.n)||(Q.rows()>0&&((int)Q.rows()!=p.n||Q.cols()!=Q.rows()))) throw std::invalid_argument("quadraticOptimizationSolve: inconsistent sizes passed to the solver");
    p.A.assign(p.n*p.m,0); for(size_t i=0;i<A.size();i++) { size_t r,c; double v=A.elem(i,r,c); p.A[r*p.n+c]+=v; }
    p.Q.assign(p.n*p.n,0); if(Q.rows()>0) { if(Q.size()==Q.rows()*Q.cols()) { for(int i=0;i<p.n;i++) for(int j=0;j<p.n;j++) p.Q[i*p.n+j]=Q.at(i,j); } else for(size_t i=0;i<Q.size();i++) { size_t r,c; double v=Q.elem(i,r,c); p.Q[r*p.n+c]+=v; } }
    p.b=rhs; p.L=L.empty()?V(p.n,0):L; p.lo=xmin.empty()?V(p.n,0):xmin; p.hi=xmax.empty()?V(p.n,INF):xmax; p.pl.assign(p.m,INF); p.pq.assign(p.m,0);
    lastQP=p; Res r=oracle(p); if(r.st!=OPT) throw std::runtime_error("no solution"); return r.x; }

template<class NumT> struct Conv { static std::vector<NumT> v(const V& a) { return std::vector<NumT>(a.begin(),a.end()); } };
template<class NumT> static V call(const Prob& p, int sparse, bool defLo, bool defHi, bool defL, int approx) {
    std::vector<math::Triplet> t; math::Matrix<NumT> D(p.m,p.n,0); for(int c=0;c<p.m;c++) for(int j=0;j<p.n;j++) { D(c,j)=p.A[c*p.n+j]; if(p.A[c*p.n+j]!=0) t.push_back(math::Triplet(c,j,p.A[c*p.n+j])); }
    math::SparseMatrix<NumT> S(p.m,p.n,t); const math::IMatrix<NumT>& M=sparse?(const math::IMatrix<NumT>&)S:(const math::IMatrix<NumT>&)D;
    std::vector<NumT> e, lo=defLo?e:Conv<NumT>::v(p.lo), hi=defHi?e:Conv<NumT>::v(p.hi), L=defL?e:Conv<NumT>::v(p.L), b=Conv<NumT>::v(p.b);
    glp_term_out(GLP_OFF);
    return approx ? math::linearOptimizationSolveApprox<NumT>(M,b,L,Conv<NumT>::v(p.pl),lo,hi) : math::linearOptimizationSolve<NumT>(M,b,L,lo,hi); }
static std::string show(const Prob& p) { return "A="+show(p.A)+"b="+show(p.b)+"L="+show(p.L)+"lo="+show(p.lo)+"hi="+show(p.hi)+"pl="+show(p.pl)+"pq="+show(p.pq)+"Q="+show(p.Q); }
static long nopt,ninf,nunb;
template<class NumT> static void judge(const Prob& p, int sparse, bool dl, bool dh, bool dL, int approx, const Res& o) {
    S.transitions++; V x; std::string ex; try { x=call<NumT>(p,sparse,dl,dh,dL,approx); } catch(std::exception& e) { ex=e.what(); if(ex.empty()) ex="?"; }
    const char* ty=sizeof(NumT)==4?"float":"double";
    if(o.st==OPT) { nopt++; if(!ex.empty()) { check(false,"%s %s%s solvable problem refused: %s; optimum %g at %s; %s",ty,sparse?"sparse ":"",approx?"approx":"",ex.c_str(),o.f,show(o.x).c_str(),show(p).c_str()); return; }
        if((int)x.size()!=p.n) { check(false,"%s result has %zu elements",ty,x.size()); return; }
        double w, f=p.val(x,&w); check(w<=1e-6,"%s %s constraints violated by %g; x=%s %s",ty,approx?"approx":"",w,show(x).c_str(),show(p).c_str());
        check(f<=o.f+1e-6*(1+fabs(o.f)) && f>=o.f-1e-5*(1+fabs(o.f)),"%s %s not optimal: %.10g instead of %.10g; x=%s %s",ty,approx?"approx":"",f,o.f,show(x).c_str(),show(p).c_str());
    } else { if(o.st==INFEAS) ninf++; else nunb++; check(!ex.empty(),"%s %s%s %s problem reported as solved; x=%s %s",ty,sparse?"sparse ":"",approx?"approx":"",o.st==INFEAS?"infeasible":"unbounded",show(x).c_str(),show(p).c_str()); }
    outcome(fmt("st%d a%d",o.st,approx)); }
// odometer
static bool nextv(V& v, const V& vals, std::vector<int>& k) { size_t q=0; while(q<k.size()&&++k[q]==(int)vals.size()) k[q++]=0; for(size_t i=0;i<k.size();i++) v[i]=vals[k[i]]; return q<k.size(); }
struct Od { V vals; std::vector<int> k; V v; Od(int n,const V& va):vals(va),k(n,0),v(n,va[0]){} bool next(){ return nextv(v,vals,k);} };
static V mkv(double a,double b,double c=1e99,double d=1e99) { V v; v.push_back(a); v.push_back(b); if(c<1e98) v.push_back(c); if(d<1e98) v.push_back(d); return v; }
// bounds patterns for n variables
static int NB=9;
static void bounds(int pat, int n, V& lo, V& hi) { lo.assign(n,0); hi.assign(n,INF);
    for(int i=0;i<n;i++) switch(pat) {
      case 0: break;
      case 1: hi[i]=1; break;
      case 2: lo[i]=-1; hi[i]=1; break;
      case 3: lo[i]=-1; break;
      case 4: if(i==0) lo[i]=hi[i]=.5; break;                 // fixed variable
      case 5: if(i==n-1) { lo[i]=-INF; hi[i]=1; } break;      // bounded only from above
      case 6: if(i==0) lo[i]=-INF; break;                     // free
      case 7: lo[i]=.25*i; hi[i]=i?INF:2; break;
      case 8: if(i==0) { lo[i]=1; hi[i]=.5; } break; } }      // contradictory
static void linear(int m, int n, const V& av, const V& bv, const V& lv) {
    for(Od A(m*n,av);;) {
        if(begin(fmt("lin %dx%d A=%s",m,n,show(A.v).c_str()))) {
            // only b and L up to symmetric duplicates are all enumerated; no pruning
            for(Od b(m,bv);;) { for(Od L(n,lv);;) { for(int pat=0;pat<NB;pat++) { if(m*n>4&&!thorough()&&(pat==2||pat==4||pat>5)) continue;
                Prob p; p.n=n; p.m=m; p.A=A.v; p.b=b.v; p.L=L.v; p.Q.assign(n*n,0); bounds(pat,n,p.lo,p.hi); p.pl.assign(m,INF); p.pq.assign(m,0);
                Res o; bool contra=pat==8; if(contra) o.st=INFEAS; else o=oracle(p); S.states++;
                bool dL=true; for(int i=0;i<n;i++) dL&=L.v[i]==0;
                judge<double>(p,0,pat==0,pat==0||pat==3,dL,0,o);
                if(m==1||thorough()) { judge<double>(p,1,false,false,false,0,o); judge<float>(p,0,false,false,false,0,o); judge<float>(p,1,pat==0,pat==0||pat==3,dL,0,o); }
                if(pat<=3||m==1) for(int pp=0;pp<(m==1?4:5);pp++) { static const double P[5][2]={{0,0},{1,2},{3,1},{INF,1},{1,0}}; Prob q=p; for(int c=0;c<m;c++) q.pl[c]=(m==1&&pp==3)?INF:P[pp][c];
                    Res oo; if(contra) oo.st=INFEAS; else oo=oracle(q); judge<double>(q,0,pat==0,pat==0||pat==3,dL,1,oo); if(m==1) judge<float>(q,1,false,false,false,1,oo); }
            } if(!L.next()) break; } if(!b.next()) break; }
        }
        if(!A.next()) break; } }
// quadratic problems through quadraticOptimizationSolveApprox with the enumerating back end
static void quad(int m, int n, const V& av) {
    static const double PL[6]={0,1,INF,0,2,0}, PQ[6]={1,0,0,INF,1,0};
    for(Od A(m*n,av);;) {
        if(begin(fmt("quad %dx%d A=%s",m,n,show(A.v).c_str()))) {
            int npen=m==1?6:36;
            for(Od b(m,mkv(-1,2));;) { for(int li=0;li<3;li++) for(int qi=0;qi<4;qi++) for(int pat=0;pat<4;pat++) for(int pn=0;pn<npen;pn++) for(int form=0;form<2;form++) {
                Prob p; p.n=n; p.m=m; p.A=A.v; p.b=b.v; p.L.assign(n,0); if(li==1) for(int i=0;i<n;i++) p.L[i]=i+1; if(li==2) p.L[0]=-1; p.Q.assign(n*n,0);
                if(qi==1) for(int i=0;i<n;i++) p.Q[i*n+i]=i+1; if(qi==2) p.Q[0]=2; if(qi==3) for(int i=0;i<n;i++) for(int j=0;j<n;j++) p.Q[i*n+j]=i==j?2:-.5;
                bounds(pat,n,p.lo,p.hi); p.pl.resize(m); p.pq.resize(m); int u=pn; for(int c=0;c<m;c++) { p.pl[c]=PL[u%6]; p.pq[c]=PQ[u%6]; u/=6; }
                if(m==2&&!thorough()&&(pat==2||qi==1||pn%6==4||pn/6==4)) continue; bool pl0=true,pq0=true; for(int c=0;c<m;c++) { pl0&=p.pl[c]==0; pq0&=p.pq[c]==0; }
                if(form==1&&!pl0&&!pq0) continue; if(form==1&&pl0&&pq0) continue;
                S.states++; S.transitions++; Res o=oracle(p);
                math::Matrix<double> D(m,n,0.); for(int c=0;c<m;c++) for(int j=0;j<n;j++) D(c,j)=A.v[c*n+j];
                math::Matrix<double> Qd(n,n,0.); V dg(n); for(int i=0;i<n;i++) { dg[i]=p.Q[i*n+i]; for(int j=0;j<n;j++) Qd(i,j)=p.Q[i*n+j]; }
                math::BandMatrix<double> Qb(dg), Q0; const math::IMatrix<double>& Q= qi==0&&form==1 ? (const math::IMatrix<double>&)Q0 : qi==3 ? (const math::IMatrix<double>&)Qd : (const math::IMatrix<double>&)Qb;
                V e, x; std::string ex; try { x=math::quadraticOptimizationSolveApprox<double>(D,p.b,li==0?e:p.L,Q,form==1&&pl0?e:p.pl,form==1&&pq0?e:p.pq,pat==0?e:p.lo,pat==0||pat==3?e:p.hi); } catch(std::exception& E) { ex=E.what(); }
                if(o.st==OPT) { if(!ex.empty()||(int)x.size()!=n) { check(false,"solvable problem refused: %s; optimum %g at %s; %s",ex.c_str(),o.f,show(o.x).c_str(),show(p).c_str()); continue; }
                    double w,f=p.val(x,&w); check(w<1e-7&&fabs(f-o.f)<=1e-7*(1+fabs(o.f)),"the problem given to the solver has another optimum: F=%g viol=%g at %s instead of %g at %s; %s",f,w,show(x).c_str(),o.f,show(o.x).c_str(),show(p).c_str()); }
                else check(!ex.empty(),"%s problem reported as solved: %s %s",o.st==INFEAS?"infeasible":"unbounded",show(x).c_str(),show(p).c_str());
                outcome(fmt("q st%d",o.st));
            } if(!b.next()) break; }
        }
        if(!A.next()) break; } }
static void arguments() {
    if(!begin("arguments")) return;
    math::Matrix<double> A(2,3,1.); V e; A(1,0)=2;
    struct T { int nb,nL,nlo,nhi,npl; };
    for(int nb=0;nb<4;nb++) for(int nL=0;nL<5;nL++) for(int nlo=0;nlo<5;nlo++) for(int nhi=0;nhi<5;nhi++) for(int npl=-1;npl<4;npl++) {
        bool good=nb==2&&(nL==0||nL==3)&&(nlo==0||nlo==3)&&(nhi==0||nhi==3)&&(npl==-1||npl==2); S.states++; S.transitions++;
        std::string ex; bool inv=false; try { glp_term_out(GLP_OFF); V b(nb,1.); if(nb==2) b[1]=1.5; V L(nL,1.),lo(nlo,0.),hi(nhi,5.); V x=npl<0?math::linearOptimizationSolve<double>(A,b,L,lo,hi):math::linearOptimizationSolveApprox<double>(A,b,L,V(npl,1.),lo,hi); } catch(std::invalid_argument& E) { inv=true; ex=E.what(); } catch(std::exception& E) { ex=E.what(); }
        check(good?ex.empty():inv,"sizes rhs=%d L=%d xmin=%d xmax=%d pen=%d: %s",nb,nL,nlo,nhi,npl,ex.c_str());
        if(npl>=0) { ex=""; inv=false; try { V b(nb,1.); math::quadraticOptimizationSolveApprox<double>(A,b,V(nL,1.),math::BandMatrix<double>(),V(npl,1.),V(npl,1.),V(nlo,0.),V(nhi,5.)); } catch(std::invalid_argument& E) { inv=true; ex=E.what(); } catch(std::exception& E) { ex=E.what(); }
            if(nhi==0||nhi==3) check(good?ex.empty():inv,"quad sizes rhs=%d L=%d xmin=%d xmax=%d pen=%d: %s",nb,nL,nlo,nhi,npl,ex.c_str()); } }
    static const double bad[2]={-1,NAN}; for(int i=0;i<2;i++) for(int c=0;c<2;c++) for(int which=0;which<3;which++) { V pen(2,1.),o(2,1.),b(2,1.); pen[c]=bad[i]; bool inv=false; S.transitions++;
        try { if(which==0) math::linearOptimizationSolveApprox<double>(A,b,e,pen); else math::quadraticOptimizationSolveApprox<double>(A,b,e,math::BandMatrix<double>(),which==1?pen:o,which==1?o:pen); } catch(std::invalid_argument&) { inv=true; } catch(std::exception&) {}
        check(inv,"penalty %g accepted (%d,%d)",bad[i],which,c); }
    // the solver can still be used after an error, in any order of calls
    for(int seq=0;seq<81;seq++) { int u=seq; std::string s; for(int k=0;k<4;k++) { int w=u%3; u/=3; V b(2); b[0]=1; b[1]=w==1?9:1.5; V L(3,1.),lo; if(w==2) { lo.assign(3,0.); lo[0]=NAN; } std::string ex; V x; S.transitions++;
        try { glp_term_out(GLP_OFF); x=math::linearOptimizationSolve<double>(A,b,L,lo); } catch(std::exception& E) { ex=E.what(); } s+=fmt("%d",w);
        if(w==0) check(ex.empty()&&fabs(x[0]-.5)<1e-6,"a good problem after the sequence %s: %s",s.c_str(),ex.c_str()); else check(!ex.empty(),"a bad problem after the sequence %s solved",s.c_str()); } }
}
int main(int argc,char**argv) { init(argc,argv);
    // the quadratic solver itself is not available in this build (no CVXOPT): its absence is reported by an error (float version is the original one)
    if(begin("noquad")) { std::string ex; try { math::quadraticOptimizationSolve<float>(math::Matrix<float>(1,1,1.f),std::vector<float>(1,1.f),std::vector<float>(),math::Matrix<float>(1,1,1.f)); } catch(std::exception& e) { ex=e.what(); } check(!ex.empty(),"no error"); }
    arguments();
    for(int n=1;n<=3;n++) linear(1,n,mkv(-1,0,1,2),mkv(-1,0,1),mkv(-1,0,1));
    linear(2,2,mkv(-1,0,1,2),mkv(-1,0,1),mkv(-1,0,1));
    linear(2,3,thorough()?mkv(-1,0,1,2):mkv(-1,0,1),mkv(0,1),thorough()?mkv(-1,0,1):mkv(0,1));
    quad(1,1,mkv(-1,0,1,2)); quad(1,2,mkv(-1,0,1,2)); quad(2,2,thorough()?mkv(-1,0,1,2):mkv(-1,0,1)); quad(1,3,mkv(-1,0,1)); if(thorough()) quad(2,3,mkv(-1,1));
    S.extra["n_opt"]=nopt; S.extra["n_infeasible"]=ninf; S.extra["n_unbounded"]=nunb;
    return finish(); }
