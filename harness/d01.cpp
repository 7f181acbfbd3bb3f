// D01: distribution functions are non-negative, additive, consistently normalised and generate the density they were built from.
// Enumerates DF family x parameter combinations (including boundary values) x lattice of action triplets (zeros, both signs of Jphi),
// plus spherical inversion: density/potential pair x (beta0, r_a) x radius.  Oracles: the formulas of the manual evaluated
// independently, one-sided/central difference derivatives, own quadratures in action, velocity and energy space.
#include "vh.h"
#include "models.h"
#include "df_factory.h"
#include "df_halo.h"
#include "df_disk.h"
#include "df_spherical.h"
#include "galaxymodel_spherical.h"
#include "actions_spherical.h"
#include "potential_factory.h"
#include "potential_utils.h"
#include "math_core.h"
#include "math_spline.h"
#include "math_random.h"
#include <functional>
#include <algorithm>
#include <memory>
using namespace vh; using actions::Actions; using df::PtrDistributionFunction; using df::DerivByActions;
typedef std::vector<double> V;
static const double PI=3.14159265358979323846, INF=INFINITY;
static const int NG=20;
static double gl(const std::function<double(double)>& f, double a, double b, int nseg=1) { double s=0, h=(b-a)/nseg; for(int k=0;k<nseg;k++) for(int i=0;i<NG;i++) s+=h*math::GLWEIGHTS[NG][i]*f(a+h*(k+math::GLPOINTS[NG][i])); return s; }
static std::string sj(const Actions& J) { return fmt("J=(%.9g %.9g %.9g)",J.Jr,J.Jz,J.Jphi); }
// derivative along one action by extrapolated one-sided or central differences; returns NaN if not converged, err=error estimate
static double deriv(const std::function<double(double)>& f, double x, double scale, int side, double& err) {
    double h=scale, best=NAN; err=INF; V prev; const double f0=f(x);
    double nz=0; for(int k=0;k<9;k++) { V row(k+1); nz=6e-16*fabs(f0)/h; row[0]= side==0? (f(x+h)-f(x-h))/(2*h) : (f(x+side*h)-f0)/(side*h);
        for(int j=1;j<=k;j++) { double q= side==0? pow(4.,j) : pow(2.,j); row[j]=row[j-1]+(row[j-1]-prev[j-1])/(q-1); }
        if(k>0) for(int j=1;j<=k;j++) { double e=fabs(row[j]-row[j-1])+fabs(row[j]-prev[j-1])+nz; if(e<err) { err=e; best=row[j]; } }
        prev=row; h*=0.5; }
    return best; }
// generic checks of a DF on the action lattice.  formula: independent evaluation or empty; sing(J): the point where the DF itself is singular
struct Opt { std::string name; double J0; std::function<double(const Actions&)> formula; double ftol; int parity; /*1 even, 0 none*/ std::function<bool(const Actions&)> singval, singder; double dtol; std::function<double(const Actions&)> noise; };
static V lattice(double J0) { V v; v.push_back(0); const double c[]={1e-4,0.02,0.3,1,2.5,12}; for(double q:c) v.push_back(q*J0); if(thorough()) { v.push_back(2e-3*J0); v.push_back(0.1*J0); v.push_back(5*J0); } return v; }
static void generic(const df::BaseDistributionFunction& f, const Opt& o) {
    V L=lattice(o.J0); std::vector<Actions> pts;
    for(double r:L) for(double z:L) for(double p:L) for(int s=1;s>=-1;s-=2) { if(p==0&&s<0) continue; pts.push_back(Actions(r,z,s*p)); }
    for(size_t i=0;i<pts.size();i++) { const Actions& J=pts[i]; S.transitions++; double v=f.value(J), v2; DerivByActions d; f.evalDeriv(J,&v2,&d);
        bool sv=o.singval&&o.singval(J), sd=o.singder&&o.singder(J);
        check(v==v2||(sv&&v!=v),"%s: value depends on whether derivatives are requested: %.17g vs %.17g at %s",o.name.c_str(),v,v2,sj(J).c_str());
        if(!sv) check(v>=0&&isfin(v),"%s: value %g at %s",o.name.c_str(),v,sj(J).c_str());
        if(o.formula&&!sv) { double w=o.formula(J); check(close(v,w,o.ftol,1e-290),"%s: value %.15g, formula %.15g at %s",o.name.c_str(),v,w,sj(J).c_str()); }
        Actions K=J; K.Jphi=-J.Jphi; double u=f.value(K);
        if(o.parity==1) { double vv; DerivByActions e; f.evalDeriv(K,&vv,&e); check(close(u,v,1e-12)||sv,"%s: not even in Jphi: %.15g vs %.15g at %s",o.name.c_str(),v,u,sj(J).c_str()); if(!sd&&!sv&&J.Jphi!=0) check(close(d.dbyJr,e.dbyJr,1e-10)&&close(d.dbyJz,e.dbyJz,1e-10)&&close(d.dbyJphi,-e.dbyJphi,1e-10),"%s: derivatives not of definite parity at %s",o.name.c_str(),sj(J).c_str()); }
        if(sv||sd) continue;
        check(isfin(d.dbyJr)&&isfin(d.dbyJz)&&isfin(d.dbyJphi),"%s: derivatives (%g %g %g) at %s, f=%g",o.name.c_str(),d.dbyJr,d.dbyJz,d.dbyJphi,sj(J).c_str(),v);
        const double sc[3]={d.dbyJr,d.dbyJz,d.dbyJphi}; double Jt=J.Jr+J.Jz+fabs(J.Jphi); if(Jt==0) Jt=1e-3*o.J0;
        for(int c=0;c<3;c++) { double x=c==0?J.Jr:c==1?J.Jz:J.Jphi; int side= x==0 ? 1 : 0; double h=0.02*Jt; if(sc[c]!=0&&isfin(sc[c])) h=fmin(h,fmax(0.1*v/fabs(sc[c]),1e-30*h)); if(side==0) h=fmin(h,0.25*fabs(x)); double err;
            double D=deriv([&](double t){ Actions K=J; (c==0?K.Jr:c==1?K.Jz:K.Jphi)=t; return f.value(K); },x,h,side,err);
            double mag=fmax(fabs(D),fabs(sc[c])); if(!(mag>0)||v<1e-60) continue; double nse=o.noise?o.noise(J):0;
            if(!(err<1e-3*mag+1e-7*v/Jt)) continue;  // oracle did not converge (negligible derivative or strong curvature)
            S.extra["n_derivatives"]++;
            check(fabs(D-sc[c])<=o.dtol*mag+20*err+1e-9*v/Jt+nse,"%s: df/dJ_%c = %.12g, difference quotient %.12g +- %.1e at %s, f=%.6g",o.name.c_str(),"rzp"[c],sc[c],D,err,sj(J).c_str(),v); } }
    // vectorised evaluation
    V a(pts.size()),b(pts.size()); std::vector<DerivByActions> da(pts.size()); f.evalmany(pts.size(),&pts[0],false,&a[0]); f.evalmany(pts.size(),&pts[0],true,&b[0],&da[0]);
    for(size_t i=0;i<pts.size();i++) { double v; DerivByActions d; f.evalDeriv(pts[i],&v,&d); check(close(a[i],v,0)&&close(b[i],v,0)&&close(da[i].dbyJr,d.dbyJr,0)&&close(da[i].dbyJz,d.dbyJz,0)&&close(da[i].dbyJphi,d.dbyJphi,0),"%s: evalmany differs from evalDeriv at %s",o.name.c_str(),sj(pts[i]).c_str()); }
}
// own integral over action space: Js=|J| in log scale, polar angle split at Jphi=0, share of Jr
static double mass3(const std::function<double(const Actions&)>& f, double J0, bool flip, int nl=26, double lo=-12, double hi=40) {
    return pow(2*PI,3)*gl([&](double l){ double s=J0*exp(l); double in=0; for(int sg=1;sg>=-1;sg-=2) { if(flip&&sg<0) continue;
        in+= (flip?2:1)*gl([&](double c){ /* |Jphi|=s*x, Jm=s(1-x) */ double x=c*c*(3-2*c), jac=6*c*(1-c); double Jm=s*(1-x); return jac*Jm*gl([&](double w){ double y=w*w*(3-2*w); return 6*w*(1-w)*f(Actions(Jm*y,Jm*(1-y),sg*s*x)); },0,1); },0,1); }
        return in*s*s; },lo,hi,nl); }
static void checkMass(const df::BaseDistributionFunction& f, const std::string& name, double J0, bool flip, double tol, double lo=-12) {
    double M=f.totalMass(), R=mass3([&](const Actions& J){ double v=f.value(J); return isfin(v)?v:0; },J0,flip,int(26-lo-12),lo);
    check(close(M,R,tol),"%s: total mass %.9g, integral over action space %.9g",name.c_str(),M,R);
    if(lo<-12||thorough()) return; double E=df::totalEntropy(f), Q=-pow(2*PI,0)*mass3([&](const Actions& J){ double v=f.value(J); return isfin(v)&&v>0?v*log(v):0; },J0,flip,int(26-lo-12),lo);
    check(close(E,Q,10*tol,10*tol*M),"%s: entropy %.9g, integral over action space %.9g",name.c_str(),E,Q); }
static void sampling(const df::BaseDistributionFunction& f, const std::string& name, double M, double tol) {
    math::randomize(1); double m; const int N=2000; std::vector<Actions> s=df::sampleActions(f,N,&m);
    check(s.size()==(size_t)N,"%s: %d samples of actions instead of %d",name.c_str(),(int)s.size(),N); check(close(m,M,tol),"%s: mass from sampling %.6g, expected %.6g",name.c_str(),m,M);
    for(auto& J:s) check(J.Jr>=0&&J.Jz>=0&&isfin(J.Jr)&&isfin(J.Jz)&&isfin(J.Jphi)&&f.value(J)>0,"%s: sampled actions %s where f=%g",name.c_str(),sj(J).c_str(),f.value(J)); }

static void halo() {
    const double sIn[]={-1,0,1.2,2.7}, sOut[]={3.5,6}, eta[]={0.6,1,2}, core[]={0,0.05,0.7}, cut[]={0,3}; const double co[][2]={{1,1},{0.5,1.7},{1.8,1.1}}; const double rot[][2]={{0,0},{0.7,0.5},{-1,0},{1,0.3},{-0.4,INF}};
    int n=0;
    for(double si:sIn) for(double so:sOut) for(double e:eta) for(double cr:core) for(double ct:cut) for(auto& ci:co) for(auto& cx:co) for(auto& ro:rot) { n++;
        if(cr>0&&si<=0) { if(cr>0.1) continue; }
        if(!thorough() && n%17!=1) continue;
        std::string id=fmt("halo Gamma=%g Beta=%g eta=%g core=%g cut=%g h=(%g,%g) g=(%g,%g) rot=(%g,%g)",si,so,e,cr,ct,ci[0],ci[1],cx[0],cx[1],ro[0],ro[1]);
        if(!vh::begin(id)) continue;
        df::DoublePowerLawParam p; p.norm=2.5; p.J0=1.5; p.slopeIn=si; p.slopeOut=so; p.steepness=e; p.Jcore=cr; p.Jcutoff=ct; p.cutoffStrength=1.7; p.coefJrIn=ci[0]; p.coefJzIn=ci[1]; p.coefJrOut=cx[0]; p.coefJzOut=cx[1]; p.rotFrac=ro[0]; p.Jphi0=ro[1];
        try { df::DoublePowerLaw f(p);
            auto raw=[&](const Actions& J, double beta)->double { double aj=fabs(J.Jphi), h=ci[0]*J.Jr+ci[1]*J.Jz+(3-ci[0]-ci[1])*aj, g=cx[0]*J.Jr+cx[1]*J.Jz+(3-cx[0]-cx[1])*aj;
                double H= h>0? pow(1+pow(p.J0/h,e),si/e) : si==0?1 : si>0?INF:0; double C= cr>0 ? (h>0? pow(1-beta*cr/h+pow(cr/h,2),-si/2) : 0) : 1;
                if(cr>0&&h==0) { H=pow(p.J0/cr,si); C=1; }  // limit
                double t= ro[0]==0||ro[1]==INF ? 0 : ro[1]==0 ? (J.Jphi>0?1:J.Jphi<0?-1:0) : tanh(J.Jphi/ro[1]);
                return p.norm/pow(2*PI*p.J0,3)*H*C*pow(1+pow(g/p.J0,e),-so/e)*(ct>0?exp(-pow(g/ct,1.7)):1)*(1+ro[0]*t); };
            double beta=0;
            if(cr>0&&si!=0) { // beta is defined by the condition of unchanged normalisation: solve it independently
                double lo=0,hi=2; auto F=[&](double b){ return gl([&](double l){ double h=exp(l), f0=pow(1+pow(p.J0/h,e),si/e)*pow(1+pow(h/p.J0,e),-so/e); return h*h*h*f0*(pow(1-b*cr/h+pow(cr/h,2),-si/2)-1); },log(cr)-14,log(cr)+14,40); };
                double a=F(lo); for(int k=0;k<60;k++) { double m=0.5*(lo+hi); if((F(m)>0)==(a>0)) lo=m; else hi=m; } double b1=0.5*(lo+hi);
                // recover the value used by the code from the DF at one point
                Actions J(0.1*cr,0.2*cr,0.3*cr); double lo2=0,hi2=2; double v=f.value(J); bool inc=raw(J,1.9)>raw(J,0.1); for(int k=0;k<200;k++) { double m=0.5*(lo2+hi2); if((raw(J,m)<v)==inc) lo2=m; else hi2=m; } beta=0.5*(lo2+hi2);
                if(p.rotFrac!=-1) check(fabs(beta-b1)<0.02,"core coefficient beta=%.6g instead of %.6g",beta,b1); }
            Opt o; o.name="DoublePowerLaw"; o.J0=p.J0; o.ftol= cr>0&&si!=0 ? 1e-9 : 1e-11; o.formula=[&](const Actions& J){ return raw(J,beta); }; o.parity= ro[0]==0||ro[1]==INF; o.dtol=2e-7;
            o.singval=[&](const Actions& J){ return J.Jr+J.Jz+fabs(J.Jphi)==0 && si>0 && cr==0; };
            o.singder=[&](const Actions& J){ return J.Jr+J.Jz+fabs(J.Jphi)==0 || (ro[0]!=0&&ro[1]==0&&J.Jphi==0); }; if(fabs(ro[0])==1&&ro[1]!=0) o.noise=[&](const Actions& J){ Actions K=J; K.Jphi=-J.Jphi; double a=f.value(K),b=f.value(J); return b<1e-5*a ? INF : 0.; };
            if(p.rotFrac==-1&&cr>0) o.formula=nullptr;
            generic(f,o);
            // the odd part averages out: f(Jphi)+f(-Jphi) = twice the even part
            df::DoublePowerLawParam q=p; q.rotFrac=0; df::DoublePowerLaw f0(q); for(double a:{0.,0.3,2.}) for(double b:{1e-3,0.5,4.}) { Actions J(a,0.2,b),K(a,0.2,-b); check(close(f.value(J)+f.value(K),2*f0.value(J),1e-12),"rotation changes the even part of the DF at %s",sj(J).c_str()); }
            if(n%5==1||thorough()) { if(!(si>2&&e<1)) checkMass(f,"DoublePowerLaw",p.J0,o.parity==1,si>2||e<1?1e-3:2e-4,si>2?-50:-12);
                double M0=f0.totalMass(); check(close(f.totalMass(),M0,1e-3),"rotation changes the total mass: %.7g vs %.7g",f.totalMass(),M0);
                if(!(cr>0&&si>2)&&ct==0&&ci[0]==cx[0]&&ci[1]==cx[1]) { double r=pow(2*PI,3)*gl([&](double l){ double h=p.J0*exp(l); return h*h*h*p.norm/pow(2*PI*p.J0,3)*pow(1+pow(p.J0/h,e),si/e)*pow(1+pow(h/p.J0,e),-so/e); },-40,so<4?60:30,60)/(ci[0]*ci[1]*(3-ci[0]-ci[1])); check(close(M0,r,cr>0||si>2?0.02:2e-3),"total mass %.7g, analytic reduction %.7g (core %g)",M0,r,cr); }
                // normalisation through the factory
                utils::KeyValueMap kv; kv.set("type","DoublePowerLaw"); kv.set("mass",4.2); kv.set("J0",p.J0); kv.set("slopeIn",si); kv.set("slopeOut",so); kv.set("steepness",e); kv.set("Jcore",cr); kv.set("Jcutoff",ct); kv.set("cutoffStrength",1.7); kv.set("coefJrIn",ci[0]); kv.set("coefJzIn",ci[1]); kv.set("coefJrOut",cx[0]); kv.set("coefJzOut",cx[1]); kv.set("rotFrac",ro[0]); if(ro[1]!=INF) kv.set("Jphi0",ro[1]);
                PtrDistributionFunction g=df::createDistributionFunction(kv); check(close(g->totalMass(),4.2,1e-5),"factory: mass=4.2 gives total mass %.8g",g->totalMass()); if(ro[1]!=INF&&ro[1]!=0) { Actions J(0.3,0.4,0.7); check(close(g->value(J)/f.value(J),4.2/f.totalMass(),1e-5),"factory: different DF"); } }
            if(n%35==1) sampling(f,"DoublePowerLaw",f.totalMass(),0.05);
            outcome(fmt("halo %d %d %d %d",si>0,cr>0,ct>0,(int)o.parity));
        } catch(std::exception& e) { vh::fail(std::string("exception: ")+e.what()); } }
    // rejected parameters
    struct B { const char* n; double df::DoublePowerLawParam::*m; double bad; }; const B b[]={{"norm",&df::DoublePowerLawParam::norm,0},{"norm",&df::DoublePowerLawParam::norm,-1},{"J0",&df::DoublePowerLawParam::J0,0},{"J0",&df::DoublePowerLawParam::J0,NAN},{"slopeIn",&df::DoublePowerLawParam::slopeIn,3},{"slopeOut",&df::DoublePowerLawParam::slopeOut,3},{"slopeOut",&df::DoublePowerLawParam::slopeOut,NAN},{"steepness",&df::DoublePowerLawParam::steepness,0},{"cutoffStrength",&df::DoublePowerLawParam::cutoffStrength,-1},{"coefJrIn",&df::DoublePowerLawParam::coefJrIn,2},{"coefJrIn",&df::DoublePowerLawParam::coefJrIn,0},{"coefJzOut",&df::DoublePowerLawParam::coefJzOut,2},{"rotFrac",&df::DoublePowerLawParam::rotFrac,1.1},{"rotFrac",&df::DoublePowerLawParam::rotFrac,NAN},{"Jcore",&df::DoublePowerLawParam::Jcore,-1},{"Jcutoff",&df::DoublePowerLawParam::Jcutoff,-1},{"Jcutoff",&df::DoublePowerLawParam::Jcutoff,NAN}};
    for(auto& x:b) if(begin(fmt("halo reject %s=%g",x.n,x.bad))) { df::DoublePowerLawParam p; p.norm=1; p.J0=1; p.slopeIn=1; p.slopeOut=5; p.*(x.m)=x.bad; bool thrown=false; try { df::DoublePowerLaw f(p); } catch(std::exception&) { thrown=true; } check(thrown,"invalid parameter accepted: %s=%g",x.n,x.bad); outcome("reject"); }
}
static double qe(double x, double q) { return q==0? exp(-x) : exp(-log1p(q*x)/q); }
static void expo() {
    const double q[][3]={{0,0,0},{0.3,0,0},{0,0.4,0},{0,0,0.2},{0.5,0.5,0.5},{1e-9,1e-5,1e-8}}, add[][2]={{0,0},{0.1,0},{0,0.3},{0.2,0.5}}, co[][2]={{1,0.25},{0,0},{0.5,1.5}}, sc[][3]={{0.3,0.1,1.2},{1,1,1},{0.05,2,0.7}};
    int n=0;
    for(auto& s:sc) for(auto& c:co) for(auto& a:add) for(auto& qq:q) { n++; if(!thorough()&&n%3!=1) continue; if(!begin(fmt("exponential J0=(%g,%g,%g) coef=(%g,%g) add=(%g,%g) q=(%g,%g,%g)",s[0],s[1],s[2],c[0],c[1],a[0],a[1],qq[0],qq[1],qq[2]))) continue;
        df::ExponentialParam p; p.norm=3; p.Jr0=s[0]; p.Jz0=s[1]; p.Jphi0=s[2]; p.coefJr=c[0]; p.coefJz=c[1]; p.addJden=a[0]; p.addJvel=a[1]; p.qJr=qq[0]; p.qJz=qq[1]; p.qJphi=qq[2];
        try { df::Exponential f(p); Opt o; o.name="Exponential"; o.J0=1; o.ftol= qq[0]==1e-9?0.02:1e-11; o.parity=0; o.dtol= qq[0]==1e-9?1.0:2e-7;
            o.formula=[&](const Actions& J){ double t=fabs(J.Jphi)+c[0]*J.Jr+c[1]*J.Jz, Jd=sqrt(t*t+a[0]*a[0]), Jv=sqrt(t*t+a[1]*a[1]), K=J.Jr-(J.Jphi<0?J.Jphi:0); double q0=qq[0]==1e-9?0:qq[0], q1=qq[1], q2=qq[2]==1e-8?0:qq[2]; return 3/pow(2*PI,3)*Jd/pow(s[2],2)*qe(Jd/s[2],q2)*Jv/pow(s[0],2)*qe(Jv*K/pow(s[0],2),q0)*Jv/pow(s[1],2)*qe(Jv*J.Jz/pow(s[1],2),q1); };
            generic(f,o);
            if(n%2==1||thorough()) if(qq[0]<0.4&&qq[1]<0.45&&qq[2]<0.4&&s[0]>0.1) checkMass(f,"Exponential",1,false,0.01);
            { utils::KeyValueMap kv; kv.set("type","Exponential"); kv.set("mass",0.7); kv.set("Jr0",s[0]); kv.set("Jz0",s[1]); kv.set("Jphi0",s[2]); kv.set("coefJr",c[0]); kv.set("coefJz",c[1]); kv.set("addJden",a[0]); kv.set("addJvel",a[1]); kv.set("qJr",qq[0]); kv.set("qJz",qq[1]); kv.set("qJphi",qq[2]); PtrDistributionFunction g=df::createDistributionFunction(kv); check(close(g->totalMass(),0.7,1e-5),"factory: mass=0.7 gives %.8g",g->totalMass()); }
            if(n%9==1) sampling(f,"Exponential",f.totalMass(),0.1);
            outcome(fmt("exp %d %d %d",qq[0]>0,a[0]>0,a[1]>0));
        } catch(std::exception& e) { vh::fail(std::string("exception: ")+e.what()); } }
}
static void quasiiso() {
    const char* pots[]={"type=MiyamotoNagai mass=1 scaleRadius=1 scaleHeight=0.3","type=Spheroid mass=1 scaleRadius=1 gamma=1.5 beta=4 alpha=1 axisRatioZ=0.8","type=Spheroid mass=2 gamma=1 beta=4 alpha=1 scaleRadius=1 axisRatioZ=0.6"};
    const double q[][3]={{0,0,0},{0.3,0.2,0.1},{0,0.5,0},{1e-9,0,0.5}}; int n=0;
    for(int ip=0;ip<3;ip++) { potential::PtrPotential pot;
        for(int hz=0;hz<2;hz++) for(double jm:{0.,0.2}) for(double sm:{0.,0.05}) for(double cr:{1.,0.}) for(auto& qq:q) { n++; if(!thorough()&&n%3!=1) continue; if(!begin(fmt("quasiisothermal pot%d %s Jmin=%g sigmamin=%g coefJr=%g q=(%g,%g,%g)",ip,hz?"Hdisk":"sigmaz",jm,sm,cr,qq[0],qq[1],qq[2]))) continue;
            try { if(!pot) pot=potential::createPotential(utils::KeyValueMap(pots[ip])); potential::Interpolator intp(*pot);
                df::QuasiIsothermalParam p; p.Sigma0=5; p.Rdisk=0.8; p.sigmar0=0.4; p.Rsigmar=2; if(hz) p.Hdisk=0.15; else { p.sigmaz0=0.3; p.Rsigmaz=2.5; } p.Jmin=jm; p.sigmamin=sm; p.coefJr=cr; p.qJr=qq[0]; p.qJz=qq[1]; p.qJphi=qq[2];
                if(hz) p.sigmaz0=p.Rsigmaz=0; else p.Hdisk=0;
                df::QuasiIsothermal f(p,intp); Opt o; o.name="QuasiIsothermal"; o.J0=0.5; o.parity=0; o.dtol=1e-5; o.ftol=2e-4;
                o.formula=[&](const Actions& J)->double { double t=fabs(J.Jphi)+cr*J.Jr+0.25*J.Jz, Jh=sqrt(t*t+jm*jm); if(Jh==0) return NAN; double R=potential::R_from_Lz(*pot,Jh), ka,nu,Om; potential::epicycleFreqs(*pot,R,ka,nu,Om);
                    double s2=pow(0.4*exp(-R/2),2)+sm*sm, z2=(hz?2*pow(0.15*nu,2):pow(0.3*exp(-R/2.5),2))+sm*sm, K=ka*J.Jr-(J.Jphi<0?2*Om*J.Jphi:0); double q0=qq[0]==1e-9?0:qq[0];
                    return Om/(2*PI*PI*ka*ka)*5*(1-qq[2])*qe(R/0.8,qq[2])*ka*(1-q0)/s2*qe(K/s2,q0)*nu*(1-qq[1])/z2*qe(nu*J.Jz/z2,qq[1]); };
                o.singval=[&](const Actions& J){ return jm==0 && fabs(J.Jphi)+cr*J.Jr+0.25*J.Jz==0; };
                o.singder=[&](const Actions& J){ return jm==0 && fabs(J.Jphi)+cr*J.Jr+0.25*J.Jz==0; };
                // the exponent can be large: the interpolation error of the frequencies is amplified; compare on a log scale
                auto g=o.formula; o.formula=nullptr; generic(f,o);
                V L=lattice(o.J0); for(double r:L) for(double z:L) for(double ph:L) for(int sg=1;sg>=-1;sg-=2) { Actions J(r,z,sg*ph); if(o.singval(J)) continue; double v=f.value(J), w=g(J); if(w<1e-200&&v<1e-190) continue; double tol=2e-5*(1+fabs(log(w))); check(fabs(log(v/w))<=tol,"value %.9g, formula %.9g at %s",v,w,sj(J).c_str());
                    Actions K=J; K.Jphi=-fabs(J.Jphi); Actions P=J; P.Jphi=fabs(J.Jphi); check(f.value(K)<=f.value(P),"counter-rotating value exceeds the co-rotating one at %s",sj(J).c_str()); }
                if(qq[0]<0.4&&qq[1]<0.4&&qq[2]<0.4&&n%2==1) checkMass(f,"QuasiIsothermal",0.5,false,3e-3);
                utils::KeyValueMap kv; kv.set("type","QuasiIsothermal"); kv.set("mass",0.7); kv.set("Rdisk",0.8); kv.set("sigmar0",0.4); kv.set("Rsigmar",2.); if(hz) kv.set("Hdisk",0.15); else { kv.set("sigmaz0",0.3); kv.set("Rsigmaz",2.5); } kv.set("Jmin",jm); kv.set("sigmamin",sm); kv.set("coefJr",cr); kv.set("qJr",qq[0]); kv.set("qJz",qq[1]); kv.set("qJphi",qq[2]);
                if(n%2==1) { PtrDistributionFunction h=df::createDistributionFunction(kv,pot.get()); check(close(h->totalMass(),0.7,1e-5),"factory: mass=0.7 gives %.8g",h->totalMass()); Actions J(0.1,0.05,0.6); check(close(h->value(J)/f.value(J),0.7/f.totalMass(),1e-4),"factory: different DF: ratio %.8g instead of %.8g",h->value(J)/f.value(J),0.7/f.totalMass()); }
                outcome(fmt("qi %d %d %d",hz,jm>0,sm>0));
            } catch(std::exception& e) { vh::fail(std::string("exception: ")+e.what()); } } }
}
static void composite() {
    auto mk=[](const std::string& s, const potential::BasePotential* p=NULL){ return df::createDistributionFunction(utils::KeyValueMap(s),p); };
    potential::PtrPotential pl=potential::createPotential(utils::KeyValueMap("type=Plummer mass=1 scaleRadius=1"));
    std::vector<PtrDistributionFunction> c; c.push_back(mk("type=DoublePowerLaw norm=1 J0=1 slopeIn=1 slopeOut=5 rotFrac=0.5 Jphi0=0.3")); c.push_back(mk("type=Exponential norm=2 Jr0=0.3 Jz0=0.2 Jphi0=1 addJden=0.1 addJvel=0.1")); c.push_back(mk("type=QuasiSpherical",pl.get())); c.push_back(mk("type=DoublePowerLaw norm=3 J0=0.5 slopeIn=0 slopeOut=4 Jcutoff=3"));
    int N=c.size();
    for(int len=1;len<=(thorough()?4:3);len++) { int tot=1; for(int k=0;k<len;k++) tot*=N; for(int code=0;code<tot;code++) { std::string id="composite"; std::vector<PtrDistributionFunction> v; int x=code; for(int k=0;k<len;k++) { id+=fmt(" %d",x%N); v.push_back(c[x%N]); x/=N; } if(!vh::begin(id)) continue;
        df::CompositeDF f(v); check(f.numValues()==(unsigned)len,"numValues %d",f.numValues()); std::vector<Actions> pts; for(double r:{0.,0.4}) for(double z:{1e-3,2.}) for(double p:{-1.,0.,0.7}) pts.push_back(Actions(r,z,p)); size_t np=pts.size();
        V a(np),b(np*len); std::vector<DerivByActions> da(np),db(np*len); f.evalmany(np,&pts[0],false,&a[0],&da[0]); f.evalmany(np,&pts[0],true,&b[0],&db[0]); V a0(np),b0(np*len); f.evalmany(np,&pts[0],false,&a0[0]); f.evalmany(np,&pts[0],true,&b0[0]);
        for(size_t i=0;i<np;i++) { double s=0; DerivByActions ds={0,0,0}; S.transitions++; for(int k=0;k<len;k++) { double w; DerivByActions d; v[k]->evalDeriv(pts[i],&w,&d); s+=w; ds.dbyJr+=d.dbyJr; ds.dbyJz+=d.dbyJz; ds.dbyJphi+=d.dbyJphi; check(b[i*len+k]==w&&b0[i*len+k]==w,"separate value of component %d: %.15g vs %.15g",k,b[i*len+k],w); check(db[i*len+k].dbyJr==d.dbyJr&&db[i*len+k].dbyJz==d.dbyJz&&db[i*len+k].dbyJphi==d.dbyJphi,"separate derivative of component %d",k); }
            double v1; DerivByActions d1; f.evalDeriv(pts[i],&v1,&d1); double v0=f.value(pts[i]);
            check(close(a[i],s,1e-14)&&close(a0[i],s,1e-14)&&close(v1,s,1e-14)&&close(v0,s,1e-14),"composite value %.15g/%.15g/%.15g, sum %.15g",a[i],v1,v0,s);
            for(auto& d:{d1,da[i]}) check(close(d.dbyJr,ds.dbyJr,1e-13)&&close(d.dbyJz,ds.dbyJz,1e-13)&&close(d.dbyJphi,ds.dbyJphi,1e-13,1e-13*fabs(ds.dbyJr)),"composite derivatives (%.12g %.12g %.12g), sum (%.12g %.12g %.12g)",d.dbyJr,d.dbyJz,d.dbyJphi,ds.dbyJr,ds.dbyJz,ds.dbyJphi); }
        if(len<=2) { double m=0; for(auto& p:v) m+=p->totalMass(); check(close(f.totalMass(),m,1e-4),"total mass of a composite %.8g, sum %.8g",f.totalMass(),m); }
        outcome(fmt("composite %d",len)); } }
    if(begin("composite empty")) { bool t=false; try { std::vector<PtrDistributionFunction> e; df::CompositeDF f(e); } catch(std::exception&) { t=true; } check(t,"empty composite accepted"); }
    // scaling of the action space
    df::ActionSpaceScalingTriangLog s1; df::ActionSpaceScalingRect s2(0.7,2.1); const df::BaseActionSpaceScaling* sc[2]={&s1,&s2};
    for(int k=0;k<2;k++) if(begin(fmt("scaling %d",k))) { V g; for(int i=0;i<=24;i++) g.push_back(i/24.); g.push_back(0.021); g.push_back(0.979); for(double u:g) for(double v:g) for(double w:g) { double x[3]={u,v,w}, jac; S.transitions++; Actions J=sc[k]->toActions(x,&jac); check(J.Jr>=0&&J.Jz>=0,"negative or NaN action %s at (%g %g %g)",sj(J).c_str(),u,v,w); check(jac>=0&&isfin(jac),"jacobian %g at (%g %g %g)",jac,u,v,w); if(jac==0||u<0.03||u>0.97||v<0.01||v>0.99) continue;
        if(J.Jr>0||J.Jz>0) { double y[3]; sc[k]->toScaled(J,y); check(fabs(y[0]-u)<1e-9&&fabs(y[1]-v)<1e-7&&fabs(y[2]-w)<1e-9,"scaling %d: round trip of (%g %g %g) gives (%.10g %.10g %.10g)",k,u,v,w,y[0],y[1],y[2]); }
        if(w>0&&w<1) { double M[3][3], h=1e-5; for(int c=0;c<3;c++) { double a[3]={u,v,w},b[3]={u,v,w}; a[c]+=h; b[c]-=h; Actions A=sc[k]->toActions(a),B=sc[k]->toActions(b); M[0][c]=(A.Jr-B.Jr)/(2*h); M[1][c]=(A.Jz-B.Jz)/(2*h); M[2][c]=(A.Jphi-B.Jphi)/(2*h); } double det=M[0][0]*(M[1][1]*M[2][2]-M[1][2]*M[2][1])-M[0][1]*(M[1][0]*M[2][2]-M[1][2]*M[2][0])+M[0][2]*(M[1][0]*M[2][1]-M[1][1]*M[2][0]); check(close(fabs(det),jac,2e-4),"scaling %d: jacobian %.8g, determinant %.8g at (%g %g %g)",k,jac,fabs(det),u,v,w); } } outcome("scaling"); }
}
// ---- spherical inversion
struct FnPot: math::IFunction { potential::PtrPotential p; FnPot(potential::PtrPotential q):p(q){} void evalDeriv(double r,double* v,double* d,double* d2) const { coord::GradCyl g; coord::HessCyl h; p->eval(coord::PosCyl(r,0,0),v,&g,&h); if(d) *d=g.dR; if(d2) *d2=h.dR2; } unsigned numDerivs() const { return 2; } };
static void spherical() {
    struct M { const char* pot; const char* dens; int kind; double bmax; }; // kind: 1 Plummer, 2 Hernquist, 3 isochrone (analytic DF); cusp limits beta0 <= gamma/2
    const M m[]={{"type=Plummer mass=1 scaleRadius=1","",1,0},{"type=Spheroid mass=1 scaleRadius=1 gamma=1 beta=4 alpha=1","",2,0.5},{"type=Isochrone mass=1 scaleRadius=1","",3,0},{"type=NFW mass=1 scaleRadius=1","",0,0.5},{"type=Spheroid mass=1 scaleRadius=1 gamma=1.5 beta=5 alpha=2 outerCutoffRadius=20","",0,0.7},{"type=Plummer mass=1 scaleRadius=1","type=Plummer mass=0.5 scaleRadius=0.4",0,0},{"type=NFW mass=5 scaleRadius=3","type=Dehnen mass=1 scaleRadius=0.5 gamma=1",0,0.5},{"type=Dehnen mass=1 scaleRadius=1 gamma=0.5","",0,0.25}};
    const double an[][2]={{0,INF},{-0.5,INF},{-0.3,INF},{0.25,INF},{0.5,INF},{0,1.5},{0.25,2},{-0.5,3}};
    for(int i=0;i<8;i++) for(auto& a:an) { if(a[0]>m[i].bmax) continue; if(!begin(fmt("spherical pot%d beta0=%g r_a=%g",i,a[0],a[1]))) continue;
        try { potential::PtrPotential pot=potential::createPotential(utils::KeyValueMap(m[i].pot)); potential::PtrDensity dens= m[i].dens[0]? potential::createDensity(utils::KeyValueMap(m[i].dens)) : potential::PtrDensity(pot);
            df::QuasiSphericalCOM f(potential::Sphericalized<potential::BaseDensity>(*dens),potential::Sphericalized<potential::BasePotential>(*pot),a[0],a[1]);
            auto fEL=[&](double E,double L)->double { df::ClassicalIntegrals c; c.E=E; c.L=L; c.Lz=0.3*L; double v; f.evalDeriv(c,&v); return v; };
            double Phi0=pot->value(coord::PosCyl(0,0,0)); bool pos=true;
            // density and anisotropy at several radii: substitution t^2 regularises both the sin^(1-2 beta) edge and the endpoint v->ve
            for(double r:{0.01,0.1,0.5,1.,3.,10.,30.}) { S.transitions++; double P=pot->value(coord::PosCyl(r,0,0)), ve=sqrt(-2*P), rho=0, vr2=0, vt2=0;
                const int K=3; for(int k=0;k<K;k++) for(int q=0;q<NG;q++) { double x=(k+math::GLPOINTS[NG][q])/K, wx=math::GLWEIGHTS[NG][q]/K; const double pw=4; double th=PI/2*pow(x,pw), jth=PI/2*pw*pow(x,pw-1)*wx, c=cos(th), s=sin(th), vm=ve/sqrt(1+pow(r*s/a[1],2));
                    for(int k2=0;k2<4;k2++) for(int q2=0;q2<NG;q2++) { double t=(k2+math::GLPOINTS[NG][q2])/4, u=sin(PI/2*t*t*t), v=vm*u, jv=vm*PI/2*3*t*t*cos(PI/2*t*t*t)*math::GLWEIGHTS[NG][q2]/4, ff=fEL(P+v*v/2,r*v*s); if(!(ff>=0&&isfin(ff))) pos=false; double w=4*PI*ff*jv*jth*v*v*s; rho+=w; vr2+=w*v*v*c*c; vt2+=w*v*v*s*s/2; } }
                check(pos,"f(E,L) negative or NaN for an allowed velocity at r=%g",r); double d0=dens->density(coord::PosCyl(r,0,0)), be=1-vt2/vr2, b0=(a[0]+pow(r/a[1],2))/(1+pow(r/a[1],2));
                bool ok=true; // the inversion may not have a non-negative solution; then the density cannot be reproduced: detect by the DF vanishing inside
                for(double e=0.02;e<1;e+=0.02) { double Q= Phi0==-INF? P*e : Phi0*e; df::ClassicalIntegrals ci; ci.E=Q; ci.L=ci.Lz=0; double v; f.evalDeriv(ci,&v); if(a[0]==0 && v==0 && Q>0.999*(Phi0==-INF?2*P:Phi0) ) ok=false; }
                if(ok&&!(i==4&&r>=10)&&!(i==3&&a[1]<INF)) { check(close(rho,d0,3e-3),"density generated by the DF at r=%g is %.8g instead of %.8g",r,rho,d0); check(fabs(be-b0)<3e-3,"anisotropy of the DF at r=%g is %.6g instead of %.6g",r,be,b0); } }
            // analytic DFs
            if(m[i].kind&&a[0]==0&&a[1]==INF) for(double e:{0.01,0.05,0.2,0.5,0.8,0.95}) { double E=Phi0*e, F=0; if(m[i].kind==1) F=24*sqrt(2.)/(7*pow(PI,3))*pow(-E,3.5); else { double q=sqrt(-E); if(m[i].kind==2) F=1/(8*sqrt(2.)*pow(PI,3))*pow(1-q*q,-2.5)*(3*asin(q)+q*sqrt(1-q*q)*(1-2*q*q)*(8*pow(q,4)-8*q*q-3)); else { double x=-E; F=1/(sqrt(2.)*pow(2*PI,3))*sqrt(x)/pow(2*(1-x),4)*(27-66*x+320*x*x-240*x*x*x+64*pow(x,4)+3*(16*x*x+28*x-9)*asin(sqrt(x))/sqrt(x*(1-x))); } }
                check(close(fEL(E,0.1),F,3e-4),"DF at E=%g Phi0: %.9g, analytic %.9g",e,fEL(E,0.1),F); }
            // action form agrees with the classical form; derivatives; generic checks
            Opt o; o.name="QuasiSpherical"; o.J0=0.5; o.parity=1; o.dtol=i==4?0.03:5e-3; o.singval=[&](const Actions& J){ return (a[0]>0&&J.Jz+fabs(J.Jphi)==0) || (a[0]!=0&&J.Jr+J.Jz+fabs(J.Jphi)==0) || (J.Jr+J.Jz+fabs(J.Jphi)==0&&(Phi0==-INF||m[i].kind!=1)); }; o.singder=[&](const Actions& J){ return J.Jr+J.Jz+fabs(J.Jphi)<2e-3 || J.Jz+fabs(J.Jphi)<2e-3*0.5; };
            generic(f,o);
            actions::ActionFinderSpherical af(*pot); for(double r:{0.2,1.,5.}) for(double vr:{0.,0.3}) for(double vt:{0.05,0.4}) { double P=pot->value(coord::PosCyl(r,0,0)), ve=sqrt(-2*P); coord::PosVelCyl x(r,0,0,vr*ve,0.6*vt*ve,0.8*vt*ve); Actions J=af.actions(x); double E=P+0.5*(pow(vr*ve,2)+pow(vt*ve,2)), L=r*vt*ve; check(close(f.value(J),fEL(E,L),1e-4),"f(J)=%.9g, f(E,L)=%.9g at r=%g",f.value(J),fEL(E,L),r); }
            outcome(fmt("spherical %d %d",i,a[1]<INF));
        } catch(std::exception& e) { vh::fail(std::string("exception: ")+e.what()); } }
    // isotropic f(h): Eddington on a phase-volume grid, spherical models, diffusion integrals, density
    for(int i=0;i<8;i++) if(i!=3&&begin(fmt("isotropic pot%d",i))) { try {
        potential::PtrPotential pot=potential::createPotential(utils::KeyValueMap(m[i].pot)); potential::PtrDensity dens= m[i].dens[0]? potential::createDensity(utils::KeyValueMap(m[i].dens)) : potential::PtrDensity(pot); potential::Sphericalized<potential::BasePotential> sp(*pot); potential::Sphericalized<potential::BaseDensity> sd(*dens);
        potential::PhaseVolume pv(sp); math::LogLogSpline f=df::createSphericalIsotropicDF(sd,sp); df::QuasiSphericalCOM g(sd,sp,0,INF);
        V Ps; double Phi0=pot->value(coord::PosCyl(0,0,0)); for(double r:{0.01,0.1,0.5,1.,3.,10.,30.}) { double P=pot->value(coord::PosCyl(r,0,0)); Ps.push_back(P); for(double e:{0.05,0.5,0.9}) { df::ClassicalIntegrals c; c.E=P*e; c.L=c.Lz=0; double v; g.evalDeriv(c,&v); check(close(f(pv(c.E)),v,2e-3),"f(h(E))=%.8g, f(E)=%.8g at E=%g",f(pv(c.E)),v,c.E); } }
        V sig, rho=galaxymodel::computeDensity(f,pv,Ps,&sig); const double rr[]={0.01,0.1,0.5,1,3,10,30}; galaxymodel::SphericalIsotropicModelLocal mod(pv,f,f);
        for(int k=0;k<(i==4?5:7);k++) { double d=dens->density(coord::PosCyl(rr[k],0,0)); check(close(rho[k],d,3e-3),"computeDensity at r=%g: %.8g instead of %.8g",rr[k],rho[k],d); check(close(mod.density(Ps[k]),d,5e-3),"SphericalIsotropicModelLocal.density at r=%g: %.8g instead of %.8g",rr[k],mod.density(Ps[k]),d);
            double s2=0,s0=0; double ve=sqrt(-2*Ps[k]); for(int q=0;q<8;q++) for(int j=0;j<NG;j++) { double t=(q+math::GLPOINTS[NG][j])/8,u=sin(PI/2*t),v=ve*u,w=math::GLWEIGHTS[NG][j]/8*ve*PI/2*cos(PI/2*t)*4*PI*v*v*f(pv(Ps[k]+v*v/2)); s0+=w; s2+=w*v*v/3; }
            check(close(s0,rho[k],2e-3),"velocity integral of f(h) at r=%g: %.8g, computeDensity %.8g",rr[k],s0,rho[k]); check(close(sig[k],sqrt(s2/s0),2e-3),"velocity dispersion at r=%g: %.8g, quadrature %.8g",rr[k],sig[k],sqrt(s2/s0)); check(close(mod.velDisp(Ps[k]),sqrt(s2/s0),5e-3),"SphericalIsotropicModelLocal.velDisp at r=%g: %.8g, quadrature %.8g",rr[k],mod.velDisp(Ps[k]),sqrt(s2/s0)); }
        double Mt=dens->totalMass(); if(isfin(Mt)) check(close(mod.totalMass,Mt,3e-3),"total mass of the spherical model %.8g instead of %.8g",mod.totalMass,Mt);
        // I0, Kg, Kh as integrals of f over h (log scale)
        for(double e:{0.8,0.4,0.1}) { double E= Phi0==-INF? Ps[3]*e*2 : Phi0*e, h=pv(E); auto go=[&](double lo,double hi,int what){ return gl([&](double l){ double x=exp(l), gg, EE=pv.E(x); double hh,g2; pv.evalDeriv(EE,&hh,&g2); gg=g2; double F=f(x)*x; return what==0? F/gg : what==1? F : F*x/gg; },lo,hi,60); };
            double lh=log(h); check(close(mod.I0(h),go(lh,lh+45,0),3e-3),"I0 at E=%g: %.8g, quadrature %.8g",E,mod.I0(h),go(lh,lh+45,0)); check(close(mod.Kg(h),go(lh-45,lh,1),3e-3),"Kg at E=%g: %.8g, quadrature %.8g",E,mod.Kg(h),go(lh-45,lh,1)); check(close(mod.Kh(h),go(lh-45,lh,2),3e-3),"Kh at E=%g: %.8g, quadrature %.8g",E,mod.Kh(h),go(lh-45,lh,2));
            // velocity diffusion coefficients at a point: Rosenbluth integrals over the isotropic distribution
            double Phi=Ps[3]; if(E>Phi) { double v=sqrt(2*(E-Phi)), ve=sqrt(-2*Phi), n1=0,n2=0,n3=0; auto fv=[&](double u){ return f(pv(Phi+u*u/2)); }; n1=gl([&](double u){ return u*u*fv(u); },0,v,8); n2=gl([&](double u){ return pow(u,4)*fv(u); },0,v,8); n3=gl([&](double t){ double u=v+(ve-v)*(1-(1-t)*(1-t)); return 2*(ve-v)*(1-t)*u*fv(u); },0,1,8);
                double dv,d2p,d2t; mod.evalLocal(Phi,E,1.,dv,d2p,d2t); double c=16*PI*PI; // B&T L.26 with G=m=1: <dv>=-2c/v^2 n1, <dv2par>=2/3 c (n2/v^3+n3), <dv2per>=2/3 c (3 n1/v - n2/v^3 + 2 n3)
                check(close(dv,-2*c*n1/v,5e-3),"drift coefficient v*dv %.8g, quadrature %.8g (E=%g)",dv,-2*c*n1/v,E); check(close(d2p,2./3*c*(n2/pow(v,3)+n3),5e-3),"parallel diffusion %.8g, quadrature %.8g (E=%g)",d2p,2./3*c*(n2/pow(v,3)+n3),E); check(close(d2t,2./3*c*(3*n1/v-n2/pow(v,3)+2*n3),5e-3),"perpendicular diffusion %.8g, quadrature %.8g (E=%g)",d2t,2./3*c*(3*n1/v-n2/pow(v,3)+2*n3),E); } }
        // action-based wrapper
        if(dens.get()==pot.get()||true) { df::QuasiSphericalIsotropic q(f,*pot); Opt o; o.name="QuasiSphericalIsotropic"; o.J0=0.5; o.parity=1; o.dtol=5e-3; o.singval=[&](const Actions& J){ return J.Jr+J.Jz+fabs(J.Jphi)==0; }; o.singder=[&](const Actions& J){ return J.Jr+J.Jz+fabs(J.Jphi)<2e-3 || J.Jz+fabs(J.Jphi)<1e-3; }; generic(q,o); }
        // fit from a deterministic set of quantiles of M(h)
        if(isfin(Mt)) { const int N=4000; V h(N),w(N,mod.totalMass/N); for(int k=0;k<N;k++) { double target=mod.totalMass*(k+0.5)/N, lo=-60,hi=60; for(int it=0;it<60;it++) { double x=0.5*(lo+hi); if(mod.Kg(exp(x))<target) lo=x; else hi=x; } h[k]=exp(0.5*(lo+hi)); } math::LogLogSpline ft=df::fitSphericalIsotropicDF(h,w,25); for(int k=200;k<N-200;k+=200) check(close(ft(h[k]),f(h[k]),0.1),"DF fitted to quantiles at h=%g: %.6g instead of %.6g",h[k],ft(h[k]),f(h[k])); double Mf=gl([&](double l){ return exp(l)*ft(exp(l)); },-45,45,60); check(close(Mf,mod.totalMass,0.01),"mass of the fitted DF %.6g instead of %.6g",Mf,mod.totalMass); }
        outcome("isotropic");
    } catch(std::exception& e) { vh::fail(std::string("exception: ")+e.what()); } }
}
int main(int argc,char** argv) { init(argc,argv); utils::msg=models::silent; halo(); expo(); quasiiso(); composite(); spherical(); return finish(); }
