// E01: C, Fortran and NEMO interfaces against the C++ classes: every model of the palette x point x time x subset of requested outputs,
// every function, valid and invalid specifications, several handles alive at once, deletion in every order.
#include "models.h"
#include "interface_c.h"
#include "potential_utils.h"
#include "actions_factory.h"
#include "math_core.h"
#include <cstring>
#include <cmath>
using namespace vh;
extern "C" {
 void agama_initfromfile_(void*, char*, long, long); void agama_initfromparam_(void*, char*, long, long);
 void agama_initfrompot_(void*, char*, double(*)(double*,double*), long, long); void agama_initfromdens_(void*, char*, double(*)(double*), long, long);
 double agama_potential_(void*, double*, long); double agama_potforce_(void*, double*, double*, long); double agama_potforcederiv_(void*, double*, double*, double*, long); double agama_density_(void*, double*, long);
 typedef void(*acc_t)(int,double,int,const void*,const void*,const void*,const int*,void*,void*,int,char);
 void potential_double(const int*,const double*,double*,double*,const double*); void potential_float(const int*,const float*,float*,float*,const float*);
 void inipotential(const int*,const double*,const char*); void iniacceleration(const double*,int,const char*,acc_t*,bool*,bool*);
}
static bool eq(double a,double b) { return a==b||(a!=a&&b!=b); }
static std::string et(const std::string& s) { return s.substr(0,s.find("Stack trace")); }
static bool near(double a,double b,double t) { return eq(a,b)||fabs(a-b)<=t*(1e-300+fmax(fabs(a),fabs(b))); }
static const double PTS[][3]={{1,.5,.25},{-.7,1.3,-2},{0,0,1.5},{2,0,0},{0,-.3,0},{.01,.02,-.03},{30,-20,10},{0,0,0}}; static const int NP=8;
static const double T[2]={0,1.25};
static std::string comma(const char* spec) { std::string r; for(const char* c=spec;*c;c++) { if(*c=='@') r+=S.scratch; else r+=*c; } return r; }
// ---------------- C interface
static void cmodel(const models::M& m) {
    std::string spec=comma(m.spec); if(spec.find(';')!=std::string::npos) return;    // one component per string
    // separators: blanks (as is) and ", "
    for(int sep=0;sep<3;sep++) {
        if(!begin(fmt("C %s sep%d",m.spec,sep))) continue;
        std::string s; for(size_t i=0;i<spec.size();i++) { if(spec[i]==' ') { if(sep==0) s+=" "; else s+=sep==1?", ":","; } else s+=spec[i]; }
        bool list=spec.find(',')!=std::string::npos; if(list) continue;   // lists of numbers cannot be given in a single string (the comma is a separator)
        potential::PtrPotential ref; try { ref=potential::createPotential(utils::KeyValueMap(s)); } catch(std::exception& e) { check(false,"reference: %s",e.what()); continue; }
        agama_Potential* P=agama_createPotential(s.c_str()); if(!check(P!=NULL,"no object: %s",agama_getError())) continue;
        S.states++;
        for(int i=0;i<NP;i++) for(int t=0;t<2;t++) {
            double v; coord::GradCar g; coord::HessCar h; coord::PosCar pos(PTS[i][0],PTS[i][1],PTS[i][2]);
            ref->eval(pos,&v,&g,&h,T[t]); double G[3]={g.dx,g.dy,g.dz}, H[6]={h.dx2,h.dy2,h.dz2,h.dxdy,h.dydz,h.dxdz};
            for(int o=0;o<4;o++) { double d[5]={-7,-7,-7,-7,-7}, d2[8]={-7,-7,-7,-7,-7,-7,-7,-7}; S.transitions++;
                double v1,v0; coord::GradCar g1; coord::HessCar h1; ref->eval(pos,&v0,o&1?&g1:NULL,o&2?&h1:NULL,T[t]); v1=agama_evalPotential(P,PTS[i],T[t],o&1?d+1:NULL,o&2?d2+1:NULL);
                bool ok=eq(v1,v0)&&(near(v1,v,1e-12)||!std::isfinite(v)); if(o&1) for(int k=0;k<3;k++) ok&=near(d[k+1],G[k],1e-9)||fabs(d[k+1]-G[k])<1e-11||!std::isfinite(G[k]); if(o&2) for(int k=0;k<6;k++) ok&=near(d2[k+1],H[k],1e-9)||fabs(d2[k+1]-H[k])<1e-10||!std::isfinite(H[k]);
                ok&=d[0]==-7&&d[4]==-7&&d2[0]==-7&&d2[7]==-7; if(!(o&1)) for(int k=0;k<5;k++) ok&=d[k]==-7; if(!(o&2)) for(int k=0;k<8;k++) ok&=d2[k]==-7;
                check(ok,"evalPotential outputs=%d point %d t=%g: Phi=%.17g (%.17g), deriv=%g %g %g (%g %g %g), deriv2=%g %g %g %g %g %g (%g %g %g %g %g %g)",o,i,T[t],v1,v,d[1],d[2],d[3],G[0],G[1],G[2],d2[1],d2[2],d2[3],d2[4],d2[5],d2[6],H[0],H[1],H[2],H[3],H[4],H[5]); }
            double dn=ref->density(pos,T[t]), dc=agama_evalDensity((agama_Density*)P,PTS[i],T[t]); check(eq(dn,dc),"density of a potential at point %d: %.17g (%.17g)",i,dc,dn);
        }
        // scalar functions; energies from the potential at several points
        bool axi=isZRotSymmetric(*ref); (void)axi; 
        for(int i=0;i<5;i++) for(int f=0;f<3;f++) { double E=ref->value(coord::PosCar(PTS[i][0],PTS[i][1],PTS[i][2])), Lz=f==0?0:.4*f, r0,r1; if(f==2) E=.3;
            std::string e0,e1; S.transitions++;
            #define CMP(NAME,A,B) r0=r1=NAN; e0=e1=""; try { r0=A; } catch(std::exception& e) { e0=e.what(); } try { r1=B; } catch(std::exception& e) { e1=e.what(); } check(e1.empty(),NAME " throws an exception through the C interface: %s",e1.c_str()); check(!e0.empty()||eq(r0,r1),NAME "(E=%g): %.17g (%.17g)",E,r1,r0);
            CMP("R_circ",potential::R_circ(*ref,E),agama_R_circ(P,E)) CMP("R_max",potential::R_max(*ref,E),agama_R_max(P,E)) CMP("R_from_Lz",potential::R_from_Lz(*ref,Lz),agama_R_from_Lz(P,Lz))
            double a=-7,b=-7,c=-7,d=-7; CMP("findPlanarOrbitExtent",(potential::findPlanarOrbitExtent(*ref,E,Lz,a,b),0.),(agama_findPlanarOrbitExtent(P,E,Lz,&c,&d),0.)) if(e0.empty()) check(eq(a,c)&&eq(b,d),"findPlanarOrbitExtent: %g %g (%g %g)",c,d,a,b);
        }
        // action finder
        actions::PtrActionFinder af; std::string e0; try { af=actions::createActionFinder(ref); } catch(std::exception& e) { e0=e.what(); }
        agama_ActionFinder* A=agama_createActionFinder(P);
        check((A!=NULL)==(bool)af,"createActionFinder: %s vs %s",A?"object":agama_getError(),af?"object":e0.c_str()); if(!A&&!af) check(et(agama_getError())==et(e0)&&!e0.empty(),"error text '%s' instead of '%s'",agama_getError(),e0.c_str());
        static const double V[][3]={{.1,.4,.2},{-.3,.1,0},{0,0,0},{5,5,5}};
        double sc=0; { double ph=ref->value(coord::PosCar(1,.5,.25)); coord::GradCar g; ref->eval(coord::PosCar(1,.5,.25),NULL,&g); sc=sqrt(fabs(g.dx)+fabs(g.dy)+fabs(g.dz)); (void)ph; }
        for(int st=0;st<3;st++) { if(st==0&&!A) continue; double fd=st==1?.7:1e-3;
            for(int i=0;i<4;i++) for(int j=0;j<4;j++) { double pv[6]={PTS[i][0],PTS[i][1],PTS[i][2],V[j][0]*sc,V[j][1]*sc,V[j][2]*sc}; coord::PosVelCyl pc=toPosVelCyl(coord::PosVelCar(pv[0],pv[1],pv[2],pv[3],pv[4],pv[5]));
                for(int o=0;o<8;o++) { actions::Actions ac; actions::Angles an; actions::Frequencies fr; std::string er,ec; S.transitions++;
                    try { if(st==0) af->eval(pc,o&1?&ac:NULL,o&2?&an:NULL,o&4?&fr:NULL); else actions::eval(*ref,pc,o&1?&ac:NULL,o&2?&an:NULL,o&4?&fr:NULL,fd); } catch(std::exception& e) { er=e.what(); }
                    double x[3][5]; for(int k=0;k<15;k++) x[k/5][k%5]=-7;
                    try { if(st==0) agama_evalActionsAnglesFrequencies(A,pv,o&1?x[0]+1:NULL,o&2?x[1]+1:NULL,o&4?x[2]+1:NULL); else agama_evalActionsAnglesFrequenciesStandalone(P,fd,pv,o&1?x[0]+1:NULL,o&2?x[1]+1:NULL,o&4?x[2]+1:NULL); } catch(std::exception& e) { ec=e.what(); if(ec.empty()) ec="?"; }
                    check(ec.empty(),"actions (way %d) outputs=%d point %d,%d throw an exception through the C interface: %s",st,o,i,j,ec.c_str()); if(!ec.empty()) continue;
                    double y[3][3]={{ac.Jr,ac.Jz,ac.Jphi},{an.thetar,an.thetaz,an.thetaphi},{fr.Omegar,fr.Omegaz,fr.Omegaphi}}; bool ok=true;
                    for(int q=0;q<3;q++) { ok&=x[q][0]==-7&&x[q][4]==-7; for(int k=0;k<3;k++) ok&=!(o&(1<<q))?x[q][k+1]==-7:!er.empty()?x[q][k+1]!=x[q][k+1]:eq(x[q][k+1],y[q][k]); }
                    check(ok,"actions (way %d) outputs=%d point %d,%d: %g %g %g | %g %g %g | %g %g %g instead of %g %g %g | %g %g %g | %g %g %g %s",st,o,i,j,x[0][1],x[0][2],x[0][3],x[1][1],x[1][2],x[1][3],x[2][1],x[2][2],x[2][3],y[0][0],y[0][1],y[0][2],y[1][0],y[1][1],y[1][2],y[2][0],y[2][1],y[2][2],er.c_str()); } } }
        if(A) { // the finder remains valid after the potential handle is deleted, and the other way round
            double pv[6]={1,.5,.25,.1*sc,.4*sc,.2*sc}, a0[3],a1[3]; agama_evalActionsAnglesFrequencies(A,pv,a0,NULL,NULL); agama_deletePotential(P); P=NULL; agama_evalActionsAnglesFrequencies(A,pv,a1,NULL,NULL);
            check(eq(a0[0],a1[0])&&eq(a0[1],a1[1])&&eq(a0[2],a1[2]),"actions change after the deletion of the potential"); agama_deleteActionFinder(A); }
        if(P) agama_deletePotential(P);
        // density with the same parameters
        potential::PtrDensity rd; e0=""; try { rd=potential::createDensity(utils::KeyValueMap(s)); } catch(std::exception& e) { e0=e.what(); }
        agama_Density* D=agama_createDensity(s.c_str()); check((D!=NULL)==(bool)rd,"createDensity: %s vs %s",D?"object":agama_getError(),rd?"object":e0.c_str()); if(!D&&!rd) check(et(e0)==et(agama_getError())&&!e0.empty(),"error text '%s' instead of '%s'",agama_getError(),e0.c_str());
        if(D&&rd) { for(int i=0;i<NP;i++) for(int t=0;t<2;t++) { S.transitions++; double a=agama_evalDensity(D,PTS[i],T[t]),b=rd->density(coord::PosCar(PTS[i][0],PTS[i][1],PTS[i][2]),T[t]); check(eq(a,b),"density at point %d: %.17g (%.17g)",i,a,b); } }
        if(D) agama_deleteDensity(D);
        outcome(fmt("%s act%d dens%d",ref->name().c_str(),(int)(bool)af,(int)(bool)rd));
        // value of G: scales the potential, not the lengths
        if(spec.find("file")==std::string::npos) for(int gi=0;gi<3;gi++) { double G=gi==0?1:gi==1?2.5:43007.1; std::string sg=s+fmt("%sG=%.17g",sep==0?" ":sep==1?", ":",",G); agama_Potential* Q=agama_createPotential(sg.c_str()); if(!check(Q!=NULL,"G=%g: no object: %s",G,agama_getError())) continue;
            bool massless=spec.find("Logarithmic")!=std::string::npos||spec.find("Harmonic")!=std::string::npos||spec.find("Uniform")!=std::string::npos;
            if(!massless) for(int i=0;i<7;i++) { double d[3]; double v=agama_evalPotential(Q,PTS[i],0,d,NULL); double v0; coord::GradCar g; ref->eval(coord::PosCar(PTS[i][0],PTS[i][1],PTS[i][2]),&v0,&g); S.transitions++;
                double tol=m.expansion||spec.find(" p=")!=std::string::npos||spec.find(" q=")!=std::string::npos?1e-5:1e-9; check(near(v,G*v0,tol)&&(near(d[0],G*g.dx,10*tol)||fabs(d[0])<1e-6*G)&&(near(d[2],G*g.dz,10*tol)||fabs(d[2])<1e-6*G),"G=%g point %d: Phi=%.12g instead of %.12g, deriv %g %g %g instead of %g %g %g",G,i,v,G*v0,d[0],d[1],d[2],G*g.dx,G*g.dy,G*g.dz); }
            agama_deletePotential(Q); }
    } }
static void cinvalid() {
    static const char* bad[]={"","type=Nonexistent","type=","mass=1","type=Plummer mass=abc","type=Plummer, scaleRadius=-1","file=/nonexistent.ini","type=Dehnen gamma=5","type=Multipole","type=CylSpline","type=Ferrers q=2 p=3","type=KeplerBinary binary_q=-1","file=","type=Evolving","type=Disk mass=1 surfaceDensity=0 scaleRadius=0","type=Plummer G=abc","type=Spheroid gamma=9","type=Plummer center=1,2","type=Plummer orientation=1","garbage","=","type=Sersic","type=UniformAcceleration","type=Plummer rotation=nofile.txt"};
    int n=sizeof(bad)/sizeof(*bad);
    // every pair (previous call valid/invalid) and error text belongs to the last error
    for(int i=0;i<n;i++) for(int j=-1;j<n;j++) {
        if(!begin(fmt("Cbad %d %d",i,j))) continue; S.transitions++; S.states++;
        if(j>=0) { agama_Potential* p=agama_createPotential(bad[j]); if(p) agama_deletePotential(p); }
        for(int k=0;k<2;k++) { std::string e0; bool ok0=true; try { utils::KeyValueMap kv(bad[i]); if(kv.contains("G")) kv.popDouble("G"); if(k) potential::createDensity(kv); else potential::createPotential(kv); } catch(std::exception& e) { e0=e.what(); ok0=false; }
            void* p=NULL; std::string ex; try { p=k?(void*)agama_createDensity(bad[i]):(void*)agama_createPotential(bad[i]); } catch(std::exception& e) { ex=e.what(); }
            check(ex.empty(),"'%s' exception leaves the C interface: %s",bad[i],ex.c_str()); check((p!=NULL)==ok0,"'%s': %s but the C++ class %s %s",bad[i],p?"object":"NULL",ok0?"accepts":"rejects",e0.c_str());
            if(!p&&!ok0) check(agama_getError()!=NULL&&*agama_getError()!=0,"no error text for '%s'",bad[i]); if(!p&&!ok0&&!strstr(bad[i],"G=")) check(et(e0)==et(agama_getError()),"error text '%s' instead of '%s'",agama_getError(),e0.c_str());
            if(p) { if(k) agama_deleteDensity((agama_Density*)p); else agama_deletePotential((agama_Potential*)p); } outcome(ok0?"accepted":e0.substr(0,12)); } }
    if(begin("Cnull")) { check(agama_createPotential(NULL)==NULL&&*agama_getError(),"NULL parameters"); check(agama_createDensity(NULL)==NULL,"NULL parameters"); agama_deletePotential(NULL); agama_deleteDensity(NULL); agama_deleteActionFinder(NULL); }
    // handles: all sequences of create/delete on three slots
    static const char* sp[3]={"type=Plummer","type=Dehnen gamma=1 q=.7","type=Logarithmic"};
    for(int seq=0;seq<729;seq++) { if(!begin(fmt("Chandles %d",seq))) continue; agama_Potential* h[3]={0,0,0}; double v[3]; int u=seq;
        for(int k=0;k<6;k++) { int w=u%3; u/=3; if(h[w]) { agama_deletePotential(h[w]); h[w]=0; } else { h[w]=agama_createPotential(sp[w]); v[w]=agama_evalPotential(h[w],PTS[0],0,NULL,NULL); } S.transitions++;
            for(int q=0;q<3;q++) if(h[q]) check(agama_evalPotential(h[q],PTS[0],0,NULL,NULL)==v[q],"value of a handle changed by creation or deletion of another"); }
        for(int q=0;q<3;q++) if(h[q]) agama_deletePotential(h[q]); S.states++; } }
// ---------------- Fortran interface
static double fdens(double* X) { double r2=X[0]*X[0]+X[1]*X[1]/.81+X[2]*X[2]/.49; return .3*pow(1+r2,-2.5); }
static double fdensA(double* X) { double r2=X[0]*X[0]+X[1]*X[1]+X[2]*X[2]/.49; return .3*pow(1+r2,-2.5); }
static double fdensN(double* X) { double x=X[0]-.2,r2=x*x+X[1]*X[1]+X[2]*X[2]/.49; return .3*pow(1+r2,-2.5); }
static double fpot(double* X, double* F) { double q2=.64,p2=.9,s=.5+X[0]*X[0]+X[1]*X[1]/p2+X[2]*X[2]/q2; double f=-pow(s,-1.5); F[0]=f*X[0]; F[1]=f*X[1]/p2; F[2]=f*X[2]/q2; return -1/sqrt(s); }
static double fpotA(double* X, double* F) { double q2=.64,s=.5+X[0]*X[0]+X[1]*X[1]+X[2]*X[2]/q2; double f=-pow(s,-1.5); F[0]=f*X[0]; F[1]=f*X[1]; F[2]=f*X[2]/q2; return -1/sqrt(s); }
struct MyDens: potential::BaseDensity { double(*f)(double*); coord::SymmetryType s; MyDens(double(*_f)(double*),coord::SymmetryType _s):f(_f),s(_s){} std::string name() const { return "d"; } coord::SymmetryType symmetry() const { return s; }
    double densityCyl(const coord::PosCyl& p,double) const { return densityCar(toPosCar(p),0); } double densitySph(const coord::PosSph& p,double) const { return densityCar(toPosCar(p),0); } double densityCar(const coord::PosCar& p,double) const { double x[3]={p.x,p.y,p.z}; return f(x); } };
struct MyPot: potential::BasePotentialCar { double(*f)(double*,double*); coord::SymmetryType s; MyPot(double(*_f)(double*,double*),coord::SymmetryType _s):f(_f),s(_s){} std::string name() const { return "p"; } coord::SymmetryType symmetry() const { return s; }
    void evalCar(const coord::PosCar& p,double* v,coord::GradCar* g,coord::HessCar* h,double) const { double x[3]={p.x,p.y,p.z},F[3]; double r=f(x,F); if(v) *v=r; if(g) { g->dx=-F[0]; g->dy=-F[1]; g->dz=-F[2]; }
        if(h) { double H[3][3]; for(int k=0;k<3;k++) { double e=1e-4*(1+fabs(x[k])),a[3],b[3]; double y[3]={x[0],x[1],x[2]}; y[k]=x[k]+e; f(y,a); y[k]=x[k]-e; f(y,b); for(int j=0;j<3;j++) H[k][j]=-(a[j]-b[j])/(2*e); } h->dx2=H[0][0]; h->dy2=H[1][1]; h->dz2=H[2][2]; h->dxdy=H[0][1]; h->dxdz=H[0][2]; h->dydz=H[1][2]; } } };
static void fcheck(const char* what, void* obj, const potential::BasePotential& ref, double tol) {
    for(int i=0;i<NP;i++) { double X[3]={PTS[i][0],PTS[i][1],PTS[i][2]},F[5]={-7,-7,-7,-7,-7},D[8]={-7,-7,-7,-7,-7,-7,-7,-7}; coord::PosCar pos(X[0],X[1],X[2]); double v,v1,v2; coord::GradCar g,g1; coord::HessCar h; S.transitions+=4;
        ref.eval(pos,&v,&g,&h); double H[6]={h.dx2,h.dy2,h.dz2,h.dxdy,h.dxdz,h.dydz}, G[3]={g.dx,g.dy,g.dz};
        v1=ref.value(pos); v2=agama_potential_(obj,X,8); check(eq(v1,v2)||near(v1,v2,tol),"%s potential at %d: %.17g (%.17g)",what,i,v2,v1);
        ref.eval(pos,&v1,&g1); v2=agama_potforce_(obj,X,F+1,8); bool ok=eq(v1,v2)||near(v1,v2,tol); for(int k=0;k<3;k++) ok&=near(F[k+1],-G[k],1e-9+tol)||fabs(F[k+1]+G[k])<1e-11+tol||!std::isfinite(G[k]); ok&=F[0]==-7&&F[4]==-7; check(ok,"%s potforce at %d: %.17g %g %g %g instead of %.17g %g %g %g",what,i,v2,F[1],F[2],F[3],v1,-G[0],-G[1],-G[2]);
        double F2[5]={-7,-7,-7,-7,-7}; v2=agama_potforcederiv_(obj,X,F2+1,D+1,8); ok=eq(v,v2)||near(v,v2,tol); for(int k=0;k<3;k++) ok&=near(F2[k+1],-G[k],1e-9+tol)||fabs(F2[k+1]+G[k])<1e-11+tol||!std::isfinite(G[k]); for(int k=0;k<6;k++) ok&=near(D[k+1],-H[k],1e-9+tol)||fabs(D[k+1]+H[k])<1e-11+tol||!std::isfinite(H[k]); ok&=D[0]==-7&&D[7]==-7&&F2[0]==-7&&F2[4]==-7;
        check(ok,"%s potforcederiv at %d: %g %g %g %g %g %g instead of %g %g %g %g %g %g",what,i,D[1],D[2],D[3],D[4],D[5],D[6],-H[0],-H[1],-H[2],-H[3],-H[4],-H[5]);
        v1=ref.density(pos); v2=agama_density_(obj,X,8); check(eq(v1,v2)||near(v1,v2,1e-9+tol),"%s density at %d: %.17g (%.17g)",what,i,v2,v1); } }
static void finit(int way, void* obj, std::string s, const std::string& tail, double(*d)(double*), double(*p)(double*,double*)) { s+=tail; char* b=&s[0]; long n=s.size();
    if(way==0) agama_initfromparam_(obj,b,8,n); else if(way==1) agama_initfromfile_(obj,b,8,n); else if(way==2) agama_initfromdens_(obj,b,d,8,n); else agama_initfrompot_(obj,b,p,8,n); }
static const char* TAIL[5]={""," ","        ","\t",
  "                                                                "};
static void fortran() {
    for(int i=0;i<models::N;i++) for(int t=0;t<5;t++) { std::string spec=comma(models::list[i].spec); if(spec.find(';')!=std::string::npos) continue; if(!begin(fmt("F param %s tail%d",models::list[i].spec,t))) continue; char obj[8]; S.states++;
        if(t==3||spec.find(',')!=std::string::npos) continue;
        std::string ex; try { finit(0,obj,spec,TAIL[t],NULL,NULL); } catch(std::exception& e) { ex=e.what(); } if(!check(ex.empty(),"blank-padded string refused: %s",ex.c_str())) continue;
        fcheck("initfromparam",obj,*potential::createPotential(utils::KeyValueMap(spec)),0); }
    for(int i=0;i<models::N;i++) for(int t=0;t<5;t++) { if(t==3) continue; if(!begin(fmt("F file %s tail%d",models::list[i].spec,t))) continue; char obj[8]; S.states++;
        std::vector<utils::KeyValueMap> kv=models::parse(models::list[i].spec); std::string txt; for(size_t k=0;k<kv.size();k++) { txt+=fmt("[Potential%d]\n",(int)k); { std::vector<std::string> ln=kv[k].dumpLines(); for(size_t q=0;q<ln.size();q++) txt+=ln[q]+"\n"; } } std::string fn=S.scratch+"/f.ini"; models::writeFile("f.ini",txt);
        std::string ex; try { finit(1,obj,fn,TAIL[t],NULL,NULL); } catch(std::exception& e) { ex=e.what(); } if(!check(ex.empty(),"blank-padded file name refused: %s",ex.c_str())) continue;
        fcheck("initfromfile",obj,*potential::readPotential(fn),0); }
    static const char* types[]={"type=Multipole lmax=4 mmax=4 gridSizeR=12 rmin=.05 rmax=20","type=CylSpline mmax=2 gridSizeR=10 gridSizez=10 rmin=.1 rmax=15 zmin=.1 zmax=15","type=BasisSet nmax=4 lmax=4 eta=1 r0=1","type=Multipole, lmax=2, gridSizeR=10"};
    static const char* syms[]={"Triaxial","Axisymmetric","Spherical","Axisym","t","None","Reflection","a"};
    for(int ty=0;ty<4;ty++) for(int sy=0;sy<8;sy++) for(int dp=0;dp<2;dp++) for(int t=0;t<3;t++) { if(!begin(fmt("F user %d %s %d %d",ty,syms[sy],dp,t))) continue; S.states++;
        std::string s=std::string(types[ty])+(ty==3?", ":" ")+"symmetry="+syms[sy]; char c=syms[sy][0]|32; double(*d)(double*)= c=='n'?fdensN:c=='t'||c=='r'?fdens:fdensA; double(*p)(double*,double*)=c=='t'||c=='r'||c=='n'?fpot:fpotA;
        if(c=='s') continue;   // only used with an axisymmetric function: not applicable
        coord::SymmetryType st=potential::getSymmetryTypeByName(syms[sy]); potential::PtrPotential ref; std::string e0,e1; char obj[8];
        try { utils::KeyValueMap kv(s); kv.unset("symmetry"); ref= dp? potential::createPotential(kv,potential::PtrPotential(new MyPot(p,st))) : potential::createPotential(kv,potential::PtrDensity(new MyDens(d,st))); } catch(std::exception& e) { e0=e.what(); }
        try { finit(dp?3:2,obj,s,TAIL[t],d,p); } catch(std::exception& e) { e1=e.what(); } if(!check(e0.empty()==e1.empty(),"reference '%s' interface '%s'",e0.c_str(),e1.c_str())||!e0.empty()) continue;
        fcheck(dp?"initfrompot":"initfromdens",obj,*ref,dp?(ty==2||ty==3?1e-4:1e-7):1e-12); outcome(fmt("u%d%d%d",ty,sy,dp)); }
    // all orders of creation and interleaved evaluation of several objects
    static const char* sp[4]={"type=Plummer","type=Dehnen gamma=1 q=.7","type=Logarithmic","type=NFW"}; 
    for(int seq=0;seq<256;seq++) { if(!begin(fmt("F handles %d",seq))) continue; char obj[4][8]; potential::PtrPotential ref[4]; int u=seq; for(int k=0;k<4;k++) { int w=u%4; u/=4; finit(0,obj[k],sp[w],"",NULL,NULL); ref[k]=potential::createPotential(utils::KeyValueMap(sp[w])); S.transitions++;
            for(int q=0;q<=k;q++) { double X[3]={1,.5,.25}; check(agama_potential_(obj[q],X,8)==ref[q]->value(coord::PosCar(1,.5,.25)),"object %d after creation of %d",q,k); } } S.states++; } }
// ---------------- NEMO plugin
template<class N> static void nemo1(acc_t acc, const potential::BasePotential& ref, double Om, double G, double time, int ndim, int nb, int act, int flag, double tol) {
    std::vector<N> pos(nb*ndim+1), pot(nb+2,(N)-7), ac(nb*ndim+2,(N)-7); std::vector<int> a(nb); static const int AV[3]={1,0,3}; for(int i=0;i<nb;i++) { for(int k=0;k<ndim;k++) pos[i*ndim+k]=(N)PTS[i][k]; a[i]=act<0?1:AV[(act>>(2*i))&3 ? ((act>>(2*i))&3)%3 : 0]; pot[i+1]=(N)(.5+i); for(int k=0;k<ndim;k++) ac[i*ndim+k+1]=(N)(.25*k-i); }
    std::vector<N> p0=pot,a0=ac; acc(ndim,time,nb,NULL,&pos[0],NULL,act<0?NULL:&a[0],&pot[1],&ac[1],flag,sizeof(N)==4?'f':'d'); S.transitions++;
    bool ok=pot[0]==-7&&pot[nb+1]==-7&&ac[0]==-7&&ac[nb*ndim+1]==-7; std::string w;
    for(int i=0;i<nb;i++) { bool on=act<0||(a[i]&1); double x=pos[i*ndim],y=pos[i*ndim+1],z=ndim==3?pos[i*ndim+2]:0, c=cos(Om*time),s=sin(Om*time); double v; coord::GradCar g; ref.eval(coord::PosCar(x*c+y*s,y*c-x*s,z),&v,&g,NULL,time); double A[3]={-(g.dx*c-g.dy*s),-(g.dx*s+g.dy*c),-g.dz};
        double e=on?G*v+(flag&1?p0[i+1]:0):p0[i+1]; if(!(fabs(pot[i+1]-e)<=tol*(1+fabs(e)+fabs(v*G)))) { ok=false; w+=fmt("pot[%d]=%g instead of %g ",i,(double)pot[i+1],e); }
        for(int k=0;k<ndim;k++) { double e=on?G*A[k]+(flag&2?a0[i*ndim+k+1]:0):a0[i*ndim+k+1]; if(!(fabs(ac[i*ndim+k+1]-e)<=10*tol*(1+fabs(e)+fabs(A[k]*G)))) { ok=false; w+=fmt("acc[%d][%d]=%g instead of %g ",i,k,(double)ac[i*ndim+k+1],e); } } }
    check(ok,"%s Omega=%g G=%g t=%g ndim=%d nbody=%d active=%d flag=%d: %s",sizeof(N)==4?"float":"double",Om,G,time,ndim,nb,act,flag,w.c_str()); }
static void nemo() {
    static const char* sp[]={"type=Plummer mass=1.5","type=MiyamotoNagai scaleRadius=1 scaleHeight=.3","type=Dehnen gamma=1 p=.8 q=.6","file=@/offmul.ini","file=@/evol.ini","type=Plummer ; type=Dehnen gamma=.5 q=.7 center=.3,.1,0","type=Plummer center=@/traj3.txt"};
    static const double OM[3]={0,.5,-1.3}, GG[3]={1,2.5,0}; 
    for(int i=0;i<7;i++) for(int np=0;np<4;np++) for(int io=0;io<3;io++) for(int ig=0;ig<2;ig++) { if((np<1&&io)||(np<2&&ig)) continue; if(!begin(fmt("N %s npar%d Omega=%g G=%g",sp[i],np,OM[io],GG[ig]))) continue; S.states++;
        std::vector<utils::KeyValueMap> kv=models::parse(sp[i]); std::string txt; for(size_t k=0;k<kv.size();k++) { txt+=fmt("[Potential%d]\n",(int)k); { std::vector<std::string> ln=kv[k].dumpLines(); for(size_t q=0;q<ln.size();q++) txt+=ln[q]+"\n"; } } models::writeFile("n.ini",txt); std::string fn=S.scratch+"/n.ini";
        if(ig&&(i==3||i==4)) continue;   // the expansion file and the files referred to have their own units
        double pars[3]={OM[io],GG[ig],777}; acc_t acc=NULL; bool nm=true,nv=true; potential::PtrPotential ref=potential::readPotential(fn);
        iniacceleration(pars,np,fn.c_str(),&acc,np==3?NULL:&nm,np==3?NULL:&nv); if(!check(acc!=NULL&&(np==3||(!nm&&!nv)),"iniacceleration output")) continue;
        double Om=np>=1?OM[io]:0,G=np>=2?GG[ig]:1; double tol=i==2?1e-6:1e-9;
        for(int t=0;t<2;t++) for(int nd=2;nd<=3;nd++) for(int nb=0;nb<=3;nb++) for(int act=-1;act<(1<<(2*nb));act++) for(int fl=0;fl<4;fl++) { nemo1<double>(acc,*ref,Om,G,T[t],nd,nb,act,fl,tol); nemo1<float>(acc,*ref,Om,G,T[t],nd,nb,act,fl,2e-6); }
        for(int old=0;old<2;old++) { if(old) inipotential(&np,pars,fn.c_str());
            for(int t=0;t<2;t++) for(int nd=2;nd<=3;nd++) for(int p=0;p<7;p++) { double a[5]={-7,-7,-7,-7,-7},v[3]={-7,-7,-7}; float af[5]={-7,-7,-7,-7,-7},vf[3]={-7,-7,-7},pf[3]={(float)PTS[p][0],(float)PTS[p][1],(float)PTS[p][2]}; potential_double(&nd,PTS[p],a+1,v+1,&T[t]); float tf=T[t]; potential_float(&nd,pf,af+1,vf+1,&tf); S.transitions+=2;
                double c=cos(Om*T[t]),s=sin(Om*T[t]),x=PTS[p][0],y=PTS[p][1],z=nd==3?PTS[p][2]:0,e; coord::GradCar g; ref->eval(coord::PosCar(x*c+y*s,y*c-x*s,z),&e,&g,NULL,T[t]); double A[3]={-(g.dx*c-g.dy*s)*G,-(g.dx*s+g.dy*c)*G,-g.dz*G}; e*=G;
                bool ok=near(v[1],e,tol)&&fabs(vf[1]-e)<=3e-6*(1+fabs(e)); for(int k=0;k<nd;k++) ok&=fabs(a[k+1]-A[k])<=10*tol*(1+fabs(A[k]))&&fabs(af[k+1]-A[k])<=2e-5*(1+fabs(A[k])); ok&=a[0]==-7&&a[nd+1]==-7&&v[0]==-7&&v[2]==-7&&af[nd+1]==-7&&vf[2]==-7;
                check(ok,"single point %d ndim=%d t=%g: %g %g %g %g (float %g) instead of %g %g %g %g",p,nd,T[t],v[1],a[1],a[2],a[3],vf[1],e,A[0],A[1],A[2]); } }
        outcome(fmt("nemo %d %d %d",i,io,ig)); } }
int main(int argc,char**argv) { init(argc,argv); utils::msg=models::silent; models::auxFiles(); freopen("/dev/null","w",stderr);
    for(int i=0;i<models::N;i++) cmodel(models::list[i]);
    cinvalid(); fortran(); nemo(); return finish(); }
