// C01/C02: every parallel region of the library executed under the controlled OpenMP runtime (omprt).
#include "vh.h"
#include "omprt/omprt.h"
#include "actions_spherical.h"
#include "actions_staeckel.h"
#include "galaxymodel_base.h"
#include "galaxymodel_jeans.h"
#include "galaxymodel_losvd.h"
#include "galaxymodel_velocitysampler.h"
#include "math_core.h"
#include "math_sample.h"
#include "math_random.h"
#include "math_spline.h"
#include "math_sphharm.h"
#include "potential_analytic.h"
#include "potential_dehnen.h"
#include "potential_cylspline.h"
#include "potential_multipole.h"
#include "potential_utils.h"
#include "raga_core.h"
#include "utils_config.h"
#include "utils.h"
#include <stdexcept>
#include <algorithm>
#include <omp.h>
using namespace vh;
typedef std::vector<double> V;
// ---------------------------------------------------------------- fault injection
static long gCalls; static std::set<long> gFail; static long gFailFrom=-1;
static const char* TAG="injected-fault";
/// not derived from any of the standard categories: handlers must accept every std::exception
class UserError: public std::exception { std::string t; public: UserError(const std::string& s): t(s) {} ~UserError() throw() {} virtual const char* what() const throw() { return t.c_str(); } };
static void __attribute__((no_sanitize("thread"))) tick() { if(!omp_in_parallel()) return; long k=gCalls++; if(gFail.count(k) || (gFailFrom>=0 && k>=gFailFrom)) throw UserError(fmt("%s#%ld",TAG,k)); }
class UDens: public potential::BaseDensity { const potential::BaseDensity& d; public: UDens(const potential::BaseDensity& _d): d(_d) {}
    virtual coord::SymmetryType symmetry() const { return d.symmetry(); } virtual std::string name() const { return "user"; }
    virtual double totalMass() const { return d.totalMass(); }
    virtual double enclosedMass(double r) const { return d.enclosedMass(r); }
    virtual double densityCar(const coord::PosCar& p,double t) const { tick(); return d.density(p,t); }
    virtual double densityCyl(const coord::PosCyl& p,double t) const { tick(); return d.density(p,t); }
    virtual double densitySph(const coord::PosSph& p,double t) const { tick(); return d.density(p,t); } };
class UPot: public potential::BasePotentialCyl { const potential::BasePotential& d; public: UPot(const potential::BasePotential& _d): d(_d) {}
    virtual coord::SymmetryType symmetry() const { return d.symmetry(); } virtual std::string name() const { return "user"; }
    virtual double totalMass() const { return d.totalMass(); }
    virtual void evalCyl(const coord::PosCyl& p,double* v,coord::GradCyl* g,coord::HessCyl* h,double t) const { tick(); d.eval(p,v,g,h,t); }
    virtual double densityCyl(const coord::PosCyl& p,double t) const { tick(); return d.density(p,t); } };
static bool quietAF=false; static bool faultDF=false;   // which of the two user objects fails: the distribution function or the action finder
class UDF: public df::BaseDistributionFunction { public:
    virtual void evalDeriv(const actions::Actions& J,double* v,df::DerivByActions* der=NULL) const { if(faultDF) tick(); *v=exp(-2*J.Jr-J.Jz-1.5*fabs(J.Jphi))*(1+0.3*J.Jphi/(1+fabs(J.Jphi))); } };
/// cheap stand-in for an action finder (any function of energy and angular momentum will do here)
class UAF: public actions::BaseActionFinder { const potential::BasePotential& pot; public: UAF(const potential::BasePotential& p): pot(p) {}
    virtual std::string name() const { return "stub"; }
    virtual void eval(const coord::PosVelCyl& p,actions::Actions* act,actions::Angles* ang,actions::Frequencies* f) const {
        if(!faultDF && !quietAF) tick(); if(act) { double E=pot.value(p)+0.5*(p.vR*p.vR+p.vz*p.vz+p.vphi*p.vphi); act->Jr=E<0? 1/sqrt(-2*E) : NAN; act->Jz=0.5*(p.vz*p.vz+p.z*p.z); act->Jphi=p.R*p.vphi; }
        if(ang) ang->thetar=ang->thetaz=ang->thetaphi=0; if(f) f->Omegar=f->Omegaz=f->Omegaphi=1; } };
class UFnc: public math::IFunctionNdim { public: virtual void eval(const double x[],double v[]) const { tick(); v[0]=1+x[0]*x[0]+x[1]; } virtual unsigned int numVars() const { return 2; } virtual unsigned int numValues() const { return 1; } };
class UFnc1: public math::IFunctionNoDeriv { public: virtual double value(double r) const { tick(); return 0.3/(1+r); } };

/// a function of two variables that is itself an integral: quadratures are run simultaneously by several threads
class UFncInt: public math::IFunctionNdim { public: virtual void eval(const double x[],double v[]) const { UFnc1 f; v[0]=math::integrateAdaptive(f,0,1+x[0],1e-2)+math::integrate(f,0,x[1],1e-2); }
    virtual unsigned int numVars() const { return 2; } virtual unsigned int numValues() const { return 1; } 
    // many points per block, a few of them are enough
    virtual void evalmany(size_t n,const double x[],double v[]) const { double a=0; for(size_t i=0;i<n;i++) { if(i<3) { eval(x+2*i,&a); } v[i]=i<3?a:0.5; } } };
static particles::ParticleArray<coord::PosCyl> parts(int n) {
    particles::ParticleArray<coord::PosCyl> p; unsigned long s=12345;
    for(int i=0;i<n;i++) { double u[3]; for(int k=0;k<3;k++) { s=s*6364136223846793005UL+1442695040888963407UL; u[k]=(s>>11)/9007199254740992.0; }
        p.add(coord::PosCyl(0.1+3*u[0],2*u[1]-1,6.28*u[2]), 0.5+u[0]); } return p; }
static const potential::Plummer plum(1,1); static const potential::MiyamotoNagai mn(1,1,0.4);
static const potential::Dehnen triax(1,1,1,0.8,0.6);
static void addPot(const potential::BasePotential& p, V& o) { double pts[4][3]={{0.5,0.1,0.3},{1.7,0.4,-0.8},{0,0,1},{3,-2,1}};
    for(int i=0;i<4;i++) { double f; coord::GradCar g; coord::HessCar h; p.eval(coord::PosCar(pts[i][0],pts[i][1],pts[i][2]),&f,&g,&h); double a[]={f,g.dx,g.dy,g.dz,h.dx2,h.dy2,h.dz2,h.dxdy,h.dxdz,h.dydz}; o.insert(o.end(),a,a+10); } }
static void addDens(const potential::BaseDensity& p, V& o) { double pts[4][3]={{0.5,0.1,0.3},{1.7,0.4,-0.8},{0.1,0,1},{3,-2,1}}; for(int i=0;i<4;i++) o.push_back(p.density(coord::PosCar(pts[i][0],pts[i][1],pts[i][2]))); }
static void addAF(const actions::BaseActionFinder& af, V& o) { double pts[5][6]={{1,0.1,0.3,0.1,0.05,0.5},{0.7,0.4,-0.2,-0.1,0.1,0.3},{2,0,1,0,0.1,0.2},{0.3,0.2,0,0,0,0.2},{4,0,2,0.1,0,0.1}};
    for(int i=0;i<5;i++) { actions::Actions a; actions::Angles g; actions::Frequencies f; coord::PosVelCyl p(pts[i]); af.eval(p,&a,&g,&f); double r[]={a.Jr,a.Jz,a.Jphi,g.thetar,g.thetaz,g.thetaphi,f.Omegar,f.Omegaz,f.Omegaphi}; o.insert(o.end(),r,r+9); } }

struct Body { const char* name; void (*run)(V& out); double tol; bool rnd; double cost; int faulty; };   // faulty: 0 no user code, 1 failures must be reported, 2 failures of the DF are documented to count as zero
// cost: approximate seconds per monitored execution (only used to choose the number of executions within the budget)
static void bActSph(V& o) { actions::ActionFinderSpherical af(plum); addAF(af,o); }
static void bInterp2d(V& o) { UPot p(mn); potential::Interpolator2d in(p); for(int i=1;i<6;i++) { double a,b; in.findPlanarOrbitExtent(-0.05*i-0.02,0.3,a,b); o.push_back(a); o.push_back(b); o.push_back(in.R_circ(-0.05*i-0.02)); } }
static shared_ptr<const potential::BasePotential> keep;
static void bFudge(V& o) { potential::PtrPotential p(new UPot(mn)); actions::ActionFinderAxisymFudge af(p,true); addAF(af,o); }
struct Quiet { Quiet() { quietAF=true; } ~Quiet() { quietAF=false; } };
/// the potential itself fails
static void bDFDensPot(V& o) { Quiet q; UPot up(plum); UAF af(plum); UDF df; galaxymodel::GalaxyModel m(up,af,df); galaxymodel::DensityFromDF d(m,0.02,2000); const potential::BaseDensity& bd=d; coord::PosCar p[5]={coord::PosCar(0,0,0),coord::PosCar(1,0,0.5),coord::PosCar(0,0,2),coord::PosCar(2,1,0),coord::PosCar(0.1,0.1,0.1)}; double v[5]; bd.evalmanyDensityCar(5,p,v); o.insert(o.end(),v,v+5); }
static void bDFDens(V& o) { UAF af(plum); UDF df; galaxymodel::GalaxyModel m(plum,af,df); galaxymodel::DensityFromDF d(m,0.02,2000); const potential::BaseDensity& bd=d; coord::PosCar p[5]={coord::PosCar(0,0,0),coord::PosCar(1,0,0.5),coord::PosCar(0,0,2),coord::PosCar(2,1,0),coord::PosCar(0.1,0.1,0.1)}; double v[5]; bd.evalmanyDensityCar(5,p,v); o.insert(o.end(),v,v+5);
    coord::PosCyl q[3]={coord::PosCyl(1,0,0),coord::PosCyl(2,1,3),coord::PosCyl(0,1,0)}; bd.evalmanyDensityCyl(3,q,v); o.insert(o.end(),v,v+3); }
static void jeans(const potential::BaseDensity& d,const potential::BasePotential& p,V& o) { galaxymodel::JeansAxi j(d,p,0.2,0.5); for(int i=0;i<5;i++) { coord::VelCyl v; coord::Vel2Cyl w; j.moments(coord::PosCyl(0.3*i+0.1,0.2*i,0),v,w); double a[]={v.vphi,w.vR2,w.vz2,w.vphi2}; o.insert(o.end(),a,a+4); } }
static void bJeans(V& o) { UDens d(mn); UPot p(mn); jeans(d,p,o); }
static galaxymodel::LOSVDParams losp(int nap,int oob) { galaxymodel::LOSVDParams p; p.alpha=0.3; p.beta=0.7; p.gamma=0.2; double g[]={-2,-0.5,0.7,2}; p.gridx.assign(g,g+4); double gy[]={-1,0,1}; p.gridy.assign(gy,gy+3); double gv[]={-1,0,1}; p.gridv.assign(gv,gv+3); p.spatialPSF.push_back(galaxymodel::GaussianPSF(0.3)); p.velocityPSF=0.2; p.symmetry=coord::ST_AXISYMMETRIC;
    for(int i=0;i<nap;i++) { double x=-1+0.5*i, w= i==oob? 9:0.4; math::Polygon q; q.push_back(math::Point2d(x,-0.5)); q.push_back(math::Point2d(x+w,-0.4)); q.push_back(math::Point2d(x+w,0.5)); q.push_back(math::Point2d(x,0.3)); p.apertures.push_back(q); } return p; }
template<int OOB> static void bLosvdCtor(V& o) { try { galaxymodel::TargetLOSVD<1> t(losp(4,OOB)); math::Matrix<double> c=t.newDatacube(); double x[6]={0.2,0.3,0.1,0.1,0.2,-0.1}; t.addPoint(x,1.,c.data()); std::vector<galaxymodel::StorageNumT> r(t.numCoefs()); t.finalizeDatacube(c,&r[0]); o.insert(o.end(),r.begin(),r.end()); } catch(std::invalid_argument&) { o.push_back(-777); } }
static shared_ptr<galaxymodel::TargetLOSVD<0> > tl0; static shared_ptr<galaxymodel::TargetLOSVD<1> > tl1;
static galaxymodel::TargetLOSVD<0>& TL0() { if(!tl0) { galaxymodel::LOSVDParams p=losp(2,-1); p.gridx.pop_back(); p.gridx[2]=2; p.gridy.erase(p.gridy.begin()+1); tl0.reset(new galaxymodel::TargetLOSVD<0>(p)); } return *tl0; }
static galaxymodel::TargetLOSVD<1>& TL1() { if(!tl1) tl1.reset(new galaxymodel::TargetLOSVD<1>(losp(2,-1))); return *tl1; }
static void bLosvdDF(V& o) { UAF af(plum); UDF df; galaxymodel::GalaxyModel m(plum,af,df); std::vector<galaxymodel::StorageNumT> r(TL0().numCoefs()); TL0().computeDFProjection(m,&r[0]); o.insert(o.end(),r.begin(),r.end()); }
static void bLosvdDens(V& o) { UDens d(triax); V r=TL1().computeDensityProjection(d); o.insert(o.end(),r.begin(),r.end()); }
static void bShell(V& o) { UAF af(plum); UDF df; galaxymodel::GalaxyModel m(plum,af,df); double g[]={0,1}; galaxymodel::TargetKinemShell<1> t(V(g,g+2)); std::vector<galaxymodel::StorageNumT> r(t.numCoefs()); t.computeDFProjection(m,&r[0]); o.insert(o.end(),r.begin(),r.end()); }
static void bShellPot(V& o) { Quiet q; UPot up(plum); UAF af(plum); UDF df; galaxymodel::GalaxyModel m(up,af,df); double g[]={0,1}; galaxymodel::TargetKinemShell<1> t(V(g,g+2)); std::vector<galaxymodel::StorageNumT> r(t.numCoefs()); t.computeDFProjection(m,&r[0]); o.insert(o.end(),r.begin(),r.end()); }
static void addParts(const particles::ParticleArrayCar& p, V& o) { for(size_t i=0;i<p.size();i++) { double x[6]; p.point(i).unpack_to(x); o.insert(o.end(),x,x+6); o.push_back(p.mass(i)); } }
static void bVelEdd(V& o) { UPot p(plum); addParts(galaxymodel::assignVelocity(parts(5),plum,p),o); }
static void bVelSph(V& o) { UPot p(plum); addParts(galaxymodel::assignVelocity(parts(5),plum,p,0.3),o); }
static void bVelAxi(V& o) { UPot p(mn); addParts(galaxymodel::assignVelocity(parts(5),mn,p,0.3,0.5),o); }
static void bSample(V& o) { math::randomize(7); UFnc f; double lo[]={0,0},hi[]={1,2},I,e; size_t n; math::Matrix<double> s; math::sampleNdim(f,lo,hi,1100,s,&n,&I,&e); o.push_back(n); o.push_back(I); o.push_back(e); for(size_t i=0;i<s.rows();i++) { o.push_back(s(i,0)); o.push_back(s(i,1)); } }
static void bSampleInt(V& o) { math::randomize(7); UFncInt f; double lo[]={0,0},hi[]={1,2},I,e; size_t n; math::Matrix<double> s; math::sampleNdim(f,lo,hi,1100,s,&n,&I,&e); o.push_back(n); o.push_back(I); o.push_back(e); for(size_t i=0;i<s.rows();i++) { o.push_back(s(i,0)); o.push_back(s(i,1)); } }
static V grid(int n,double a,double b) { V g; for(int i=0;i<n;i++) g.push_back(a+(b-a)*i/(n-1)); return g; }
static void bSpApp(V& o) { V x=grid(9,-1,2), y; for(int i=0;i<9;i++) y.push_back(sin(x[i]*2)); math::SplineApprox a(grid(5,-1,2),x); double r; V c=a.fit(y,0,&r); o.insert(o.end(),c.begin(),c.end()); c=a.fit(y,3,&r); o.insert(o.end(),c.begin(),c.end()); o.push_back(r); }
template<int N> static void bSpLog(V& o) { V x; for(int i=0;i<24;i++) x.push_back(-1+0.13*i-0.002*i*i); V c=math::splineLogDensity<N>(grid(4,-1.2,2),x); o.insert(o.end(),c.begin(),c.end()); }
static void bCylDens(V& o) { UDens d(triax); shared_ptr<const potential::CylSpline> c=potential::CylSpline::create(d,coord::ST_TRIAXIAL,2,4,0.3,5,4,0.2,5,true,true); addPot(*c,o); }
static void bCylAxi(V& o) { UDens d(mn); shared_ptr<const potential::CylSpline> c=potential::CylSpline::create(d,coord::ST_AXISYMMETRIC,0,4,0.3,5,4,0.2,5,true,true); addPot(*c,o); }
static void bCylPart(V& o) { particles::ParticleArray<coord::PosCyl> p=parts(6); shared_ptr<const potential::CylSpline> c=potential::CylSpline::create(p,coord::ST_NONE,2,4,0.3,5,4,0.2,5,true); addPot(*c,o); }
static void bMulPart(V& o) { particles::ParticleArray<coord::PosCyl> p=parts(40); addPot(*potential::Multipole::create(p,coord::ST_NONE,3,2,5,0.2,4),o); }
static void bDensPart(V& o) { particles::ParticleArray<coord::PosCyl> p=parts(40); addDens(*potential::DensitySphericalHarmonic::create(p,coord::ST_NONE,2,2,5,0.2,4),o); }
static void bBsePart(V& o) { particles::ParticleArray<coord::PosCyl> p=parts(7); addPot(*potential::BasisSet::create(p,coord::ST_NONE,3,3,3,1.,1.),o); }
static std::string ragaDir() { return S.scratch; }
static void ragaRun(V& o, const char* extra) {
    raga::RagaCore c; utils::KeyValueMap kv; std::string e=extra;
    kv.set("type","Multipole"); kv.set("density","Plummer"); kv.set("lmax","0"); kv.set("gridSizeR","8"); kv.set("rmin","0.01"); kv.set("rmax","100"); kv.set("timeTotal","2"); kv.set("updatePotential","false");
    if(e.find('T')!=std::string::npos) { kv.set("fileOutput",ragaDir()+"/ragaout"); kv.set("outputInterval","0.5"); kv.set("fileOutputFormat","Text"); }
    if(e.find('B')!=std::string::npos) { kv.set("Mbh","0.1"); kv.set("captureMassFraction","0.5"); kv.set("speedOfLight","3"); }
    if(e.find('2')!=std::string::npos) { kv.set("binary_q","0.5"); kv.set("binary_sma","0.05"); }
    if(e.find('R')!=std::string::npos) { kv.set("coulombLog","5"); kv.set("gridSizeDF","10"); kv.set("numSamplesPerEpisode","2"); }
    if(e.find('P')!=std::string::npos) { kv.set("updatePotential","true"); kv.set("numSamplesPerEpisode","2"); }
    utils::verbosityLevel=utils::VL_MESSAGE; math::randomize(3); double accv=1e-4; kv.set("accuracy",accv);
    c.init(kv); particles::ParticleArray<coord::PosCyl> p=parts(e.find('R')!=std::string::npos?40:5);
    for(size_t i=0;i<p.size();i++) { coord::PosCar q=toPosCar(p.point(i)); double f=(i==2)?0.02:0.25; particles::ParticleAux a(coord::PosVelCar(q,coord::VelCar(f*q.y+0.01*i,-f*q.x,0.1*f)),1.,i==2?0.1:1e-3); c.particles.add(a,i==3?0.:0.2); }
    potential::PtrPotential base=c.ptrPot; c.ptrPot.reset(new UPot(*base));
    if(e.find('P')!=std::string::npos) { c.ptrPot=base; }
    c.doEpisode(0.7);
    for(size_t i=0;i<c.particles.size();i++) { double x[6]; c.particles.point(i).unpack_to(x); o.insert(o.end(),x,x+6); o.push_back(c.particles.mass(i)); }
    o.push_back(c.Ekin); o.push_back(c.Epot); o.push_back(c.bh.mass); o.push_back(c.bh.sma); }
static void bRaga0(V& o) { ragaRun(o,""); } static void bRagaT(V& o) { ragaRun(o,"T"); } static void bRagaB(V& o) { ragaRun(o,"B"); } static void bRaga2(V& o) { ragaRun(o,"B2"); } static void bRagaR(V& o) { ragaRun(o,"R"); } static void bRagaP(V& o) { ragaRun(o,"P"); }

static Body bodies[] = {
 {"ActionFinderSpherical",bActSph,0,false,0.16,0}, {"Interpolator2d",bInterp2d,0,false,0.1,1}, {"ActionFinderAxisymFudge",bFudge,0,false,3.5,1},
 {"DensityFromDF",bDFDens,0,false,0.02,1}, {"DensityFromDF-potential",bDFDensPot,0,false,0.02,1}, {"KinemShell-potential",bShellPot,1e-5,false,0.11,1}, {"DensityFromDF-DFfault",bDFDens,0,false,0.02,2}, {"KinemShell-DFfault",bShell,1e-5,false,0.11,2}, {"JeansAxi",bJeans,0,false,0.1,1},
 {"TargetLOSVD-ok",bLosvdCtor<-1>,0,false,0.001,0}, {"TargetLOSVD-oob0",bLosvdCtor<0>,0,false,0.001,0}, {"TargetLOSVD-oob1",bLosvdCtor<1>,0,false,0.001,0}, {"TargetLOSVD-oob3",bLosvdCtor<3>,0,false,0.001,0},
 {"LOSVD-DFprojection",bLosvdDF,1e-5,false,14,2}, {"LOSVD-density",bLosvdDens,1e-10,false,0.07,1}, {"KinemShell",bShell,1e-5,false,0.11,1},
 {"assignVelocity-Eddington",bVelEdd,0,false,0.4,1}, {"assignVelocity-JeansSph",bVelSph,0,false,0.01,1}, {"assignVelocity-JeansAxi",bVelAxi,0,false,0.1,1},
 {"sampleNdim",bSample,0,true,0.004,1}, {"sampleNdim-quadrature",bSampleInt,0,true,0.01,1}, {"SplineApprox",bSpApp,0,false,0.003,0}, {"splineLogDensity1",bSpLog<1>,0,false,0.005,0}, {"splineLogDensity3",bSpLog<3>,0,false,0.005,0},
 {"CylSpline-density",bCylDens,0,false,1.2,0}, {"CylSpline-axi-density",bCylAxi,0,false,1.2,1}, {"CylSpline-particles",bCylPart,0,false,0.003,0}, {"Multipole-particles",bMulPart,0,false,0.025,0}, {"DensitySphHarm-particles",bDensPart,0,false,0.02,0}, {"BasisSet-particles",bBsePart,1e-10,false,0.001,0},
 {"Raga-basic",bRaga0,1e-12,false,0.001,1}, {"Raga-trajectory",bRagaT,1e-12,false,0.002,1}, {"Raga-losscone",bRagaB,1e-12,false,0.002,1}, {"Raga-binary",bRaga2,1e-9,false,0.002,1}, {"Raga-relaxation",bRagaR,1e9,true,0.18,0}, {"Raga-potential",bRagaP,1e-12,false,0.025,0},
};
static Body* B; static V out, ref; static std::string thrown; static bool finished; static int nthr;
static void runBody(void*) { out.clear(); thrown=""; finished=false; gCalls=0;
    try { B->run(out); finished=true; } catch(std::exception& e) { thrown=e.what(); if(thrown.empty()) thrown="(empty)"; } }
static std::set<std::string> seen;
static std::string checkC01(void*) {
    std::string s; for(size_t i=0;i<out.size();i++) s+=fmt("%.17g,",out[i]); outcome(std::string(B->name)+s+thrown);
    if(!finished) return "unexpected exception: "+thrown;
    if(ref.empty()) { ref=out; return ""; }
    if(out.size()!=ref.size()) return fmt("result has %d numbers instead of %d",(int)out.size(),(int)ref.size());
    double scale=0; for(size_t i=0;i<ref.size();i++) if(std::isfinite(ref[i])) scale=fmax(scale,fabs(ref[i]));
    for(size_t i=0;i<ref.size();i++) if(!close(out[i],ref[i],B->tol,B->tol*scale)) return fmt("result[%d]=%.17g differs from the reference execution %.17g",(int)i,out[i],ref[i]);
    return ""; }
static std::string checkC02(void*) {
    bool fired=false; for(std::set<long>::iterator i=gFail.begin();i!=gFail.end();++i) fired|= *i<gCalls; if(gFailFrom>=0 && gFailFrom<gCalls) fired=true;
    if(B->faulty==2) { outcome(fmt("%s fired=%d finished=%d %d",B->name,fired,finished,(int)out.size())); if(!finished) return "exception: "+thrown; for(size_t i=0;i<out.size();i++) if(!std::isfinite(out[i])) return fmt("result[%d] is not finite",(int)i); return ""; }
    outcome(fmt("%s fired=%d finished=%d ",B->name,fired,finished)+thrown);
    if(fired && finished) return "an evaluation failed inside the parallel region but the routine returned as if it had succeeded";
    if(fired && thrown.find(TAG)==std::string::npos) return "the exception raised does not carry the message of the failed evaluation: "+thrown;
    if(!fired && !finished) return "exception although no evaluation failed: "+thrown;
    return ""; }
static void report(const omprt::ExploreStats& st) { S.nchecks+=st.executions; S.states+=st.points; S.transitions+=st.executions; S.traces+=st.executions; S.extra["executions_max"]=fmax(S.extra["executions_max"],st.executions); S.extra["accesses_max"]=fmax(S.extra["accesses_max"],st.accesses);
    if(!st.error.empty()) fail(st.error+"; schedule: "+omprt::formatSchedule(st.errtrace,st.errthreads,st.errpolicy)); }
static void silent(utils::VerbosityLevel, const char*, const std::string&) {}
static bool bycost(const Body& a,const Body& b) { return a.cost>b.cost; }
int main(int argc,char** argv) { utils::msg=silent;
    init(argc,argv); bool c02=getenv("C02")!=NULL;
    int nb=sizeof(bodies)/sizeof(*bodies); std::stable_sort(bodies,bodies+nb,bycost);
    const double budget = thorough()? 240 : 10;
    for(int b=0;b<nb;b++) { B=&bodies[b]; if(c02 ? !B->faulty : (B->faulty==2 && strstr(B->name,"DFfault"))) continue; faultDF = B->faulty==2;
        int maxt = B->cost>2 && !thorough() ? 2 : 3;
        for(nthr=2;nthr<=maxt;nthr++) {
            if(!c02) {
                long maxex = (long)(budget/B->cost); if(maxex<2) maxex=2; if(maxex>20000&&!thorough()) maxex=20000; if(maxex>200000) maxex=200000;
                int bound = thorough()? 4 : nthr==2?3:2;
                if(begin(fmt("%s threads=%d schedules",B->name,nthr))) {
                    gFail.clear(); gFailFrom=-1; ref.clear();
                    if(!B->rnd) { omprt::serial(true); runBody(NULL); omprt::serial(false); ref=out; if(!finished) { fail("serial run failed: "+thrown); continue; } }
                    omprt::ExploreStats st, tot; tot.executions=tot.points=tot.accesses=0; int done=-1;
                    for(int k=0;k<=bound;k++) { st=omprt::explore(runBody,checkC01,NULL,nthr,k,maxex); report(st); tot.executions+=st.executions; tot.points+=st.points; tot.accesses+=st.accesses;
                        if(!st.error.empty()) break; if(!st.complete) { S.extra["n_capped_cases"]++; break; } done=k; maxex-=st.executions; if(maxex<=0) break; }
                    S.extra[fmt("n_bound_%d_completed",done)]++;
                    printf("SAMPLE %s threads=%d: %ld schedules, complete up to %d preemptions, %ld scheduling points, %ld memory accesses monitored\n",B->name,nthr,tot.executions,done,tot.points,tot.accesses);
                }
                if(nthr==2 && begin(fmt("%s threads=%d assignments",B->name,nthr))) {
                    gFail.clear(); gFailFrom=-1; ref.clear();
                    if(!B->rnd) { omprt::serial(true); runBody(NULL); omprt::serial(false); ref=out; }
                    report(omprt::explorePairs(runBody,checkC01,NULL,nthr,B->cost>5?1:B->cost>1?3:10));
                }
            } else {
                // number of calls made inside regions by an undisturbed run
                if(!begin(fmt("%s threads=%d faults",B->name,nthr))) continue;
                gFail.clear(); gFailFrom=-1; omprt::setRaceDetection(false);
                omprt::execute(runBody,NULL,nthr,std::vector<int>()); long n=gCalls; 
                if(!finished) { fail("undisturbed run failed: "+thrown); continue; }
                if(n==0) { fail("the routine never evaluates the user function inside a parallel region: the check is vacuous"); continue; }
                // failing evaluations: all of them if there are few, else the first, the last, and evenly spaced ones
                double c=B->cost*0.3; long per = B->cost>2 ? 1 : B->cost>0.05 ? 4 : 30, lim=(long)(budget*(thorough()?1:1.5)/c/per/2.2); if(lim>(thorough()?4000:300)) lim=thorough()?4000:300; if(lim<4) lim=4;
                if(thorough()) per*=3;
                std::vector<std::pair<std::set<long>,long> > plans; 
                for(long i=0;i<lim && i<n;i++) { long k = n<=lim? i : (long)((double)i/(lim-1)*(n-1)); std::set<long> s; s.insert(k); plans.push_back(std::make_pair(s,-1L));
                    if(k+1<n && B->cost<1) { s.insert(k+1); plans.push_back(std::make_pair(s,-1L)); }
                    if(i<3 || i==lim/2) plans.push_back(std::make_pair(std::set<long>(),k)); }
                long ex=0; S.extra["n_fault_plans"]+=plans.size(); if(n<=lim) S.extra["n_routines_with_every_evaluation_failed"]++;
                for(size_t i=0;i<plans.size();i++) { gFail=plans[i].first; gFailFrom=plans[i].second; ref.clear();
                    omprt::setRaceDetection(i < (B->cost>2?1:4));   // the error path itself is monitored for races too
                    omprt::ExploreStats st=omprt::explore(runBody,checkC02,NULL,nthr,B->cost>2?0:1,per);
                    if(!st.error.empty()) st.error=fmt("failing evaluation %ld%s of %ld: ",gFail.empty()?gFailFrom:*gFail.begin(),gFail.empty()?" and all later ones":gFail.size()>1?" and the next one":"",n)+st.error;
                    report(st); ex+=st.executions; if(!st.error.empty()) break; }
                omprt::setRaceDetection(true);
                printf("SAMPLE %s threads=%d: %ld user-function calls in parallel regions, %d fault plans, %ld executions\n",B->name,nthr,n,(int)plans.size(),ex);
            }
        }
    }
    printf("SAMPLE parallel regions of the library executed by this shard: %s\n",omprt::regionsSeen().c_str());
    return finish();
}
