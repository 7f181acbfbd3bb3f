// S01: self-consistent models: all sequences of operations over sets of components, with components whose response is known in closed form,
// followed by components with real distribution functions
#include "vh.h"
#include "galaxymodel_selfconsistent.h"
#include "galaxymodel_base.h"
#include "galaxymodel_spherical.h"
#include "potential_analytic.h"
#include "potential_dehnen.h"
#include "potential_composite.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include "potential_factory.h"
#include "actions_factory.h"
#include "df_factory.h"
#include "utils_config.h"
#include "utils.h"
#include <algorithm>
#include <functional>
using namespace vh; using namespace potential; using galaxymodel::BaseComponent; using galaxymodel::SelfConsistentModel; using galaxymodel::PtrComponent;
static void silent(utils::VerbosityLevel, const char*, const std::string&) {}
static const coord::PosCar PTS[]={coord::PosCar(1,0,0),coord::PosCar(.3,.2,.1),coord::PosCar(2,-1,.5),coord::PosCar(0,3,3),coord::PosCar(-4,2,-.2),coord::PosCar(.1,.1,2)};
static const double REFPT[]={1,0,0};
// a component responding to the potential in a known way: the density is rescaled according to the potential at a fixed point
struct RescaledDens: public BaseDensity { PtrDensity d; double f; RescaledDens(const PtrDensity& q,double a): d(q), f(a) {} coord::SymmetryType symmetry() const { return d->symmetry(); } std::string name() const { return "RescaledDens"; }
    double densityCar(const coord::PosCar& p,double t) const { return f*d->density(p,t); } double densityCyl(const coord::PosCyl& p,double t) const { return f*d->density(p,t); } double densitySph(const coord::PosSph& p,double t) const { return f*d->density(p,t); } };
#ifdef STUB
// the first part is about the bookkeeping: a cheap substitute for action finders that remembers the potential it was created for (overrides the function from the library when linked)
struct StubAF: public actions::BaseActionFinder { PtrPotential pot; bool interp; StubAF(const PtrPotential& p,bool i): pot(p), interp(i) {} std::string name() const { return "Stub"; }
    void eval(const coord::PosVelCyl& x, actions::Actions* a, actions::Angles*, actions::Frequencies*) const { if(!a) return; double f; pot->eval(coord::PosCyl(x.R,x.z,x.phi),&f); a->Jr=f+interp; a->Jz=a->Jphi=0; } };
namespace actions { PtrActionFinder createActionFinder(const potential::PtrPotential& p, bool interp) { return PtrActionFinder(new StubAF(p,interp)); } }
#endif
static int updateOrder=0;
static double phiAt(const BasePotential& p, const coord::PosCar& x) { double f; p.eval(x,&f); return f; }
struct Mock: public BaseComponent { PtrDensity base; double amp; int nupd; const void *lastPot,*lastAF; int order; const SelfConsistentModel* model; bool sawModel; double Jr;
    Mock(const PtrDensity& d,bool disk): BaseComponent(disk), base(d), amp(1), nupd(0), lastPot(0), lastAF(0), order(-1), model(NULL), sawModel(true), Jr(0) {}
    static double response(double phi) { return 1/(1+.3*fabs(phi)); }
    void update(const BasePotential& pot, const actions::BaseActionFinder& af) { nupd++; lastPot=&pot; lastAF=&af; order=updateOrder++; amp=response(phiAt(pot,PTS[0])); if(model) sawModel &= &pot==model->totalPotential.get() && &af==model->actionFinder.get();
        Jr=af.actions(coord::PosVelCyl(1,.2,.3,.1,.05,.4)).Jr; }
    PtrDensity getDensity() const { return PtrDensity(new RescaledDens(base,amp)); } PtrPotential getPotential() const { return PtrPotential(); } df::PtrDistributionFunction getDF() const { return df::PtrDistributionFunction(); } };
static void setParams(SelfConsistentModel& m, bool interp) { m.verbose=false; m.useActionInterpolation=interp; m.lmaxAngularSph=8; m.mmaxAngularSph=0; m.sizeRadialSph=24; m.rminSph=.01; m.rmaxSph=200; m.mmaxAngularCyl=0;
#ifdef STUB
    m.sizeRadialCyl=8; m.RminCyl=.1; m.RmaxCyl=20; m.sizeVerticalCyl=8; m.zminCyl=.05; m.zmaxCyl=20;
#else
    m.sizeRadialCyl=20; m.RminCyl=.05; m.RmaxCyl=50; m.sizeVerticalCyl=18; m.zminCyl=.03; m.zmaxCyl=50;
#endif
}
// palette of components; the field of each is computed once and rescaled
struct Item { std::string name; PtrDensity dens; bool disk; PtrPotential pot; bool mock; PtrPotential field; };
static std::vector<Item> pal;
static PtrPotential fieldOf(const PtrDensity& d, bool disk) { SelfConsistentModel q; setParams(q,false); 
    return disk? PtrPotential(CylSpline::create(*d,coord::ST_UNKNOWN,0,q.sizeRadialCyl,q.RminCyl,q.RmaxCyl,q.sizeVerticalCyl,q.zminCyl,q.zmaxCyl)) : PtrPotential(Multipole::create(*d,coord::ST_UNKNOWN,q.lmaxAngularSph,0,q.sizeRadialSph,q.rminSph,q.rmaxSph)); }
static void palette() {
    PtrDensity pl(new Plummer(1,1)), de(new Dehnen(.5,2,.5,1,.7)), mn(new MiyamotoNagai(1,2,.4)), m2(new MiyamotoNagai(.6,1,.6)); PtrPotential nfw(new NFW(3,4)), is(new Isochrone(.7,1.5));
    Item I[]={{"mockS",pl,false,PtrPotential(),true,PtrPotential()},{"mockD",mn,true,PtrPotential(),true,PtrPotential()},{"statS",de,false,PtrPotential(),false,PtrPotential()},{"statD",m2,true,PtrPotential(),false,PtrPotential()},{"pot",PtrDensity(),false,nfw,false,PtrPotential()},{"both",de,false,is,false,PtrPotential()},{"bothD",m2,true,is,false,PtrPotential()},{"empty",PtrDensity(),false,PtrPotential(),false,PtrPotential()}};
    for(auto& i: I) { if(i.dens) i.field=fieldOf(i.dens,i.disk); pal.push_back(i); }
}
static PtrComponent make(const Item& i) { if(i.mock) return PtrComponent(new Mock(i.dens,i.disk)); if(i.dens&&i.pot) return PtrComponent(new galaxymodel::ComponentStatic(i.dens,i.disk,i.pot)); if(i.dens||!i.pot) return PtrComponent(new galaxymodel::ComponentStatic(i.dens,i.disk)); return PtrComponent(new galaxymodel::ComponentStatic(i.pot)); }
// the model of the expected state: amplitudes of mock components and the sum of fields
struct Expect { std::vector<int> item; std::vector<double> amp; bool have; std::vector<double> phi; std::vector<coord::GradCar> g; 
    Expect(): have(false) {}
    bool any() const { for(int i: item) if(pal[i].dens||pal[i].pot) return true; return false; }
    void total() { phi.assign(6,0); g.assign(6,coord::GradCar()); for(auto& q: g) q.dx=q.dy=q.dz=0; for(int k=0;k<6;k++) for(size_t c=0;c<item.size();c++) { const Item& I=pal[item[c]]; double f; coord::GradCar d;
        if(I.pot) { I.pot->eval(PTS[k],&f,&d); phi[k]+=f; g[k].dx+=d.dx; g[k].dy+=d.dy; g[k].dz+=d.dz; } if(I.dens) { I.field->eval(PTS[k],&f,&d); double a=amp[c]; phi[k]+=a*f; g[k].dx+=a*d.dx; g[k].dy+=a*d.dy; g[k].dz+=a*d.dz; } } have=true; }
};
static void verify(const SelfConsistentModel& m, const Expect& e, const std::vector<PtrDensity>& statD, const char* when) {
    check(m.totalPotential!=NULL && m.actionFinder!=NULL, "%s: potential or action finder is absent",when); if(!m.totalPotential||!m.actionFinder) return;
    for(int k=0;k<6;k++) { double f; coord::GradCar g; m.totalPotential->eval(PTS[k],&f,&g); check(fabs(f-e.phi[k])<=3e-3*fabs(e.phi[k]), "%s: potential at point %d is %.8g instead of %.8g (sum of the components)",when,k,f,e.phi[k]);
        double n=sqrt(e.g[k].dx*e.g[k].dx+e.g[k].dy*e.g[k].dy+e.g[k].dz*e.g[k].dz), d=sqrt(pow(g.dx-e.g[k].dx,2)+pow(g.dy-e.g[k].dy,2)+pow(g.dz-e.g[k].dz,2)); check(d<=1e-2*n, "%s: gradient at point %d is %g %g %g instead of %g %g %g",when,k,g.dx,g.dy,g.dz,e.g[k].dx,e.g[k].dy,e.g[k].dz); }
    // the action finder belongs to the current potential
    coord::PosVelCyl xv(1,.2,.3,.1,.05,.4); double J=m.actionFinder->actions(xv).Jr, J0=actions::createActionFinder(m.totalPotential,m.useActionInterpolation)->actions(xv).Jr; check(J==J0||(J!=J&&J0!=J0), "%s: action finder gives Jr=%.10g, one created for the current potential %.10g",when,J,J0);
    for(size_t c=0;c<m.components.size();c++) { const Item& I=pal[e.item[c]]; if(I.mock) { Mock* q=static_cast<Mock*>(m.components[c].get()); check(fabs(q->amp-e.amp[c])<=3e-3, "%s: component %d has amplitude %g instead of %g",when,(int)c,q->amp,e.amp[c]); check(q->sawModel, "%s: component %d was updated with a potential or action finder different from those of the model",when,(int)c); }
        else { check(m.components[c]->getDensity()==I.dens && m.components[c]->getPotential()==I.pot, "%s: static component %d was changed",when,(int)c); } }
}
int main(int argc, char** argv) {
    init(argc, argv); utils::msg=silent; palette(); bool T=thorough();
    // ---- all sequences of operations over all ordered selections of up to three components
#ifdef STUB
    std::vector<std::vector<int> > sets; int NP=pal.size();
    for(int a=0;a<NP;a++) { sets.push_back({a}); for(int b=0;b<NP;b++) if(b!=a||a<2) { sets.push_back({a,b}); for(int c=0;c<NP;c++) if((c!=a&&c!=b)||(T&&c<2)) sets.push_back({a,b,c}); } }
    // operations: I iterate, U update the total potential, A forget the action finder, P forget the potential, R rotate the list, X remove the last component, S append a static potential, D append a static disk
    std::vector<std::string> seqs; const char OPS[]="IUAPRXSD"; 
    for(int i=0;i<8;i++) for(int j=0;j<8;j++) { std::string s; s+=OPS[i]; s+=OPS[j]; seqs.push_back(s+"I"); seqs.push_back(s+"U"); if(T) for(int k=0;k<8;k++) for(int l=0;l<2;l++) seqs.push_back(s+OPS[k]+OPS[l]); }
    for(size_t is=0;is<sets.size();is++) {
        std::string nm; for(int i: sets[is]) nm+=" "+pal[i].name;
        for(int interp=0;interp<2;interp++) { if(!T && interp!=(int)(is%2)) continue; if(!vh::begin("sequences"+nm+(interp?" interp":""))) continue;
        size_t iq0=0, step=1; if(!T && sets[is].size()==3) { iq0=is%86; step=86; } else if(!T && sets[is].size()==2) { iq0=is%12; step=12; }
        for(size_t iq=iq0;iq<seqs.size();iq+=step) {
            const std::string& sq=seqs[iq]; setprog("sequences"+nm+" "+sq); SelfConsistentModel m; setParams(m,interp); Expect e; std::vector<PtrDensity> sd;
            for(int i: sets[is]) { PtrComponent c=make(pal[i]); if(pal[i].mock) static_cast<Mock*>(c.get())->model=&m; m.components.push_back(c); e.item.push_back(i); e.amp.push_back(1); }
            S.states++; std::string done;
            for(size_t io=0;io<sq.size();io++) { char op=sq[io]; done+=op; S.transitions++; bool threw=false; std::string err; std::vector<int> before; for(auto& c: m.components) { Mock* q=dynamic_cast<Mock*>(c.get()); before.push_back(q?q->nupd:0); }
                try {
                    if(op=='I') doIteration(m); else if(op=='U') updateTotalPotential(m); else if(op=='A') m.actionFinder.reset(); else if(op=='P') { m.totalPotential.reset(); m.actionFinder.reset(); e.have=false; }
                    else if(op=='R') { if(m.components.size()>1) { std::rotate(m.components.begin(),m.components.begin()+1,m.components.end()); std::rotate(e.item.begin(),e.item.begin()+1,e.item.end()); std::rotate(e.amp.begin(),e.amp.begin()+1,e.amp.end()); } }
                    else if(op=='X') { if(!m.components.empty()) { m.components.pop_back(); e.item.pop_back(); e.amp.pop_back(); } }
                    else { int i=op=='S'?4:3; m.components.push_back(make(pal[i])); e.item.push_back(i); e.amp.push_back(1); }
                } catch(std::exception& ex) { threw=true; err=ex.what(); }
                if(op!='I'&&op!='U') { check(!threw, "%s: %s",done.c_str(),err.c_str()); continue; }
                if(!e.any()) { check(threw, "%s: no exception although no component provides a density or potential",done.c_str()); break; }
                check(!threw, "%s: exception %s",done.c_str(),err.c_str()); if(threw) break;
                if(op=='I') { if(!e.have) e.total(); double ph=e.phi[0]; for(size_t c=0;c<e.item.size();c++) if(pal[e.item[c]].mock) e.amp[c]=Mock::response(ph); }
                e.total();
                for(size_t c=0;c<m.components.size();c++) { Mock* q=dynamic_cast<Mock*>(m.components[c].get()); if(q) check(q->nupd==before[c]+(op=='I'), "%s: component %d was updated %d times by one operation %c",done.c_str(),(int)c,q->nupd-before[c],op); }
                verify(m,e,sd,done.c_str());
            }
            outcome(nm+" "+fmt("%d",(int)m.components.size())); S.traces++;
        } }
    }
#else
    // ---- components with distribution functions
    PtrPotential plum(new Plummer(1,1)), nfw(new NFW(3,4)); PtrDensity de(new Dehnen(.5,2,.5,1,1));
    auto df=[&](const PtrPotential& pot,const PtrDensity& d) { return df::createDistributionFunction(utils::KeyValueMap("type=QuasiSpherical"),pot.get(),d.get()); };
    df::PtrDistributionFunction f0=df(plum,plum), fdpl=df::createDistributionFunction(utils::KeyValueMap("type=DoublePowerLaw norm=1 J0=1 slopeIn=1 slopeOut=6 coefJrIn=1.2 coefJzIn=.9 steepness=1.5 rotFrac=.4"));
    struct K { const char* n; std::function<PtrComponent()> f; };
    auto sphC=[&](df::PtrDistributionFunction d,int lmax) { return PtrComponent(new galaxymodel::ComponentWithSpheroidalDF(d,plum,lmax,0,T?14:10,.02,60)); };
    auto cylC=[&](df::PtrDistributionFunction d) { return PtrComponent(new galaxymodel::ComponentWithDisklikeDF(d,plum,0,T?16:10,.05,50,T?14:8,.05,50)); };
    // one iteration of a model that is already self-consistent
    struct SC { const char* n; int kind; } sc[]={{"sph",0},{"in halo",2},{"two halves",3},{"null potential",4},{"interp",5}};
    for(auto& s: sc) for(int nit=1;nit<=(T?3:s.kind==0?2:1);nit++) { if(!vh::begin(fmt("self-consistent %s iterations=%d",s.n,nit))) continue;
        SelfConsistentModel m; setParams(m,s.kind==5); PtrPotential tot=plum;
        if(s.kind==2) { tot=PtrPotential(new Composite({plum,nfw})); df::PtrDistributionFunction f=df(tot,plum); m.components={sphC(f,0),PtrComponent(new galaxymodel::ComponentStatic(nfw))}; }
        else if(s.kind==3) { PtrPotential half(new Plummer(.5,1)); df::PtrDistributionFunction f=df(plum,half); m.components={sphC(f,0),sphC(f,2)}; }
        else m.components={s.kind==1?cylC(f0):sphC(f0,0)};
        if(s.kind!=4) m.totalPotential=tot;
        for(int i=0;i<nit;i++) doIteration(m);
        double tol=s.kind==1?.04:1e-2;
        for(auto& x: PTS) { double f=phiAt(*m.totalPotential,x),g=phiAt(*tot,x); check(fabs(f-g)<=tol*fabs(g), "potential %.8g instead of %.8g",f,g); double r=0,r0=plum->density(x); for(auto& c: m.components) if(c->getDensity()&&c->getDF()) r+=c->getDensity()->density(x); check(fabs(r-r0)<=(s.kind==1?.2:.03)*r0, "density %.8g instead of %.8g at %g,%g,%g",r,r0,x.x,x.y,x.z); S.transitions++; }
        outcome(s.n);
    }
    // the density of every component after an update is that of its DF in the previous potential; the order does not matter
    auto pick=[&](int i)->PtrComponent { return i==0? sphC(f0,2) : i==1? sphC(fdpl,4) : i==2? cylC(fdpl) : i==3? PtrComponent(new galaxymodel::ComponentStatic(PtrDensity(new MiyamotoNagai(1,2,.4)),true)) : i==4? PtrComponent(new galaxymodel::ComponentStatic(de,false)) : PtrComponent(new galaxymodel::ComponentStatic(nfw)); };
    for(int a=0;a<6;a++) for(int b=a+1;b<6;b++) for(int c=b+1;c<6;c++) { if(!T && a*100+b*10+c!=15 && a*100+b*10+c!=35) continue; if(a>2 || a==2 || b==2 || c==2) continue;
        if(!vh::begin(fmt("components %d %d %d",a,b,c))) continue;
        std::vector<std::vector<double> > res; int perm[][3]={{0,1,2},{2,0,1},{1,0,2}}; int ids[3]={a,b,c};
        for(auto& pm: perm) { if(!T && &pm==&perm[2]) break; SelfConsistentModel m; setParams(m,false); for(int k: pm) m.components.push_back(pick(ids[k])); m.totalPotential=PtrPotential(new Composite({PtrPotential(new MiyamotoNagai(1,2,.4)),nfw}));
            PtrPotential old=m.totalPotential; doIteration(m); std::vector<double> v; 
            if(&pm==&perm[0]) { actions::PtrActionFinder af=actions::createActionFinder(old,false); PtrPotential sum; std::vector<PtrPotential> parts;
                for(auto& cc: m.components) { if(!cc->getDF()) { if(cc->getPotential()) parts.push_back(cc->getPotential()); if(cc->getDensity()) parts.push_back(fieldOf(cc->getDensity(),cc->isDensityDisklike)); continue; } parts.push_back(fieldOf(cc->getDensity(),cc->isDensityDisklike));
                    for(int k=0;k<4;k++) { double R=exp(.9*k-1.2), z=.4*R; coord::PosCar x(R*.6,R*.8,z); double d; galaxymodel::computeMoments(galaxymodel::GalaxyModel(*old,*af,*cc->getDF()),x,&d,NULL,NULL,false,coord::Orientation(),1e-3,100000); double r=cc->getDensity()->density(x); check(fabs(r-d)<=.3*d, "density of a component %g instead of %g (integral over velocities in the previous potential) at R=%g",r,d,R); S.transitions++; } }
                Composite all(parts); for(auto& x: PTS) { double f=phiAt(*m.totalPotential,x), g=phiAt(all,x); check(fabs(f-g)<=3e-3*fabs(g), "potential %.8g, sum of components %.8g",f,g); } }
            doIteration(m); for(auto& x: PTS) { v.push_back(phiAt(*m.totalPotential,x)); } res.push_back(v); }
        for(size_t k=1;k<res.size();k++) for(int i=0;i<6;i++) check(fabs(res[k][i]-res[0][i])<=1e-4*fabs(res[0][i]), "potential after two iterations depends on the order of components: %.10g and %.10g",res[k][i],res[0][i]);
        outcome(fmt("components %d%d%d",a,b,c));
    }
#endif
    return finish();
}
