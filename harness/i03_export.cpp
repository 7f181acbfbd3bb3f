// I03: exported expansions reload as the same model; incomplete exports are reported.
// Enumerates coefficient-defined models of every expansion class (all subsets of non-monopole terms up to a small order, grid
// sizes, grid placements, interpolation orders), models built from sources of every symmetry class, composites, unit systems,
// and every position at which the output can be cut.
#include "models.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include "potential_composite.h"
#include "particles_base.h"
#include "units.h"
#include "expmodels.h"
#include "iofault.h"
#include <memory>
using namespace vh; using namespace coord; using namespace potential;
typedef std::vector<double> V; typedef std::vector<V> VV; typedef math::Matrix<double> Mat; typedef std::vector<Mat> VM;
static units::ExternalUnits* conv(int u) {
    static units::InternalUnits* iu=new units::InternalUnits(units::galactic_kms); (void)iu;
    static units::InternalUnits* i2=new units::InternalUnits(2.7*units::Kpc, 177.*units::Myr);
    static units::ExternalUnits* c[4]={new units::ExternalUnits(), new units::ExternalUnits(*i2, units::Kpc, units::kms, units::Msun), new units::ExternalUnits(*i2, units::pc, 100*units::kms, 1e10*units::Msun), new units::ExternalUnits(*iu, 8.*units::Kpc, 220*units::kms, 1e6*units::Msun)};
    return c[u]; }
struct Vals { double v[3],g[9],rho; };
static const double PTS[][3]={{0,0,0},{1e-3,0,0},{0.05,0.02,-0.01},{0.3,-0.2,0.1},{0,0,0.5},{0,0,-0.5},{1,0,0},{-1,0.3,0},{0.2,1,0.4},{0.2,-1,-0.4},{-2,-1,1.5},{2,1,-1.5},{0,3,0},{3.3,0.1,2.2},{-0.7,0.9,-3.1},{6,5,0.2},{0.4,0.3,9},{30,-20,11},{-300,200,-500},{0,0,1e4}};
static const int NP=sizeof(PTS)/sizeof(PTS[0]);
static double maxdev=0,maxcoef=0;
static void coefcmp(const char* what,double a,double b,double scale) { double d=fabs(a-b)/(fabs(a)+scale*1e-7+1e-300); if(d>maxcoef&&d<1e-5) maxcoef=d; check(d<3e-7, "%s: coefficient %.17g reloaded as %.17g",what,a,b); }
static void vecs(const char* what,const VV& a,const VV& b,size_t) { // missing or shorter arrays count as zeros
    if(!check(a.size()==b.size(),"%s: %d terms become %d",what,(int)a.size(),(int)b.size())) return;
    double sc=0; for(size_t i=0;i<a.size();i++) for(size_t k=0;k<a[i].size();k++) sc=fmax(sc,fabs(a[i][k]));
    for(size_t i=0;i<a.size();i++) { size_t n=std::max(a[i].size(),b[i].size()); for(size_t k=0;k<n;k++) coefcmp(what,k<a[i].size()?a[i][k]:0,k<b[i].size()?b[i][k]:0,sc); } }
static void grids(const char* what,const V& a,const V& b) { if(!check(a.size()==b.size(),"%s: grid size %d becomes %d",what,(int)a.size(),(int)b.size())) return; for(size_t i=0;i<a.size();i++) coefcmp(what,a[i],b[i],0); }
static void mats(const char* what,const VM& a,const VM& b) { if(!check(a.size()==b.size(),"%s: %d terms become %d",what,(int)a.size(),(int)b.size())) return; double sc=0; for(size_t i=0;i<a.size();i++) for(size_t k=0;k<a[i].size();k++) sc=fmax(sc,fabs(a[i].data()[k]));
    for(size_t i=0;i<a.size();i++) { if(!check(a[i].rows()==b[i].rows()&&a[i].cols()==b[i].cols(),"%s: term %d is %dx%d, becomes %dx%d",what,(int)i,(int)a[i].rows(),(int)a[i].cols(),(int)b[i].rows(),(int)b[i].cols())) continue; for(size_t k=0;k<a[i].size();k++) coefcmp(what,a[i].data()[k],b[i].data()[k],sc*1e-2); } }
static void cmpCoefs(const BaseDensity& A,const BaseDensity& B) {
    if(const BasisSet* a=dynamic_cast<const BasisSet*>(&A)) { const BasisSet* b=dynamic_cast<const BasisSet*>(&B); if(!check(b!=NULL,"type changed")) return; double e1,r1,e2,r2; VV c1,c2; a->getCoefs(e1,r1,c1); b->getCoefs(e2,r2,c2); coefcmp("eta",e1,e2,0); coefcmp("r0",r1,r2,0); vecs("BasisSet",c1,c2,0); }
    if(const Multipole* a=dynamic_cast<const Multipole*>(&A)) { const Multipole* b=dynamic_cast<const Multipole*>(&B); if(!check(b!=NULL,"type changed")) return; V r1,r2; VV c1,c2,d1,d2; a->getCoefs(r1,c1,d1); b->getCoefs(r2,c2,d2); grids("Multipole r",r1,r2); vecs("Multipole Phi",c1,c2,0); vecs("Multipole dPhi",d1,d2,0); }
    if(const CylSpline* a=dynamic_cast<const CylSpline*>(&A)) { const CylSpline* b=dynamic_cast<const CylSpline*>(&B); if(!check(b!=NULL,"type changed")) return; V r1,r2,z1,z2; VM p1,p2,q1,q2,s1,s2; a->getCoefs(r1,z1,p1,q1,s1); b->getCoefs(r2,z2,p2,q2,s2); grids("CylSpline R",r1,r2); grids("CylSpline z",z1,z2); mats("CylSpline Phi",p1,p2); mats("CylSpline dPhidR",q1,q2); mats("CylSpline dPhidz",s1,s2); }
    if(const DensitySphericalHarmonic* a=dynamic_cast<const DensitySphericalHarmonic*>(&A)) { const DensitySphericalHarmonic* b=dynamic_cast<const DensitySphericalHarmonic*>(&B); if(!check(b!=NULL,"type changed")) return; V r1,r2; VV c1,c2; a->getCoefs(r1,c1); b->getCoefs(r2,c2); grids("DensSH r",r1,r2); vecs("DensSH",c1,c2,0); }
    if(const DensityAzimuthalHarmonic* a=dynamic_cast<const DensityAzimuthalHarmonic*>(&A)) { const DensityAzimuthalHarmonic* b=dynamic_cast<const DensityAzimuthalHarmonic*>(&B); if(!check(b!=NULL,"type changed")) return; V r1,r2,z1,z2; VM c1,c2; a->getCoefs(r1,z1,c1); b->getCoefs(r2,z2,c2); grids("DensAH R",r1,r2); grids("DensAH z",z1,z2); mats("DensAH",c1,c2); }
}
static void dev(const char* what,const double* x,double a,double b,double scale,double tol) { if(!std::isfinite(a)&&!std::isfinite(b)) return; if(a==b) return; double d=fabs(a-b)/scale; if(d>maxdev&&d<1e-2) maxdev=d; check(d<tol,"%s at (%g,%g,%g): %.15g becomes %.15g (relative to %g: %g)",what,x[0],x[1],x[2],a,b,scale,d); }
static void cmpEval(const BaseDensity& A,const BaseDensity& B) {
    const BasePotential *a=dynamic_cast<const BasePotential*>(&A),*b=dynamic_cast<const BasePotential*>(&B);
    if(!check((a!=NULL)==(b!=NULL),"potential/density kind changed")) return; double pm=0,rm=0;
    for(int i=0;i<NP;i++) { PosCar p(PTS[i][0],PTS[i][1],PTS[i][2]); if(a) { double v=a->value(p); if(std::isfinite(v)) pm=fmax(pm,fabs(v)); } double d=A.density(p); if(std::isfinite(d)) rm=fmax(rm,fabs(d)); }
    for(int i=0;i<NP;i++) { PosCar p(PTS[i][0],PTS[i][1],PTS[i][2]); double r=sqrt(p.x*p.x+p.y*p.y+p.z*p.z)+1e-3;
        S.states++; if(a) { double v1,v2; GradCar g1,g2; a->eval(p,&v1,&g1); b->eval(p,&v2,&g2); dev("Phi",PTS[i],v1,v2,fmin(pm,fabs(v1)+fmin(pm,1e3/r)),1e-6); double s=pm/r; dev("dPhi/dx",PTS[i],g1.dx,g2.dx,s,1e-6); dev("dPhi/dy",PTS[i],g1.dy,g2.dy,s,1e-6); dev("dPhi/dz",PTS[i],g1.dz,g2.dz,s,1e-6); dev("rho",PTS[i],A.density(p),B.density(p),pm/r/r/12.6+fabs(A.density(p)),1e-5); }
        else dev("rho",PTS[i],A.density(p),B.density(p),i==0?rm:fmin(rm,fabs(A.density(p))+rm*pow(1+r,-3)),1e-6); } }
static void flatten(const PtrDensity& d,std::vector<PtrDensity>& out) {
    if(const BaseComposite<BasePotential>* c=dynamic_cast<const BaseComposite<BasePotential>*>(d.get())) { for(unsigned i=0;i<c->size();i++) flatten(PtrDensity(c->component(i)),out); return; }
    if(const BaseComposite<BaseDensity>* c=dynamic_cast<const BaseComposite<BaseDensity>*>(d.get())) { for(unsigned i=0;i<c->size();i++) flatten(c->component(i),out); return; }
    out.push_back(d); }
static std::string F;
static void roundtrip(const PtrDensity& A,int u) {
    const units::ExternalUnits& c=*conv(u); const BasePotential* ap=dynamic_cast<const BasePotential*>(A.get()); std::string f1=S.scratch+"/a.ini", f2=S.scratch+"/b.ini"; iofault::spit(f1,"garbage left by an earlier file which is longer than the beginning\n");
    bool ok = ap ? writePotential(f1,*ap,c) : writeDensity(f1,*A,c); if(!check(ok,"write failed")) return; F=iofault::slurp(f1);
    PtrDensity B; try { if(ap) B=readPotential(f1,c); else B=readDensity(f1,c); } catch(std::exception& e) { check(false,"reload failed: %s",e.what()); return; }
    if(A->name().find("Composite",9)==std::string::npos) check(A->name()==B->name(),"name %s becomes %s",A->name().c_str(),B->name().c_str()); check(A->symmetry()==B->symmetry(),"symmetry %d becomes %d",(int)A->symmetry(),(int)B->symmetry());
    std::vector<PtrDensity> la,lb; flatten(A,la); flatten(B,lb); if(check(la.size()==lb.size(),"%d components become %d",(int)la.size(),(int)lb.size())) for(size_t i=0;i<la.size();i++) { check(la[i]->name()==lb[i]->name(),"component %d: %s becomes %s",(int)i,la[i]->name().c_str(),lb[i]->name().c_str()); cmpCoefs(*la[i],*lb[i]); }
    cmpEval(*A,*B);
    bool ok2 = ap ? writePotential(f2,*dynamic_cast<const BasePotential*>(B.get()),c) : writeDensity(f2,*B,c); if(!check(ok2,"second write failed")) return; std::string G=iofault::slurp(f2); size_t k=0; while(k<F.size()&&k<G.size()&&F[k]==G[k]) k++;
    // the same text, except that numbers may differ in the last digit due to conversion to and from internal representation
    if(F!=G) { const char *x=F.c_str(),*y=G.c_str(); bool same=true; std::string where; double lm=0; while(same&&(*x||*y)) { if(x==F.c_str()||x[-1]=='\n') { for(const char* q=x;*q&&*q!='\n';) { char* e; double d=strtod(q,&e); if(e>q) { if(std::isfinite(d)) lm=fmax(lm,fabs(d)); q=e; } else q++; } } if(strchr("-+.0123456789",*x)&&*x&&strchr("-+.0123456789",*y)&&*y) { char *e1,*e2; double d1=strtod(x,&e1),d2=strtod(y,&e2); if(e1>x&&e2>y) { same=fabs(d1-d2)<=3e-8*fmax(fabs(d1),fabs(d2))+1e-12*lm; if(!same) where=std::string(x,fmin(40,strlen(x)))+"' vs '"+std::string(y,fmin(40,strlen(y))); x=e1; y=e2; continue; } }
            if(*x!=*y) { same=false; where=std::string(x,fmin(40,strlen(x)))+"' vs '"+std::string(y,fmin(40,strlen(y))); break; } x++; y++; }
        check(same,"exporting the reloaded model gives a different file: '%s'",where.c_str()); }
    // writing to a different unit system and reading back with it
    outcome(A->name()+fmt(":%d:%d",(int)A->symmetry(),u)); }
using namespace expmodels;
static const int MENU=12;
static PtrDensity menu(int k) { switch(k) { case 0: return mkMul(0,0,5,0,0.01,20); case 1: return mkMul(2,0x45,6,0,0.02,30); case 2: return mkMul(1,0x7,4,2,0.1,10); case 3: return mkBSE(2,0x91,2,0,1,1.3); case 4: return mkBSE(0,0,3,0,0.5,0.7); case 5: return mkCyl(0,0,5,4,true,1,0,false); case 6: return mkCyl(2,0xb,5,4,false,1,0,false); case 7: return mkCyl(1,0x2,5,4,false,0,0,false);
    case 8: return mkDSH(0,0,5,0,0.02,20); case 9: return mkDSH(2,0xa8,5,0,0.02,20); case 10: return mkCyl(0,0,5,4,true,0,0,true); default: return mkCyl(2,0xd,4,4,false,0,0,true); } }
// sources of every symmetry class
static const char* SRC[]={"type=Plummer scaleRadius=0.8","type=NFW","type=Dehnen gamma=1.5","type=MiyamotoNagai scaleRadius=1 scaleHeight=0.4","type=Ferrers p=0.8 q=0.5","type=Ferrers p=0.8 q=0.5 orientation=0.3,0.5,0.1","type=Ferrers p=0.8 q=0.5 orientation=0.3,0,0","type=Plummer center=0.2,0,0","type=Plummer center=0,0.2,0","type=Plummer center=0,0,-0.2","type=Plummer center=0.1,0.2,0","type=Plummer center=0.1,0,0.2","type=Plummer center=0.1,0.15,0.2","type=MiyamotoNagai center=0,0,0.3","type=Disk scaleRadius=1 scaleHeight=0.2","type=Spheroid gamma=1 beta=4 p=0.9 q=0.7 outerCutoffRadius=10"};
static const int NS=sizeof(SRC)/sizeof(SRC[0]);
int main(int argc,char** argv) {
    init(argc,argv); utils::msg=models::silent; iofault::init(); bool T=thorough();
    // A: coefficient-defined models
    for(int lmax=0;lmax<=(T?3:2);lmax++) { int nb=(lmax+1)*(lmax+1)-1; unsigned long tot=1ul<<nb; for(unsigned long mask=0;mask<tot;mask++) { if(lmax==3) { int pc=__builtin_popcountl(mask); if(pc>3&&pc<nb-1) continue; }
        for(int cls=0;cls<3;cls++) for(int mag=0;mag<3;mag++) { if(!begin(fmt("coef cls=%d lmax=%d mask=%lx mag=%d",cls,lmax,mask,mag))) continue; static const int NR[]={2,3,6}; for(int u=0;u<(T?4:2);u++) for(int in=0;in<3;in++) { int n=NR[in]; if(cls==0&&n==2) n=4; PtrDensity A; try { A = cls==0?mkMul(lmax,mask,n,mag,0.01*(in+1),10*(in+1)):cls==1?mkBSE(lmax,mask,in*2,mag,0.5+0.45*in,0.3+in):mkDSH(lmax,mask,n,mag,0.02,13); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } S.traces++; roundtrip(A,u); } } } }
    for(int mmax=0;mmax<=(T?3:2);mmax++) for(unsigned mask=0;mask<(1u<<2*mmax);mask++) for(int half=0;half<2;half++) for(int deriv=0;deriv<3;deriv++) for(int mag=0;mag<2;mag++) { if(!begin(fmt("cyl mmax=%d mask=%x half=%d kind=%d mag=%d",mmax,mask,half,deriv,mag))) continue;
        for(int nR=(T?4:5);nR<=6;nR++) for(int nz=4;nz<=(T?6:5);nz++) for(int u=0;u<(T?4:2);u++) { PtrDensity A; try { A=mkCyl(mmax,mask,nR,nz,half,deriv==1,mag,deriv==2); } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } S.traces++; roundtrip(A,u); } }
    // B: models built from sources
    for(int s=0;s<NS;s++) for(int cls=0;cls<6;cls++) for(int ord=0;ord<(T?6:3);ord++) for(int so=0;so<3;so++) { if(!begin(fmt("src %d class %d order %d sym %d: %s",s,cls,ord,so,SRC[s]))) continue; static const int LM[6]={0,2,3,1,4,6}; static const int MM[6]={0,2,1,1,4,2}; int l=LM[ord],m=MM[ord];
        PtrDensity A; try { bool isd=strstr(SRC[s],"Disk")||strstr(SRC[s],"Spheroid"); PtrDensity d; PtrPotential p; if(isd) d=models::dens(SRC[s]); else { p=models::pot(SRC[s]); d=p; } SymmetryType sy= so==0?d->symmetry(): so==1? (SymmetryType)(d->symmetry()&ST_REFLECTION? ST_TRIAXIAL : d->symmetry()) : ST_NONE; if(so==1&&sy==d->symmetry()) continue; if(so==2&&d->symmetry()==ST_NONE) continue;
            if(cls==0) A= p? PtrDensity(Multipole::create(*p,sy,l,m,8,0.03,25)) : PtrDensity(Multipole::create(*d,sy,l,m,8,0.03,25)); if(cls==1) A=Multipole::create(*d,sy,l,m,8,0.03,25); if(cls==2) A=BasisSet::create(*d,sy,l,m,3,1.,0.9); if(cls==3) A= p? PtrDensity(CylSpline::create(*p,sy,m,7,0.1,20,7,0.1,20)) : PtrDensity(); if(cls==4) A=DensitySphericalHarmonic::create(*d,sy,l,m,8,0.03,25); if(cls==5) A=DensityAzimuthalHarmonic::create(*d,sy,m,7,0.1,20,7,0.1,20);
        } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); continue; } if(!A) continue; for(int u=0;u<4;u++) { S.traces++; roundtrip(A,u); } }
    // CylSpline from density (expensive) and models from particles
    for(int s=0;s<NS;s++) { if(!begin(fmt("cylspline from density %s",SRC[s]))) continue; try { PtrDensity d=strstr(SRC[s],"Disk")||strstr(SRC[s],"Spheroid")?models::dens(SRC[s]):PtrDensity(models::pot(SRC[s])); for(int dv=0;dv<2;dv++) { PtrDensity A=CylSpline::create(*d,d->symmetry(),1,5,0.2,15,5,0.2,15,true,dv!=0); for(int u=0;u<4;u++) { S.traces++; roundtrip(A,u); } } } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); } }
    { static const int SY[]={ST_NONE,ST_REFLECTION,ST_XREFLECTION,ST_YREFLECTION,ST_ZREFLECTION,ST_BISYMMETRIC,ST_TRIAXIAL,ST_AXISYMMETRIC,ST_SPHERICAL,ST_XREFLECTION|ST_YREFLECTION,ST_XREFLECTION|ST_ZREFLECTION,ST_YREFLECTION|ST_ZREFLECTION,ST_ZROTATION}; for(int is=0;is<13;is++) for(int cls=0;cls<5;cls++) { if(!begin(fmt("particles sym %d class %d",SY[is],cls))) continue;
        particles::ParticleArray<PosCyl> P; for(int i=0;i<90;i++) { double r=0.1*exp(0.05*i); P.add(PosCyl(r*fabs(sin(1+i*1.7)),r*cos(1+i*1.7),i*2.399),1./90); }
        try { PtrDensity A; SymmetryType sy=(SymmetryType)SY[is]; if(cls==0) A=Multipole::create(P,sy,2,2,6,0.05,9); if(cls==1) A=BasisSet::create(P,sy,2,2,2,1.,1.); if(cls==2) A=CylSpline::create(P,sy,2,6,0.2,9,6,0.2,9,false); if(cls==3) A=CylSpline::create(P,sy,2,6,0.2,9,6,0.2,9,true); if(cls==4) A=DensitySphericalHarmonic::create(P,sy,2,2,6,0.05,9); for(int u=0;u<4;u++) { S.traces++; roundtrip(A,u); } } catch(std::exception& e) { outcome(std::string("reject ")+e.what()); } } }
    // C: composites of potentials and of densities: all ordered pairs and triples, and nested ones
    for(int dens=0;dens<2;dens++) { int lo=dens?8:0, hi=dens?12:8; for(int a=lo;a<hi;a++) for(int b=lo;b<hi;b++) for(int c=lo-1;c<hi;c++) { if(!T&&c>=lo&&(a+b+c)%3) continue; if(!begin(fmt("composite %d,%d,%d",a,b,c))) continue; for(int nest=0;nest<(c<lo?1:3);nest++) { PtrDensity A; if(dens) { std::vector<PtrDensity> v,w; v.push_back(menu(a)); v.push_back(menu(b)); if(c>=lo) v.push_back(menu(c)); if(nest==1) { w.push_back(v[0]); v.erase(v.begin()); w.push_back(PtrDensity(new CompositeDensity(v))); v=w; } if(nest==2) { w.assign(v.begin(),v.begin()+2); PtrDensity q(new CompositeDensity(w)); PtrDensity last=v[2]; v.clear(); v.push_back(q); v.push_back(last); } A.reset(new CompositeDensity(v)); }
        else { std::vector<PtrPotential> v,w; int id[3]={a,b,c}; for(int i=0;i<(c<lo?2:3);i++) v.push_back(std::dynamic_pointer_cast<const BasePotential>(menu(id[i]))); if(nest==1) { w.push_back(v[0]); v.erase(v.begin()); w.push_back(PtrPotential(new Composite(v))); v=w; } if(nest==2) { w.assign(v.begin(),v.begin()+2); PtrPotential q(new Composite(w)),last=v[2]; v.clear(); v.push_back(q); v.push_back(last); } A.reset(new Composite(v)); }
        for(int u=0;u<2;u++) { S.traces++; roundtrip(A,u); } } } }
    // D: write failures at every position, and failing, short and interrupted system calls
    for(int k=0;k<MENU;k++) for(int two=0;two<2;two++) for(int u=0;u<2;u++) { PtrDensity A=menu(k); if(two) { if(k<8) { std::vector<PtrPotential> v(2,std::dynamic_pointer_cast<const BasePotential>(A)); A.reset(new Composite(v)); } else A.reset(new CompositeDensity(std::vector<PtrDensity>(2,A))); } const BasePotential* ap=dynamic_cast<const BasePotential*>(A.get()); std::string f=S.scratch+"/w.ini"; unlink(f.c_str()); bool ok0=writeDensity(f,*A,*conv(u)); std::string full=iofault::slurp(f);
        for(size_t blk=0;blk<full.size()+64;blk+=64) { if(!begin(fmt("cut model %d two %d units %d block %d",k,two,u,(int)blk))) continue; check(ok0,"write failed"); for(size_t n=blk;n<blk+64&&n<=full.size();n++) { S.transitions++; iofault::spit(f,""); iofault::limit(n); bool ok=false; try { ok = ap? writePotential(f,*ap,*conv(u)) : writeDensity(f,*A,*conv(u)); } catch(std::exception&) { ok=false; } iofault::limit(-1); std::string got=iofault::slurp(f); check(ok==(n>=full.size()),"limit of %d bytes out of %d: reported %s",(int)n,(int)full.size(),ok?"success":"failure"); if(ok) check(got==full,"reported success but the file is different"); outcome(ok?"cut ok":"cut failed"); } }
        for(int mode=1;mode<=3;mode++) for(int at=0;at<6;at++) for(int st=0;st<2;st++) { if(!begin(fmt("syscall model %d two %d units %d mode %d at %d sticky %d",k,two,u,mode,at,st))) continue; int errs[]={ENOSPC,EIO,EDQUOT}; for(int ie=0;ie<(mode==1?3:1);ie++) { S.transitions++; unlink(f.c_str()); iofault::arm((iofault::Mode)mode,at,errs[ie],st!=0); bool ok; try { ok=writeDensity(f,*A,*conv(u)); } catch(std::exception&) { ok=false; } iofault::disarm(); long fired=iofault::w.fired; std::string got=iofault::slurp(f); check(ok==(got==full),"system call %d %s: reported %s but the file is %s",at,mode==1?"failing":mode==2?"short":"interrupted",ok?"success":"failure",got==full?"complete":"incomplete"); if(mode==3||mode==2) check(got==full,"short or interrupted write lost data"); outcome(fmt("sys %d %d %d",mode,(int)ok,fired>0)); } } }
    if(begin("unwritable paths")) { PtrDensity A=menu(1); check(!writeDensity("",*A,*conv(0)),"empty name accepted"); check(!writeDensity(S.scratch+"/no/such/dir/x",*A,*conv(0)),"missing directory accepted"); check(!writeDensity(S.scratch,*A,*conv(0)),"directory accepted"); }
    S.extra["n_"]=0; S.extra.erase("n_"); if(getenv("VH_STAT")) printf("DEV %g %g\n",maxdev,maxcoef);
    return finish(); }
