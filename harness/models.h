// palette of density and potential models shared by several harnesses; created through the library's own factory
#pragma once
#include "vh.h"
#include "potential_base.h"
#include "potential_factory.h"
#include "potential_composite.h"
#include "utils.h"
#include "utils_config.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include <fstream>
namespace models {
using potential::PtrPotential; using potential::PtrDensity;
inline void silent(utils::VerbosityLevel, const char*, const std::string&) {}
/// parse "key=value ..." components separated by ';'  ("@" in values is replaced by the scratch directory)
inline std::vector<utils::KeyValueMap> parse(const std::string& spec) {
    std::vector<utils::KeyValueMap> r; size_t p=0;
    while(p<=spec.size()) { size_t q=spec.find(';',p); if(q==std::string::npos) q=spec.size(); std::string t=spec.substr(p,q-p), u; for(size_t i=0;i<t.size();i++) if(t[i]=='@') u+=vh::S.scratch; else u+=t[i]; r.push_back(utils::KeyValueMap(u," ")); p=q+1; }
    return r; }
inline PtrPotential pot(const std::string& spec) { return potential::createPotential(parse(spec)); }
inline PtrDensity dens(const std::string& spec) { return potential::createDensity(parse(spec)[0]); }
inline void writeFile(const std::string& name, const std::string& text) { std::ofstream f((vh::S.scratch+"/"+name).c_str()); f<<text; }
/// auxiliary files referred to by some models
inline void auxFiles() {
    writeFile("traj.txt","0 0.1 -0.2 0.3 0.5 0.25 -0.125\n1 0.7 0.1 0.1 0.3 0.5 0.2\n3 0.9 1.4 -0.1 -0.1 0.6 -0.3\n");
    writeFile("traj3.txt","0 0.1 -0.2 0.3\n1 0.7 0.1 0.1\n2 0.8 0.6 0.4\n3 0.9 1.4 -0.1\n");
    writeFile("rot.txt","0 0.2\n1 0.9\n2 1.3\n3 2.9\n");
    writeFile("scal.txt","0 1 1\n1 2 0.5\n2 1.5 0.75\n3 0.5 2\n");
    writeFile("acc.txt","0 0.1 0.2 -0.3\n1 0.3 -0.2 0.1\n2 -0.2 0.4 0.5\n");
    writeFile("evol_a.ini","[Potential]\ntype=Plummer\nmass=1\nscaleRadius=1\n");
    writeFile("evol_b.ini","[Potential]\ntype=MiyamotoNagai\nmass=2\nscaleRadius=1.5\nscaleHeight=0.3\n");
    writeFile("evol_c.ini","[Potential]\ntype=Logarithmic\nv0=0.7\nscaleRadius=0.5\np=0.9\nq=0.8\n");
    writeFile("evol.ini","[Potential]\ntype=Evolving\ninterpLinear=true\nTimestamps\n0 "+vh::S.scratch+"/evol_a.ini\n1 "+vh::S.scratch+"/evol_b.ini\n3 "+vh::S.scratch+"/evol_c.ini\n");
    writeFile("evol0.ini","[Potential]\ntype=Evolving\ninterpLinear=false\nTimestamps\n0 "+vh::S.scratch+"/evol_a.ini\n1 "+vh::S.scratch+"/evol_b.ini\n3 "+vh::S.scratch+"/evol_c.ini\n");
    // expansions without any symmetry
    { PtrPotential p=pot("type=Plummer scaleRadius=1.1 center=0.3,-0.2,0.15");
      potential::writePotential(vh::S.scratch+"/offmul.ini",*potential::Multipole::create(*p,coord::ST_NONE,3,3,12,0.05,30));
      potential::writePotential(vh::S.scratch+"/offbse.ini",*potential::BasisSet::create(*p,coord::ST_NONE,2,2,4,1.,1.));
      potential::writePotential(vh::S.scratch+"/offcyl.ini",*potential::CylSpline::create(*p,coord::ST_NONE,2,12,0.2,20,12,0.2,20)); }
}
struct M { const char* spec; double tol; bool expansion; };   // tol: documented relative accuracy of the model itself (quadrature)
static const M list[] = {
 {"file=@/offmul.ini",0,1}, {"file=@/offbse.ini",0,1}, {"file=@/offcyl.ini",0,1}, {"file=@/offmul.ini ; file=@/offbse.ini",0,1}, {"file=@/offbse.ini ; file=@/offcyl.ini ; type=Logarithmic p=0.9 q=0.8",0,1}, {"file=@/offcyl.ini ; type=Harmonic Omega=0.3 p=0.8",0,1},
 {"type=Plummer mass=2 scaleRadius=0.7",0,0}, {"type=Isochrone mass=1.5 scaleRadius=1.3",0,0}, {"type=NFW mass=1 scaleRadius=2",1e-6,0},
 {"type=MiyamotoNagai mass=1 scaleRadius=2 scaleHeight=0.3",0,0}, {"type=MiyamotoNagai mass=1 scaleRadius=0.5 scaleHeight=1.5",0,0}, {"type=MiyamotoNagai mass=1 scaleRadius=0 scaleHeight=1",0,0},
 {"type=Dehnen mass=1 scaleRadius=1.5 gamma=0",0,0}, {"type=Dehnen gamma=0.5",0,0}, {"type=Dehnen gamma=1 scaleRadius=0.5",0,0}, {"type=Dehnen gamma=1.5",0,0}, {"type=Dehnen gamma=2",0,0},
 {"type=Dehnen gamma=1 p=0.8 q=0.6",1e-5,0}, {"type=Dehnen gamma=0 p=1 q=0.5",1e-5,0}, {"type=Dehnen gamma=1.5 p=0.9 q=0.9",1e-5,0},
 {"type=Ferrers mass=1 scaleRadius=1.2 p=0.8 q=0.5",1e-6,0}, {"type=Ferrers p=0.5 q=0.3",1e-6,0}, {"type=Ferrers p=0.93 q=0.7",3e-6,0},
 {"type=Logarithmic v0=1.1 scaleRadius=0.3",0,0}, {"type=Logarithmic v0=1 scaleRadius=0",0,0}, {"type=Logarithmic v0=1 scaleRadius=1 q=0.7",0,0}, {"type=Logarithmic v0=0.5 scaleRadius=0.2 p=0.9 q=0.7",0,0}, {"type=Logarithmic v0=0.5 scaleRadius=0 p=0.8 q=0.6",0,0},
 {"type=Harmonic Omega=1.3",0,0}, {"type=Harmonic Omega=0.4 p=0.9 q=0.6",0,0}, {"type=Harmonic Omega=2 q=1.5",0,0},
 {"type=PerfectEllipsoid mass=1 scaleRadius=1.4 q=0.6",0,0}, {"type=PerfectEllipsoid q=0.95",0,0}, {"type=PerfectEllipsoid q=0.1",0,0},
 {"type=KeplerBinary mass=2",0,0}, {"type=KeplerBinary mass=2 binary_q=0.5 binary_sma=1.5 binary_ecc=0.4 binary_phase=1",0,0}, {"type=KeplerBinary mass=1 binary_q=1 binary_sma=1 binary_ecc=0",0,0},
 {"type=King W0=5 mass=2 scaleRadius=0.5",0,1}, {"type=King W0=9 trunc=0.5",0,1},
 {"type=UniformAcceleration file=@/acc.txt",0,0},
 {"file=@/evol.ini",0,0}, {"file=@/evol0.ini",0,0},
 {"type=Disk mass=1 scaleRadius=2 scaleHeight=0.3",0,1}, {"type=Disk mass=1 scaleRadius=1 scaleHeight=-0.2",0,1}, {"type=Disk surfaceDensity=1 scaleRadius=2 scaleHeight=0.3 innerCutoffRadius=0.5",0,1}, {"type=Disk mass=1 scaleRadius=1 scaleHeight=0.2 sersicIndex=2",0,1}, {"type=Disk mass=1 scaleRadius=2 scaleHeight=0.3 modulationAmplitude=0.1",0,1},
 {"type=Spheroid mass=1 scaleRadius=1.5 alpha=1 beta=4 gamma=1",0,1}, {"type=Spheroid densityNorm=0.5 alpha=2 beta=5 gamma=0 p=0.9 q=0.6",0,1}, {"type=Spheroid densityNorm=0.5 gamma=1 beta=3 outerCutoffRadius=10 q=0.7",0,1}, {"type=Spheroid mass=1 gamma=1.8 beta=3.5 alpha=0.5 outerCutoffRadius=100 cutoffStrength=1",0,1}, {"type=Spheroid densityNorm=1 gamma=0 beta=4 q=1.3 lmax=4",0,1},
 {"type=Nuker surfaceDensity=1 scaleRadius=1 alpha=2 beta=2.5 gamma=0.3",0,1}, {"type=Nuker mass=1 scaleRadius=1 alpha=1 beta=3 gamma=0 p=0.8 q=0.7",0,1}, {"type=Sersic mass=1 scaleRadius=1 sersicIndex=2.5",0,1}, {"type=Sersic mass=1 scaleRadius=2 sersicIndex=1 q=0.6",0,1}, {"type=Sersic surfaceDensity=2 scaleRadius=1 sersicIndex=4 p=0.9 q=0.8",0,1},
 {"type=Multipole density=Plummer scaleRadius=1 lmax=0",0,1}, {"type=Multipole density=Dehnen gamma=1 p=0.8 q=0.6 lmax=8 mmax=4",0,1}, {"type=Multipole density=Ferrers p=0.8 q=0.5 lmax=4 gridSizeR=20",0,1}, {"type=Multipole density=MiyamotoNagai scaleRadius=1 scaleHeight=0.5 lmax=12 rmin=0.01 rmax=100 gridSizeR=30",0,1}, {"type=Multipole density=Spheroid gamma=0 beta=4 lmax=2 mmax=0 q=0.8 rmin=0.1 rmax=10 gridSizeR=10",0,1},
 {"type=CylSpline density=MiyamotoNagai scaleRadius=1 scaleHeight=0.3 gridSizeR=15 gridSizez=15 rmin=0.1 rmax=30 zmin=0.05 zmax=20",0,1}, {"type=CylSpline density=Spheroid gamma=0 beta=5 p=0.8 q=0.6 mmax=4 gridSizeR=12 gridSizez=12 rmin=0.2 rmax=20 zmin=0.1 zmax=20",0,1},
 {"type=BasisSet density=Plummer nmax=8 lmax=0",0,1}, {"type=BasisSet density=Dehnen gamma=1 p=0.8 q=0.6 nmax=8 lmax=6 eta=1.5 r0=0.8",0,1}, {"type=BasisSet density=Spheroid gamma=0.5 beta=5 q=0.7 nmax=5 lmax=4 eta=0.5 r0=2",0,1}, {"type=BasisSet density=Spheroid gamma=0.5 beta=5 q=0.7 nmax=5 lmax=4 eta=0.8",0,1},
 {"type=Plummer mass=1 scaleRadius=0.5 ; type=MiyamotoNagai mass=3 scaleRadius=2 scaleHeight=0.3 ; type=NFW mass=10 scaleRadius=10",1e-6,0}, {"type=Dehnen gamma=1 ; type=Logarithmic p=0.9 q=0.8 ; type=KeplerBinary mass=0.1",0,0}, {"type=Disk scaleRadius=1 scaleHeight=0.1 ; type=Spheroid gamma=1 beta=3 densityNorm=0.1 outerCutoffRadius=20",0,1},
 {"type=MiyamotoNagai scaleRadius=1 scaleHeight=0.2 center=0.3,-0.2,0.5",0,0}, {"type=Logarithmic p=0.8 q=0.6 orientation=0.3,0.7,1.1",0,0}, {"type=Logarithmic p=0.8 q=0.6 rotation=1.3",0,0}, {"type=Dehnen gamma=1 scale=2,0.5",0,0},
 {"type=Logarithmic p=0.9 q=0.7 scaleRadius=0.5 center=@/traj.txt orientation=0.3,0.7,1.1 rotation=@/rot.txt scale=@/scal.txt",0,0},
 {"type=MiyamotoNagai scaleRadius=1 scaleHeight=0.2 orientation=0.3,0.7,1.1 ; type=Plummer center=0.3,0.4,-0.1 ; type=Harmonic Omega=0.3 p=0.7 q=0.5 rotation=0.4",0,0},
 {"type=Multipole density=Dehnen gamma=1 p=0.8 q=0.6 lmax=4 orientation=0.5,1.0,-0.4 center=0.1,0.2,0.3",0,1},
};
static const int N = sizeof(list)/sizeof(list[0]);
}
