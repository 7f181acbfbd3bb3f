# U01: the same physical model in every system of units
import sys, os, itertools, warnings; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama
init(); warnings.simplefilter('ignore'); os.chdir(S.scratch)
A = lambda x: np.array(x, dtype=float)
G = 4.300917e-6   # replaced below by the value in force
kmsMyr = 1.0227121650537077e-3
class World:
    """sizes of user units, in kpc, km/s, Msun; s: argument of setUnits or None for the trivial system"""
    def __init__(w, name, L, V, M, s): w.name, w.L, w.V, w.M, w.s = name, L, V, M, s; w.T = L/V
    def enter(w): agama.setUnits(**w.s) if w.s else agama.setUnits()
agama.setUnits(mass=1, length=1, velocity=1); G = float(agama.G)*1.0; agama.setUnits()
def sysLVM(L, V, M): return World('length=%g velocity=%g mass=%g' % (L, V, M), L, V, M, dict(length=L, velocity=V, mass=M))
def sysLTM(L, T, M): return World('length=%g time=%g mass=%g' % (L, T, M), L, L/T/kmsMyr, M, dict(length=L, time=T, mass=M))
def sysVTM(V, T, M): return World('velocity=%g time=%g mass=%g' % (V, T, M), V*T*kmsMyr, V, M, dict(velocity=V, time=T, mass=M))
def trivial(L, V): return World('trivial length=%g velocity=%g' % (L, V), L, V, L*V*V/G, None)
worlds = [sysLVM(1, 1, 1), sysLVM(1, 1, 1e10), sysLVM(1, 1, 1/G), sysLVM(2**5, 1, 1), sysLVM(1, 2.**-4, 1), sysLVM(1, 1, 2.**9), sysLVM(0.001, 1, 1), sysLVM(1, 977.79, 1), sysLVM(8.178, 220, 3e9), sysLVM(1e-3, 1e3, 1e3), sysLVM(1000, .01, 1e15), sysLTM(1, 1, 1), sysLTM(1, 1000, 1e10), sysLTM(.5, .01, 7), sysLTM(3, 977.79, 1e11), sysVTM(1, 1, 1), sysVTM(100, 10, 1e12), sysVTM(.03, 3e4, 1e5),
  sysLTM(1e-3, 1, 1), sysVTM(220, .5, 1e-3)]
if S.thorough:
    worlds += [sysLVM(*x) for x in itertools.product((1e-3, .7, 40), (1e-2, 1.3, 300), (1e-2, 5, 1e11))] + [sysLTM(*x) for x in itertools.product((1e-3, .7, 40), (1e-2, 1.3, 300), (1e-2, 1e11))] + [sysVTM(*x) for x in itertools.product((1e-3, .7, 40), (1e-2, 1.3, 300), (1e-2, 1e11))]
# scaling by exact powers of two changes no rounding error, except through pow/log and the automatic choice of grids
triv = [trivial(2.**a, 2.**b) for a, b in [(0, 0), (10, -3), (0, 10), (-10, 7), (3, 3), (-13, 0)]+([(a, b) for a in (-20, -5, 1, 16) for b in (-16, -2, 1, 13)] if S.thorough else [])]
# ------------------------------------------------------------------ physical models: Msun, kpc, km/s
def times(w, f): return [[t/w.T] + [c/u for c, u in zip(r, f)] for t, *r in [(0, 1., 2., 3.), (0.01, 1.5, 1.8, 2.9), (0.02, 1.4, 1., 3.5)]]
def fdens(w): return lambda x: 1e9*np.exp(-(x*w.L)[:,0]**2-2*(x*w.L)[:,1]**2-3*(x*w.L)[:,2]**2)/(w.M/w.L**3)
def fpot(w): return lambda x: -1e4*(1+((x*w.L)**2).sum(1))**-.5/w.V**2
xyz = A([[0.7, 0.3, 0.2], [-2., 1.1, 0.6], [5., 3., -4.], [.05, -.02, .03], [30., 20., 10.]])
def particles(w):
    r = np.random.RandomState(5); x = r.randn(400, 3); return x/w.L, np.full(400, 1e8)/w.M
def gravfile(w, name, cols): open(name, 'w').write('\n'.join(' '.join('%.17g' % (v/u) for v, u in zip(r, cols)) for r in [(0, 0, 0, 0), (.1, 1e8, 2e8, 3e8), (1, 1e9, 2e9, 5e8), (3, 4e9, 1e9, 6e8), (10, 1e10, 5e9, 7e8)])); return name
P = {
 'Plummer': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L),
 'Isochrone': lambda w: dict(type='Isochrone', mass=1e10/w.M, scaleRadius=1.7/w.L),
 'NFW': lambda w: dict(type='NFW', mass=1e12/w.M, scaleRadius=12/w.L),
 'MN': lambda w: dict(type='MiyamotoNagai', mass=5e10/w.M, scaleRadius=3/w.L, scaleHeight=.3/w.L),
 'Log': lambda w: dict(type='Logarithmic', v0=220/w.V, scaleRadius=2/w.L, p=.9, q=.8),
 'Harmonic': lambda w: dict(type='Harmonic', Omega=30*w.T, p=.9, q=.8),
 'Dehnen': lambda w: dict(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, gamma=1.3, axisRatioY=.8, axisRatioZ=.6),
 'Ferrers': lambda w: dict(type='Ferrers', mass=1e10/w.M, scaleRadius=4/w.L, p=.8, q=.6),
 'PerfEll': lambda w: dict(type='PerfectEllipsoid', mass=1e10/w.M, scaleRadius=1.7/w.L, axisRatioZ=.6),
 'King': lambda w: dict(type='King', mass=1e10/w.M, scaleRadius=1.7/w.L, W0=4, trunc=.8),
 'Spheroid m': lambda w: dict(type='Spheroid', mass=1e10/w.M, scaleRadius=1.7/w.L, gamma=1.1, beta=3.4, alpha=1.2, outerCutoffRadius=20/w.L, cutoffStrength=1.5, axisRatioZ=.7, lmax=4),
 'Spheroid r': lambda w: dict(type='Spheroid', densityNorm=1e8/(w.M/w.L**3), scaleRadius=1.7/w.L, outerCutoffRadius=20/w.L, lmax=4, mmax=4, p=.8, q=.7),
 'Nuker': lambda w: dict(type='Nuker', surfaceDensity=1e9/(w.M/w.L**2), scaleRadius=1.7/w.L, gamma=.6, outerCutoffRadius=30/w.L, lmax=4, q=.8),
 'Sersic': lambda w: dict(type='Sersic', surfaceDensity=1e9/(w.M/w.L**2), scaleRadius=1.7/w.L, sersicIndex=2.5, lmax=4, q=.7),
 'Sersic m': lambda w: dict(type='Sersic', mass=1e10/w.M, scaleRadius=1.7/w.L, sersicIndex=1.5),
 'Disk': lambda w: dict(type='Disk', surfaceDensity=5e8/(w.M/w.L**2), scaleRadius=3/w.L, scaleHeight=-.3/w.L, innerCutoffRadius=1/w.L, modulationAmplitude=.2),
 'Disk+': lambda w: dict(type='Disk', mass=5e10/w.M, scaleRadius=3/w.L, scaleHeight=.3/w.L, sersicIndex=1.5),
 'Binary': lambda w: dict(type='KeplerBinary', mass=1e9/w.M, binary_q=.4, binary_sma=.3/w.L, binary_ecc=.2, binary_phase=.5),
 'Multipole': lambda w: dict(type='Multipole', density=agama.Density(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, q=.8, gamma=.5), rmin=.01/w.L, rmax=300/w.L, gridSizeR=20, lmax=4),
 'Multipole0': lambda w: dict(type='Multipole', density=agama.Density(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, q=.8, gamma=.5), gridSizeR=20, lmax=4),
 'CylSpline': lambda w: dict(type='CylSpline', density=agama.Density(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, q=.3, gamma=.5), rmin=.05/w.L, rmax=30/w.L, zmin=.03/w.L, zmax=20/w.L, gridSizeR=12, gridSizez=10, mmax=0),
 'CylSplineP': lambda w: dict(type='CylSpline', potential=agama.Potential(type='Dehnen', mass=1e10/w.M, scaleRadius=2/w.L, gamma=.5, p=.9, q=.8), rmin=.05/w.L, rmax=30/w.L, zmin=.03/w.L, zmax=20/w.L, gridSizeR=12, gridSizez=10, mmax=2),
 'CylSpline0': lambda w: dict(type='CylSpline', density=agama.Density(type='MiyamotoNagai', mass=5e10/w.M, scaleRadius=3/w.L, scaleHeight=.3/w.L), gridSizeR=12, gridSizez=10, mmax=0),
 'BasisSet': lambda w: dict(type='BasisSet', density=agama.Density(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, q=.8), r0=2/w.L, nmax=6, lmax=4, eta=1.2),
 'BasisSet0': lambda w: dict(type='BasisSet', density=agama.Density(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, q=.8), nmax=6, lmax=4),
 'user density': lambda w: dict(type='Multipole', density=fdens(w), symmetry='t', rmin=.1/w.L, rmax=20/w.L, gridSizeR=16, lmax=4),
 'user density cyl': lambda w: dict(type='CylSpline', density=fdens(w), symmetry='t', rmin=.1/w.L, rmax=10/w.L, zmin=.1/w.L, zmax=10/w.L, gridSizeR=12, gridSizez=12, mmax=2),
 'user potential': lambda w: dict(type='Multipole', potential=fpot(w), symmetry='s', rmin=.1/w.L, rmax=20/w.L, gridSizeR=16, lmax=0),
 'particles': lambda w: dict(type='Multipole', particles=particles(w), symmetry='t', gridSizeR=8, lmax=2, rmin=.1/w.L, rmax=20/w.L),
 'particles cyl': lambda w: dict(type='CylSpline', particles=particles(w), symmetry='t', gridSizeR=8, gridSizez=8, mmax=2, rmin=.1/w.L, rmax=20/w.L, zmin=.1/w.L, zmax=20/w.L),
 'particles bse': lambda w: dict(type='BasisSet', particles=particles(w), symmetry='t', nmax=4, lmax=2, r0=1.3/w.L),
 'center': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L, center=A([.3, -.2, .1])/w.L),
 'center(t)': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L, center=A(times(w, [w.L]*3))),
 'center(t) vel': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L, center=A([[0/w.T, .1/w.L, .2/w.L, .3/w.L, 10/w.V, 20/w.V, -5/w.V], [.02/w.T, .4/w.L, .1/w.L, .3/w.L, 10/w.V, -20/w.V, -5/w.V]])),
 'rotation(t)': lambda w: dict(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, p=.6, q=.5, rotation=A([[0, .1], [.01/w.T, .5], [.02/w.T, 1.3]])),
 'rotation(t) vel': lambda w: dict(type='Dehnen', mass=1e10/w.M, scaleRadius=1.7/w.L, p=.6, q=.5, rotation=A([[0, .1, 20*w.T], [.02/w.T, .5, 50*w.T]])),
 'scale(t)': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L, scale=A([[0, 1, 1], [.01/w.T, 1.2, 1.1], [.02/w.T, 2, .7]])),
 'scale(t) vel': lambda w: dict(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L, scale=A([[0, 1, 1, 3*w.T, 4*w.T], [.02/w.T, 2, .7, 1*w.T, 0]])),
 'orientation': lambda w: dict(type='MiyamotoNagai', mass=5e10/w.M, scaleRadius=3/w.L, scaleHeight=.3/w.L, orientation=[.3, .4, .5]),
}
def filepot(kind):
    def f(w):
        nm = S.scratch+'/u.ini'
        if kind == 'accel':
            open('a.txt', 'w').write('\n'.join('%.17g %.17g %.17g %.17g' % (t/w.T, *(A(a)/(w.V/w.T))) for t, a in [(0, (100, 200, 300)), (.01, (50, -100, 20)), (.02, (30, 20, 10))])); return agama.Potential(type='UniformAcceleration', file='a.txt')
        if kind == 'evolving':
            for i, m in enumerate((1e10, 2e10, 1.5e10)): agama.Potential(type='Multipole', density=agama.Density(type='Plummer', mass=m/w.M, scaleRadius=(1+i)/w.L), lmax=0, gridSizeR=12, rmin=.1/w.L, rmax=50/w.L).export('e%d.ini' % i)
            open(nm, 'w').write('[Potential]\ntype=Evolving\nTimestamps\n' + '\n'.join('%.17g e%d.ini' % (t/w.T, i) for i, t in enumerate((0, .01, .02)))+'\n'); return agama.Potential(nm)
        if kind == 'mass':
            open('m.txt', 'w').write('\n'.join('%.17g %.17g' % (r/w.L, 1e10*r**3/(1+r)**2/(10+r)/w.M) for r in 10**np.linspace(-1, 2, 16))); return agama.Potential(type='Multipole', density=agama.Density(cumulmass=np.loadtxt('m.txt')), lmax=0, gridSizeR=12)
        if kind == 'ini':
            open(nm, 'w').write('[Potential disk]\ntype=Disk\nmass=%.17g\nscaleRadius=%.17g\nscaleHeight=%.17g\n[Potential bulge]\ntype=Dehnen\nmass=%.17g\nscaleRadius=%.17g\ncenter=%.17g,%.17g,0\n[Potential halo]\ntype=Logarithmic\nv0=%.17g\nscaleRadius=%.17g\n' % (5e10/w.M, 3/w.L, .3/w.L, 1e10/w.M, .5/w.L, .1/w.L, .2/w.L, 220/w.V, 10/w.L)); return agama.Potential(nm)
        m = {'ex mult': 'Multipole', 'ex cyl': 'CylSpline', 'ex bse': 'BasisSet', 'ex cylp': 'CylSplineP'}[kind]
        agama.Potential(**P[m](w)).export(nm); return agama.Potential(nm)
    return f
FP = {k: filepot(k) for k in ('accel', 'evolving', 'mass', 'ini', 'ex mult', 'ex cyl', 'ex bse', 'ex cylp')}
def pots(k, w): return FP[k](w) if k in FP else agama.Potential(**P[k](w))
def nothrow(f):
    try: return f()
    except Exception as e: return None
def obs_pot(p, w, axi, k=''):
    X = xyz/w.L; r = []; acc = w.V/w.T; zero = (lambda a: a-a[0]) if k in ZEROPOINT else (lambda a: a); ev = lambda t: p.eval(X, pot=True, acc=True, der=True, t=t/w.T)
    if p.potential(A([1, 0, 0])/w.L) == p.potential(A([1, 0, 0])/w.L) :
        for t in (0, .005, .013):
            a, b, c = ev(t); r += [('pot', zero(a), w.V**2), ('acc', b, acc), ('der', c, acc/w.L), ('dens', p.density(X, t=t/w.T), w.M/w.L**3), ('potential', zero(p.potential(X, t=t/w.T)), w.V**2), ('force', p.force(X, t=t/w.T), acc)] + [('forceDeriv', q, u) for q, u in zip(p.forceDeriv(X, t=t/w.T), (acc, acc/w.L))]
    fin = k not in ('Log', 'Harmonic', 'accel', 'ini', 'Dehnen', 'rotation(t)', 'rotation(t) vel')   # integrals along the line of sight converge; the documented error of the triaxial Dehnen potential at large radii is small
    d = fin and nothrow(lambda: p.projectedDensity(X[:, :2], beta=.3, alpha=.2, gamma=.1))
    if fin and d is not None: r.append(('projdens', d, w.M/w.L**2))
    q = nothrow(lambda: p.projectedEval(X[:3, :2], pot=True, acc=True, der=True, beta=.3))
    if fin and q is not None: r += [('projpot', q[0], w.V**2*w.L), ('projacc', q[1], w.V**2), ('projder', q[2], w.V**2/w.L)]
    q = nothrow(lambda: p.projectedForce(X[:3, :2], beta=.3))
    if fin and q is not None: r.append(('projforce', q, w.V**2))
    if k != 'accel': r.append(('enclosed', p.enclosedMass(A([.5, 3, 20])/w.L), w.M))
    if k not in ('accel', 'Disk'): r.append(('totalMass', p.totalMass(), w.M))
    E = nothrow(lambda: p.potential(A([[2, 0, 0], [9, 0, 0]])/w.L))
    if axi:
        r.append(('Rcirc E', p.Rcirc(E=E), w.L)); r.append(('Rcirc L', p.Rcirc(L=A([100, 1500])/(w.L*w.V)), w.L)); r.append(('Tcirc E', p.Tcirc(E), w.T)); r.append(('Tcirc xv', p.Tcirc(A([[2/w.L, 0, 0, 0, 30/w.V, 0]])), w.T)); r.append(('Rmax', p.Rmax(E), w.L)); r.append(('Rperi xv', p.Rperiapo(A([[2/w.L, 0, 0, 10/w.V, 30/w.V, 0]])), w.L)); r.append(('Rperi EL', p.Rperiapo(np.stack([E, 20/(w.L*w.V)+E*0], 1)), w.L))
        EE = np.linspace(E[0], E[1], 300); r.append(('Rcirc many', p.Rcirc(E=EE), w.L)); r.append(('Tcirc many', p.Tcirc(EE), w.T)); r.append(('Rmax many', p.Rmax(EE), w.L)); r.append(('Rcirc L many', p.Rcirc(L=np.linspace(100, 1500, 300)/(w.L*w.V)), w.L))
    return r
ZEROPOINT = ('Log', 'ini')   # the zero point of the logarithmic potential is arbitrary (it depends on the length unit)
AXI = ('Plummer', 'Isochrone', 'NFW', 'MN', 'Multipole', 'Multipole0', 'CylSpline', 'King', 'mass', 'ex cyl', 'Disk+', 'CylSpline0')
K = {}
for k in list(P)+list(FP): K['potential '+k] = lambda w, k=k: obs_pot(pots(k, w), w, k in AXI, k)
def dens_obs(d, w):
    X = xyz/w.L; agama.setRandomSeed(7)
    return [('dens', d.density(X), w.M/w.L**3), ('proj', d.projectedDensity(X[:, :2], beta=.5), w.M/w.L**2), ('enclosed', d.enclosedMass(A([.5, 3, 20])/w.L), w.M), ('total', nothrow(d.totalMass) or 0, w.M)]
DEN = {k: (lambda w, k=k: agama.Density(**P[k](w))) for k in ('Plummer', 'Dehnen', 'Sersic', 'Nuker', 'Disk', 'Ferrers', 'Spheroid r', 'center', 'King')}
DEN['SphHarm'] = lambda w: agama.Density(type='DensitySphericalHarmonic', density=DEN['Dehnen'](w), rmin=.05/w.L, rmax=50/w.L, gridSizeR=16, lmax=4)
DEN['AziHarm'] = lambda w: agama.Density(type='DensityAzimuthalHarmonic', density=DEN['Disk'](w), rmin=.2/w.L, rmax=20/w.L, zmin=.1/w.L, zmax=5/w.L, gridSizeR=12, gridSizez=12, mmax=0)
DEN['user'] = lambda w: agama.Density(fdens(w), symmetry='t')
DEN['sum'] = lambda w: agama.Density(DEN['Plummer'](w), DEN['Disk'](w), fdens(w))
def exd(k):
    def f(w): DEN[k](w).export('d.ini'); return agama.Density('d.ini')
    return f
DEN['ex SphHarm'] = exd('SphHarm'); DEN['ex AziHarm'] = exd('AziHarm')
for k in DEN: K['density '+k] = lambda w, k=k: dens_obs(DEN[k](w), w)
def smp(f, parts):
    def g(w): agama.setRandomSeed(11); x, m = f(w); return [('pos', x[:, :3], w.L), ('mass', m, w.M)] + ([('vel', x[:, 3:], w.V)] if x.shape[1] > 3 else [])
    return g
K['sample density'] = smp(lambda w: DEN['Dehnen'](w).sample(40), 0); K['sample potential'] = smp(lambda w: agama.Potential(**P['Plummer'](w)).sample(40), 0)
K['sample jeans'] = smp(lambda w: DEN['Plummer'](w).sample(30, potential=agama.Potential(**P['MN'](w)), beta=.1, kappa=.3), 0)
K['sample eddington'] = smp(lambda w: DEN['Plummer'](w).sample(30, potential=agama.Potential(**P['NFW'](w)), method='eddington') if 0 else DEN['Plummer'](w).sample(30, potential=agama.Potential(**P['NFW'](w))), 0)
# distribution functions
def base(w): return agama.Potential(dict(type='MiyamotoNagai', mass=5e10/w.M, scaleRadius=3/w.L, scaleHeight=.3/w.L), dict(type='NFW', mass=1e12/w.M, scaleRadius=12/w.L))
def sph(w): return agama.Potential(type='Plummer', mass=1e10/w.M, scaleRadius=1.7/w.L)
Jm = lambda w: A([[10, 20, 300], [100, 5, -1200], [3, 400, 30], [0, 0, 700], [1000, 600, 2000]])/(w.L*w.V)
def fdf(w): return lambda J, der=False: 1e3*np.exp(-(J*w.L*w.V).sum(1)/200)/(w.M/(w.L*w.V)**3)
DF = {
 'DPL norm': lambda w: agama.DistributionFunction(type='DoublePowerLaw', norm=1e10/w.M, J0=300/(w.L*w.V), Jcutoff=5000/(w.L*w.V), Jphi0=100/(w.L*w.V), Jcore=10/(w.L*w.V), slopeIn=1.2, slopeOut=4.5, coefJrIn=1.2, coefJzIn=.9, rotFrac=.5),
 'DPL mass': lambda w: agama.DistributionFunction(type='DoublePowerLaw', mass=1e10/w.M, J0=300/(w.L*w.V), slopeIn=1.2, slopeOut=5.5),
 'QI': lambda w: agama.DistributionFunction(type='QuasiIsothermal', potential=base(w), Sigma0=5e8/(w.M/w.L**2), Rdisk=3/w.L, Hdisk=.3/w.L, sigmar0=90/w.V, sigmamin=5/w.V, Rsigmar=6/w.L, coefJr=1.1, coefJz=.2, Jmin=20/(w.L*w.V)),
 'QI2': lambda w: agama.DistributionFunction(type='QuasiIsothermal', potential=base(w), mass=5e10/w.M, Rdisk=3/w.L, sigmaz0=50/w.V, sigmar0=90/w.V, Rsigmaz=7/w.L, Rsigmar=6/w.L),
 'Exp': lambda w: agama.DistributionFunction(type='Exponential', norm=1e10/w.M, Jr0=100/(w.L*w.V), Jz0=20/(w.L*w.V), Jphi0=700/(w.L*w.V), addJden=20/(w.L*w.V), addJvel=30/(w.L*w.V)),
 'Exp mass': lambda w: agama.DistributionFunction(type='Exponential', mass=1e10/w.M, Jr0=100/(w.L*w.V), Jz0=20/(w.L*w.V), Jphi0=700/(w.L*w.V)),
 'QS': lambda w: agama.DistributionFunction(type='QuasiSpherical', potential=sph(w), density=agama.Density(type='Dehnen', mass=1e9/w.M, scaleRadius=1/w.L, gamma=.5), beta0=0),
 'user': fdf,
 'sum': lambda w: agama.DistributionFunction(DF['Exp'](w), fdf(w), DF['QS'](w)),
}
def df_obs(k, w):
    d = DF[k](w); u = w.M/(w.L*w.V)**3
    if k == 'user': d = agama.DistributionFunction(d, DF['Exp mass'](w))
    r = [('df', d(Jm(w)), u)]
    q = nothrow(lambda: d(Jm(w), der=True))
    if q is not None: r += [('df', q[0], u), ('der', q[1], u/(w.L*w.V))]
    if k not in ('user', 'sum'): r += [('total', d.totalMass(), w.M)]
    return r
for k in DF: K['df '+k] = lambda w, k=k: df_obs(k, w)
# actions
XV = lambda w: A([[5.2, 1, .5, 30, 150, 20], [8, -2, .3, -20, 200, 30], [2, 3, -1, 100, 10, 50], [20, 10, 5, 50, 60, -70]])/A([w.L]*3+[w.V]*3)
def act_obs(af, w):
    J, th, Om = af(XV(w), actions=True, angles=True, frequencies=True)
    return [('J', J, w.L*w.V), ('ang', np.exp(1j*th), 1), ('Om', Om, 1/w.T), ('J2', af(XV(w)), w.L*w.V)]
for k, f in dict(base=base, sph=sph, iso=lambda w: agama.Potential(**P['Isochrone'](w)), pe=lambda w: agama.Potential(**P['PerfEll'](w))).items():
    for i in (False, True) if k != 'iso' else (False,): K['actions %s interp=%s' % (k, i)] = lambda w, f=f, i=i: act_obs(agama.ActionFinder(f(w), interp=i), w)
K['actions fd'] = lambda w: [('J', agama.actions(base(w), XV(w), fd=2/w.L), w.L*w.V), ('J0', agama.actions(base(w), XV(w)), w.L*w.V)] + [(n, f(x), u) for n, x, u, f in zip(('J1', 'ang', 'Om'), agama.actions(base(w), XV(w), fd=2/w.L, angles=True, frequencies=True), (w.L*w.V, 1, 1/w.T), (lambda x: x, lambda x: np.exp(1j*x), lambda x: x))]
def mapper(f):
    def g(w):
        m = agama.ActionMapper(f(w)); xv, Om = m(np.hstack([Jm(w)[:2], [[.1, .2, .3], [1, 2, 3]]]), frequencies=True)
        return [('pos', xv[:, :3], w.L), ('vel', xv[:, 3:], w.V), ('Om', Om, 1/w.T)]
    return g
K['mapper sph'] = mapper(sph); K['mapper iso'] = mapper(lambda w: agama.Potential(**P['Isochrone'](w))); K['mapper axi'] = mapper(base)
K['selection'] = lambda w: [('sf', agama.SelectionFunction(point=A([8, 1, .5])/w.L, radius=3/w.L, steepness=2)(XV(w)), 1), ('sf', agama.SelectionFunction(point=A([8, 1, .5])/w.L, radius=3/w.L)(XV(w)), 1)]
def gm_obs(pf, df, sf=None, x=A([3, .5, .2]), rt=0):
    def g(w):
        gm = agama.GalaxyModel(pf(w), df(w), **(dict(sf=sf(w)) if sf else {})); r = []
        pt = x/w.L
        if rt: d, v, v2 = gm.moments(pt, dens=True, vel=True, vel2=True, beta=.4); return [('mdens', d, w.M/w.L**3), ('mvel', v, w.V, 1e-4*30), ('mvel2', v2, w.V**2, 2.), ('pdf', gm.projectedDF(np.concatenate([pt[:2], A([10, 200, -15])/w.V, [0, 0, 0]]), beta=.4), w.M/w.L**2/w.V**3)]
        for p, n in ((pt, 3), (pt[:2], 2)):
            d, v, v2 = gm.moments(p, dens=True, vel=True, vel2=True, beta=.4); r += [('mdens', d, w.M/w.L**n), ('mvel', v, w.V, 1e-4*30), ('mvel2', v2, w.V**2, 2.)]
        q = gm.vdf(pt, gridv=7, dens=True); r += [('vdf dens', q[3], w.M/w.L**3)] + [('vdf %d' % i, q[i](A([-40, 0, 55])/w.V), 1/w.V) for i in range(3)]
        q = gm.vdf(pt[:2], gridv=A([-100, -30, 0, 30, 100])/w.V, dens=True); r += [('pvdf dens', q[3], w.M/w.L**2)] + [('pvdf %d' % i, q[i](A([-40, 0, 55])/w.V), 1/w.V) for i in range(3)]
        for j, e in enumerate(((0, 0, 0), (10, 10, 0), (np.inf, np.inf, 0), (np.inf, np.inf, 20), (np.inf,)*3)):
            pts = np.concatenate([pt[:2], A([10, 20, -15])/w.V, A(e)/w.V]); nv = sum(np.isfinite(e)); r.append(('pdf %d' % j, gm.projectedDF(pts, beta=.4), w.M/w.L**2/w.V**nv))
        agama.setRandomSeed(3); X, m = gm.sample(10); r += [('sample mass', m, w.M)] + ([] if rt else [('sample x', X[:, :3], w.L), ('sample v', X[:, 3:], w.V)])
        r.append(('total', gm.totalMass(), w.M))
        return r
    return g
K['galaxy QS'] = gm_obs(sph, DF['QS']); K['galaxy Exp'] = gm_obs(base, DF['Exp mass'], rt=1); K['galaxy sf'] = gm_obs(sph, DF['QS'], lambda w: agama.SelectionFunction(point=A([2, 1, .5])/w.L, radius=3/w.L, steepness=2))
K['galaxy user sf'] = gm_obs(sph, DF['QS'], lambda w: (lambda xv: np.exp(-((xv[:, :3]*w.L)**2).sum(1)/9-((xv[:, 3:]*w.V)**2).sum(1)/1e4)))
# orbits
def orb(pf, xv, **kw):
    def g(w):
        k = {q: v(w) for q, v in kw.items()}; p = pf(w)
        o = agama.orbit(potential=p, ic=xv(w), trajsize=11, dtype=float, der=True, lyapunov=True, **k)
        r = []; U = A([w.L]*3+[w.V]*3)
        (t, x), dv, ly = o; dv = [q for q in dv]
        r += [('t', t, w.T), ('x', x[:, :3], w.L), ('v', x[:, 3:], w.V)]
        for i in range(6):
            d = dv[i]; u = U[i]   # derivative of the orbit w.r.t. the i-th initial coordinate
            r += [('dx%d' % i, d[:, :3], w.L/u), ('dv%d' % i, d[:, 3:], w.V/u)]
        r.append(('lyap', ly, 1 if 1 else 1/w.T))
        q = agama.orbit(potential=p, ic=xv(w), dtype=object, **k); tt = A([.1, .5, .9])*k['time']+k.get('timestart', 0)
        r += [('ox', q(tt)[:, :3], w.L), ('ov', q(tt)[:, 3:], w.V), ('o.x', q.x(tt), w.L), ('o.vx', q.vx(tt), w.V) if hasattr(q, 'vx') else ('o.t', A(list(q))[-1], w.T)]
        r.append(('otime', A(list(q))[[0, -1]], w.T))
        return r
    return g
x1 = lambda w: XV(w)[0]
K['orbit base'] = orb(base, x1, time=lambda w: .2/w.T); K['orbit rotating'] = orb(base, x1, time=lambda w: .2/w.T, Omega=lambda w: 25*w.T); K['orbit timestart'] = orb(lambda w: agama.Potential(dict(P['rotation(t)'](w), mass=5e10/w.M)), x1, time=lambda w: .02/w.T, timestart=lambda w: .004/w.T)
K['orbit hermite'] = orb(base, x1, time=lambda w: .1/w.T, method=lambda w: 'hermite', accuracy=lambda w: 1e-8); K['orbit back'] = orb(lambda w: pots('evolving', w), lambda w: XV(w)[0]*A([1]*3+[.2]*3), time=lambda w: -.02/w.T, timestart=lambda w: .02/w.T)
del K['orbit hermite']   # deviation vectors are not available
def orbtarg(tf, unit, dunit):
    def g(w):
        t = tf(w); r = []; agama.setRandomSeed(9)
        o = agama.orbit(potential=base(w), ic=XV(w)[:2], time=.3/w.T, targets=[t], verbose=False) if 0 else agama.orbit(potential=base(w), ic=XV(w)[:2], time=.3/w.T, targets=t, verbose=False)
        r.append(('orbit', A(o), unit(w), 1e-3 if 'TopHat' in str(t) else 0))
        if dunit: r.append(('density', t(base(w)[0]), dunit(w)))
        return r
    return g
one = lambda w: 1.
TG = {'DensityClassicTopHat': dict(gridr=(1, 3, 9, 30)), 'DensityClassicLinear': dict(gridr=(1, 3, 9, 30), axisRatioZ=.8), 'DensitySphHarm': dict(gridr=(1, 3, 9, 30), lmax=2), 'DensityCylindricalTopHat': dict(gridr=(1, 3, 9, 30), gridz=(0, .3, 1, 9)), 'DensityCylindricalLinear': dict(gridr=(1, 3, 9, 30), gridz=(0, .3, 1, 9), mmax=2)}
for k, v in TG.items(): K['target '+k] = orbtarg(lambda w, k=k, v=v: agama.Target(type=k, **{q: (A(x)/w.L if q[:4] == 'grid' else x) for q, x in v.items()}), one, lambda w: w.M)
K['target KinemShell'] = orbtarg(lambda w: agama.Target(type='KinemShell', degree=1, gridr=A([.5, 2, 5, 10, 30])/w.L), lambda w: w.V**2, None)
def losvd(N):   # other kinds of symmetry rotate the orbit by random angles
    return lambda w: agama.Target(type='LOSVD', degree=N, alpha=.5, beta=1., gridx=np.linspace(-10, 10, 6)/w.L, gridy=np.linspace(-9, 9, 5)/w.L, gridv=np.linspace(-400, 400, 7)/w.V, psf=A([[.5, .4], [1.5, .6]])/A([w.L, 1]), velpsf=30/w.V, apertures=[A([[-9, -8], [9, -8], [9, 8], [-9, 8]])/w.L, A([[0, 0], [4, 0], [2, 5]])/w.L], symmetry='n')
for N in (0, 1, 2, 3): K['target LOSVD %d' % N] = orbtarg(losvd(N), lambda w, N=N: 1/w.V, lambda w: w.M)
# target applied to models
def targ_df(tf, unit):
    def g(w):
        gm = agama.GalaxyModel(sph(w), DF['QS'](w)); t = tf(w); return [('df', t(gm), unit(w))]
    return g
K['target df'] = targ_df(lambda w: agama.Target(type='DensitySphHarm', gridr=A([.5, 2, 6])/w.L, lmax=0), lambda w: w.M)
K['target df aniso'] = lambda w: [('df', agama.Target(type='DensitySphHarm', gridr=A([.5, 2, 6])/w.L, lmax=0)(agama.GalaxyModel(sph(w), agama.DistributionFunction(type='QuasiSpherical', potential=sph(w), density=agama.Density(type='Dehnen', mass=1e9/w.M, scaleRadius=1/w.L, gamma=.5), beta0=.2, r_a=5/w.L))), w.M)]
def targ_sf(w):
    sf = agama.SelectionFunction(point=A([2, 1, .5])/w.L, radius=3/w.L, steepness=2); m = agama.GalaxyModel(sph(w), DF['QS'](w), sf=sf); m0 = agama.GalaxyModel(sph(w), DF['QS'](w)); t = agama.Target(type='DensitySphHarm', gridr=A([.5, 2, 6])/w.L, lmax=0)
    a, b = t(m), t(m0); check(bool((a < .95*b).all() and (a > 0).all()), 'selection function is ignored by Target'); return [('df', a, w.M)]
K['target df sf'] = targ_sf
K['mass of a large disk'] = lambda w: [('totalMass', agama.Potential(**P['Disk'](w)).totalMass(), w.M)]
K['df QS aniso'] = lambda w: [('df', agama.DistributionFunction(type='QuasiSpherical', potential=sph(w), density=agama.Density(type='Dehnen', mass=1e9/w.M, scaleRadius=1/w.L, gamma=.5), beta0=.2, r_a=5/w.L)(Jm(w)), w.M/(w.L*w.V)**3)]
K['target df shell'] = targ_df(lambda w: agama.Target(type='KinemShell', degree=1, gridr=A([.5, 2, 6])/w.L), lambda w: w.M*w.V**2)
# self-consistent models
def scm(w):
    c1 = agama.Component(df=DF['DPL mass'](w), disklike=False, rminSph=.1/w.L, rmaxSph=100/w.L, sizeRadialSph=6, lmaxAngularSph=0)
    c2 = agama.Component(density=DEN['Disk'](w) if 0 else agama.Density(type='Disk', mass=1e10/w.M, scaleRadius=2/w.L, scaleHeight=.3/w.L), disklike=True)
    c3 = agama.Component(potential=agama.Potential(**P['Plummer'](w)))
    m = agama.SelfConsistentModel(components=[c1, c2, c3], potential=sph(w), rminSph=.1/w.L, rmaxSph=100/w.L, sizeRadialSph=10, lmaxAngularSph=0, RminCyl=.2/w.L, RmaxCyl=40/w.L, zminCyl=.05/w.L, zmaxCyl=20/w.L, sizeRadialCyl=8, sizeVerticalCyl=8, verbose=False); m.iterate()
    return [('pot', m.potential.potential(xyz/w.L), w.V**2), ('dens', c1.density.density(xyz/w.L), w.M/w.L**3), ('rho', m.potential.density(xyz/w.L), w.M/w.L**3)]
K['scm'] = scm
def scmd(w):
    c1 = agama.Component(df=DF['Exp mass'](w), disklike=True, RminCyl=.5/w.L, RmaxCyl=20/w.L, zminCyl=.2/w.L, zmaxCyl=5/w.L, sizeRadialCyl=3, sizeVerticalCyl=2)
    m = agama.SelfConsistentModel(components=[c1, agama.Component(potential=base(w))], potential=base(w), RminCyl=.5/w.L, RmaxCyl=20/w.L, zminCyl=.2/w.L, zmaxCyl=5/w.L, sizeRadialCyl=6, sizeVerticalCyl=6, verbose=False); m.iterate()
    return [('pot', m.potential.potential(xyz/w.L), w.V**2), ('dens', c1.density.density(xyz/w.L), w.M/w.L**3)]
K['scm disk'] = scmd
def particles_io(w):
    x, m = particles(w); xv = np.hstack([x, x[::-1]*w.L*50/w.V]); agama.writeSnapshot('s.txt', (xv, m), 't'); a, b = agama.readSnapshot('s.txt')
    return [('x', a[:, :3], w.L), ('v', a[:, 3:], w.V), ('m', b, w.M)]
K['snapshot'] = particles_io
K['G'] = lambda w: [('G', float(agama.G) if w.s else 1., w.V**2*w.L/w.M)]
K['getUnits'] = lambda w: [('u', A([agama.getUnits().get(q, 0) for q in ('length', 'velocity', 'time', 'mass')]) if w.s else A([w.L, w.V, w.T/kmsMyr, w.M])) + (1.,)] if 0 else [('u', A([agama.getUnits()[q]/x for q, x in (('length', w.L), ('velocity', w.V), ('time', w.T/kmsMyr), ('mass', w.M))]) if w.s else np.ones(4), 1.)]
# custom functions called back with user units
class PyPot:
    pass
def userpot(w):
    f = lambda x: -1e4*(1+(((x*w.L)**2)*A([1, 1.2, 1.5])).sum(1))**-.5/w.V**2
    o = agama.orbit(potential=base(w), ic=XV(w)[0], time=.1/w.T, trajsize=6, dtype=float)
    d = agama.Potential(type='CylSpline', potential=f, symmetry='t', rmin=.1/w.L, rmax=20/w.L, zmin=.1/w.L, zmax=20/w.L, gridSizeR=12, gridSizez=12, mmax=4)
    g = agama.GalaxyModel(sph(w), agama.DistributionFunction(fdf(w), DF['Exp mass'](w)))
    a = [('t', o[0], w.T), ('x', o[1][:, :3], w.L), ('pot', d.potential(xyz/w.L), w.V**2)] + [('mdens', g.moments(A([1, .5, .2])/w.L, dens=True, vel=False, vel2=False), w.M/w.L**3)]
    return a
K['user functions'] = userpot
exact = {}
def tol(k, group, n):
    if group == 'scale':   # grids chosen automatically and integration errors follow the scaling only up to the accuracy of these
        return .3 if n == 'sample mass' else .1 if k == 'sample density' or k == 'potential CylSpline0' and n in ('acc', 'der', 'force', 'forceDeriv', 'dens') else .02 if 'ex cyl' in k or 'CylSpl' in k else 3e-3
    if k == 'orbit back' and n[0] == 'd': return .01
    if k == 'target LOSVD 3': return 1e-3
    return 1e-4 if n[:4] in ('proj', 'encl', 'mvel', 'pvdf') or n[:1] == 'd' and n[1:2] in 'xv' or n in ('lyap', 'total', 'totalMass') else 1e-5
ref = {}
SLOW = ('galaxy Exp', 'galaxy QS', 'galaxy user sf', 'galaxy sf', 'scm disk', 'scm', 'mapper axi', 'potential Dehnen', 'potential user density cyl', 'potential rotation(t)', 'potential rotation(t) vel')
if os.environ.get('U01TIME'):
    import time
    for k in K:
        t=time.time(); worlds[0].enter()
        try: K[k](worlds[0])
        except Exception as e: print(k, e)
        print('%.2f %s' % (time.time()-t, k))
    sys.exit()
def run(k, w):
    w.enter()
    try: return [(x[0], np.asarray(x[1])*x[2], x[3] if len(x) > 3 else 0) for x in K[k](w)]
    finally: agama.setUnits()
def same(a, b, rt, at=0):
    if a.shape != b.shape: return False
    if a.size == 0: return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any(): return False
    if not fa.any(): return True
    # relative to the norm of each row, so that components vanishing by symmetry do not count
    ar, br = (a.reshape(len(a), -1), b.reshape(len(b), -1)) if a.ndim > 1 else (a.reshape(-1, 1), b.reshape(-1, 1)) if a.ndim else (a.reshape(1, 1), b.reshape(1, 1))
    ar, br = np.where(np.isfinite(ar), ar, 0), np.where(np.isfinite(br), br, 0)
    nrm = np.sqrt((abs(br)**2).sum(1)); floor = 1e-2*nrm.max()   # the smallest of the values may be limited by roundoff
    return bool((np.sqrt((abs(ar-br)**2).sum(1)) <= at + rt*np.maximum(nrm, floor)).all())
for k in sorted(K):
    for group, ws in (('units', worlds), ('scale', triv)):
        if not begin('%s %s' % (group, k)): continue
        try: r0 = run(k, ws[0])
        except Exception as e: fail('cannot be computed: %r' % e); continue
        for w in ws[1:]if k not in SLOW or S.thorough else ws[3::4]:
            S.transitions += 1
            try: r = run(k, w)
            except Exception as e: fail('%s: %r' % (w.name, e)); continue
            check(len(r) == len(r0), '%s: %d results instead of %d (%s)' % (w.name, len(r), len(r0), set(x[0] for x in r0) ^ set(x[0] for x in r)))
            for (n, a, at), (m, b, at) in zip(r, r0):
                if group == 'scale' and n in ('sample x', 'sample v', 'pos', 'vel') and k not in ('mapper iso', 'mapper sph', 'mapper axi', 'snapshot'): # different random numbers
                    a, b = np.median((a**2).sum(1))**.5, np.median((b**2).sum(1))**.5
                    if not .2 < a/b < 5: fail('%s: %s has median radius %g instead of %g' % (w.name, n, a, b)); break
                elif not same(a, b, tol(k, group, n), at): fail('%s: %s = %s instead of %s' % (w.name, n, str(a).replace('\n', ' ')[:150], str(b).replace('\n', ' ')[:150])); break
                S.nchecks += 1
            state(w.name)
        outcome('%s %s' % (group, k))
finish()
