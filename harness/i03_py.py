# I03, Python interface: export / reload under all unit systems, and under all byte limits
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, resource, signal
import agama
init()
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
F = S.scratch + '/pot.ini'
UN = [None, dict(mass=1, length=1, velocity=1), dict(mass=2.5e3, length=0.001, velocity=30), dict(mass=1e10, length=8, time=1e3)]
P = np.array([[0.1, 0.2, -0.3], [1, 0, 0.5], [-1, 2, 0.1], [0, 0, 3.], [5, -4, 2], [40, 30, -20]])
POT = [dict(type='Multipole', density='Dehnen', gamma=1, lmax=0, gridsizer=8, rmin=0.02, rmax=50),
       dict(type='Multipole', density='Spheroid', gamma=1, beta=4, p=0.8, q=0.6, lmax=4, gridsizer=8, rmin=0.02, rmax=50),
       dict(type='Multipole', density=lambda: agama.Density(type='Plummer', scaleradius=2, center='0.3,0.2,-0.1'), lmax=2, gridsizer=6, rmin=0.1, rmax=20),
       dict(type='BasisSet', density='Dehnen', gamma=1, p=0.8, q=0.6, lmax=2, nmax=3, eta=1.2),
       dict(type='BasisSet', density='Plummer', lmax=0, nmax=0),
       dict(type='CylSpline', density='MiyamotoNagai', scaleradius=1, scaleheight=0.3, mmax=0, gridsizer=6, gridsizez=6, rmin=0.1, rmax=20, zmin=0.1, zmax=20),
       dict(type='CylSpline', potential=lambda: agama.Potential(type='Ferrers', p=0.8, q=0.5), mmax=2, gridsizer=6, gridsizez=6, rmin=0.1, rmax=20, zmin=0.1, zmax=20)]
DEN = [dict(type='DensitySphericalHarmonic', density=lambda: agama.Density(type='Dehnen', gamma=1, p=0.8, q=0.6), lmax=4, gridsizer=8, rmin=0.02, rmax=50),
       dict(type='DensityAzimuthalHarmonic', density=lambda: agama.Density(type='MiyamotoNagai', scaleradius=1, scaleheight=0.3), mmax=0, gridsizer=6, gridsizez=6, rmin=0.1, rmax=20, zmin=0.1, zmax=20)]
def res(d): return dict((k, v() if callable(v) else v) for k, v in d.items())   # built under the current unit system
def make(k):
    if k < len(POT): return agama.Potential(**res(POT[k])), agama.Potential
    if k == len(POT): return agama.Potential(res(POT[0]), res(POT[5]), res(POT[3])), agama.Potential
    k -= len(POT) + 1
    if k < len(DEN): return agama.Density(**res(DEN[k])), agama.Density
    return agama.Density(agama.Density(**res(DEN[0])), agama.Density(**res(DEN[1]))), agama.Density
NM = len(POT) + 1 + len(DEN) + 1
for u, un in enumerate(UN):
    agama.setUnits(**(un or {})) if un else agama.setUnits()
    for k in range(NM):
        if begin('py:round:%d:%d' % (u, k)):
            a, cls = make(k); a.export(F); b = cls(F); S.traces += 1
            ra, rb = a.density(P), b.density(P); dt = 2e-3 if 'CylSpline' in str(a) else 1e-5   # a density obtained from second derivatives of a spline amplifies the rounding of the text
            check(np.allclose(ra, rb, rtol=dt, atol=0.01 * dt * abs(ra).max()), 'density %s becomes %s' % (ra, rb))
            if cls is agama.Potential:
                pa, pb = a.potential(P), b.potential(P); check(np.allclose(pa, pb, rtol=1e-7), 'potential %s becomes %s' % (pa, pb))
                fa, fb = a.force(P), b.force(P); check(np.allclose(fa, fb, rtol=1e-6, atol=1e-7 * abs(fa).max()), 'force %s becomes %s' % (fa, fb))
            check(str(a) == str(b), 'name %s becomes %s' % (a, b)); outcome('ok %d %d' % (u, k))
            try: a.export(S.scratch + '/nodir/x'); check(False, 'export to a missing directory succeeded')
            except RuntimeError: check(True)
        if u > (3 if S.thorough else 1): continue
        agama.setUnits(**(un or {})) if un else agama.setUnits()
        a = None; full = None
        for blk in range(16):
            if not begin('py:cut:%d:%d:%d' % (u, k, blk)): continue
            if a is None:
                a, cls = make(k); a.export(F); full = open(F).read()
            for n in range(blk, len(full) + 16, 16 if S.thorough else 64 - k):
                with open(F, 'w'): pass
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY)); S.transitions += 1
                try: a.export(F); ok = True
                except Exception as e: ok = False
                finally: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                check(ok == (open(F).read() == full), 'limit of %d bytes out of %d: %s' % (n, len(full), 'reported success' if ok else 'reported failure')); outcome('cut %s' % ok)
finish()
