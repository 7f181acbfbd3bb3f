# C03: array evaluation in Python equals point-by-point evaluation.
# Enumerates every vectorised method x model x optional outputs x number of points (around every chunk size of the batch loops)
# x number of threads x memory layout / dtype / container of the input x scalar or per-point auxiliary arguments.
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, itertools, warnings
warnings.simplefilter('ignore')
import agama
init()
os.chdir(S.scratch)
def tup(r):
    if isinstance(r, (tuple, list)): return tuple(x for e in r for x in tup(e))
    if isinstance(r, np.ndarray) and r.dtype == object: return tuple(x for e in r for x in tup(e))
    return (r,)
def same(a, b, tol):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape == (1,) + b.shape: a = a[0]   # an array of one number gives an array of one element
    if a.shape != b.shape: return False
    if tol == 0: return np.array_equal(a, b, equal_nan=True)
    if a.shape == () and not abs(a) < 1e100 and not abs(b) < 1e100: return True   # unbound energies
    return np.allclose(a, b, rtol=tol, atol=tol * 1e-3, equal_nan=True)
def layouts(a):
    yield 'C', np.ascontiguousarray(a)
    yield 'F', np.asfortranarray(a)
    if a.ndim == 2: yield 'strided', np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
    else: yield 'strided', np.repeat(a, 3)[::3]
    yield 'neg', a[::-1].copy()[::-1]
    yield 'be', a.astype('>f8')
    yield 'list', a.tolist()
    yield 'tuple', tuple(tuple(r) for r in a) if a.ndim == 2 else None
    yield 'rows', [r for r in a] if a.ndim == 2 else None
    yield 'unaligned', unalign(a)
    yield 'matrixrow', a.view(Sub)
class Sub(np.ndarray): pass
def unalign(a):
    b = bytearray(a.nbytes + 1); c = np.frombuffer(b, dtype='u1')[1:].view('f8').reshape(a.shape); c[...] = a; return c
# ---- models
def fdens(x): return 1 / (1 + np.sum(np.asarray(x) ** 2 * [1, 1.2, 2], axis=1)) ** 2.5
def fpot(x): return -1 / np.sqrt(1 + np.sum(np.asarray(x) ** 2, axis=1))
def fdf(J): return np.exp(-J[:, 0] - J[:, 1] - abs(J[:, 2])) * (1 + 0.1 * np.tanh(J[:, 2]))
np.savetxt('acc.txt', [[0, .1, .2, -.3], [1, .3, -.2, .1], [2, -.2, .4, .5]])
np.savetxt('rot.txt', [[0, .2], [1, .9], [2, 1.3], [3, 2.9]])
UNI = int(S.only.split(':')[0][1:]) if S.only and S.only[0] == 'u' else None
def build(u):
    if u == 0: agama.setUnits()
    else: agama.setUnits(mass=2.5e3, length=3, velocity=30)
    m = {}
    P = agama.Potential
    m['pots'] = dict(plum=P(type='Plummer', mass=2, scaleradius=.7), mn=P(type='MiyamotoNagai', scaleradius=1, scaleheight=.3), log=P(type='Logarithmic', p=.8, q=.6, scaleradius=.4),
        dehnen=P(type='Dehnen', gamma=1, axisratioy=.8, axisratioz=.6), mul=P(type='Multipole', density='Spheroid', gamma=1, beta=4, p=.8, q=.6, lmax=4, gridsizer=12, rmin=.05, rmax=30),
        cyl=P(type='CylSpline', density='Disk', scaleradius=1, scaleheight=.2, gridsizer=10, gridsizez=10, rmin=.1, rmax=15, zmin=.05, zmax=10),
        bse=P(type='BasisSet', density='Plummer', nmax=4, lmax=0), comp=P(P(type='Plummer'), P(type='MiyamotoNagai', scaleradius=1, scaleheight=.3, center='0.1,0.2,0.3'), P(type='Harmonic', Omega=.1)),
        rot=P(type='Logarithmic', p=.9, q=.7, scaleradius=.5, rotation='rot.txt', center='0.2,0,0.1'), acc=P(type='UniformAcceleration', file='acc.txt'), kb=P(type='KeplerBinary', mass=1, binary_q=.5, binary_sma=1, binary_ecc=.3),
        user=P(potential=fpot, symmetry='s'))
    D = agama.Density
    m['dens'] = dict(sph=D(type='Spheroid', gamma=1, beta=4, p=.8, q=.7), disk=D(type='Disk', scaleradius=1, scaleheight=.2), dsh=D(type='DensitySphericalHarmonic', density=D(type='Dehnen', gamma=1, p=.8, q=.6), lmax=4, gridsizer=10, rmin=.05, rmax=20),
        dah=D(type='DensityAzimuthalHarmonic', density=D(type='MiyamotoNagai', scaleheight=.3), mmax=0, gridsizer=8, gridsizez=8, rmin=.1, rmax=20, zmin=.1, zmax=20), user=D(fdens, symmetry='t'), comp=D(D(type='Plummer'), D(type='Disk', scaleradius=1, scaleheight=.2, center='0.1,0.2,0.3')),
        shift=D(type='Plummer', center='[[0,0,0,0],[1,1,0,0],[2,1,1,0]]'))
    return m
X3 = np.array([[.3, -.2, .1], [1, 0, 0], [0, 0, 1], [-2, 3, 5], [10, -20, 30], [0, 1, -2], [.01, .02, -.03], [1, 1, 1], [-4, 0, 3], [100, 0, 0], [0, 0, 0], [np.nan, 1, 2], [1e10, 0, 1]])
X2 = np.array([[.3, -.2], [1, 0], [0, .5], [-2, 3], [5, -4], [.1, .1], [0, 0]])
X1 = np.array([.1, .5, 1, 2, 5, 20, .01, 0, -1, 100, np.inf, np.nan])
XV = np.array([[1, 0, .1, 0, .5, .2], [.5, .3, -.2, .1, .4, .1], [2, -1, .5, .1, .2, -.2], [0, 1, 0, -.3, 0, .1], [.3, .2, .1, -.2, .1, .3], [1, 0, 0, 0, .6, 0], [1, 0, 0, .3, 0, 0], [1, 1, 1, 0, 0, 0], [0, 0, 1, 0, 0, .2], [3, 4, 0, 5, 5, 5], [1, 2, 3, np.nan, 0, 0]])
TT = np.array([0, .3, .9, 1.7, -.5, 2.5, 1.])
NS = [0, 1, 2, 3, 5, 63, 64, 65, 66, 129, 255, 256, 257, 1023, 1024, 1025, 2050]
NSQ = [0, 1, 2, 3, 64, 65, 130, 256, 1024, 1025, 2050]
def jobs(u, m):
    """name, function(points, **kw), pool of points, list of kw dicts (lists of scalars for per-point arguments), max N, tolerance(N)"""
    P, D = m['pots'], m['dens']; ex = lambda N: 0
    conv = lambda N: 1e-12   # summation order
    near = lambda N: 0 if N < 256 else 3e-6
    for k, p in P.items():
        tk = [{}, dict(t=.9), dict(t=TT)]
        yield 'pot.%s.potential' % k, p.potential, X3, tk, 2050, ex
        yield 'pot.%s.force' % k, p.force, X3, tk, 2050, ex
        yield 'pot.%s.density' % k, p.density, X3, tk, 2050, ex
        if k != 'user': yield 'pot.%s.forceDeriv' % k, p.forceDeriv, X3, tk, 1025, ex
        for s in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)):
            kw = dict(pot=bool(s[0]), acc=bool(s[1]), der=bool(s[2]))
            yield 'pot.%s.eval%d%d%d' % ((k,) + s), p.eval, X3, [dict(kw), dict(kw, t=TT)], 1025, ex
            if k in (('plum', 'log', 'mul', 'mn') if S.thorough else ('plum', 'mul')) and (S.thorough or sum(s) != 2): yield 'pot.%s.projeval%d%d%d' % ((k,) + s), p.projectedEval, X2, [dict(kw), dict(kw, alpha=TT, beta=.4, gamma=1.1, t=.2), dict(kw, beta=TT)], 66, ex
        if k in ('plum', 'mn', 'mul', 'cyl', 'comp', 'bse', 'log', 'dehnen'):
            big = 257 if k in ('log', 'dehnen') else 1025; E = np.array([p.potential([r, 0, 0]) for r in (.2, .7, 1.5, 4, 11)] + [np.nan, -np.inf]); L = np.array([.05, .3, 1, 3, 0, -1, np.nan])
            yield 'pot.%s.RcircL' % k, lambda x, p=p: p.Rcirc(L=x), L, [{}], big, near
            yield 'pot.%s.RcircE' % k, lambda x, p=p: p.Rcirc(E=x), E, [{}], big, near
            yield 'pot.%s.Tcirc' % k, p.Tcirc, E, [{}], big, near
            yield 'pot.%s.TcircXV' % k, p.Tcirc, XV, [{}], 257, near
            yield 'pot.%s.Rmax' % k, p.Rmax, E, [{}], big, near
            yield 'pot.%s.Rperiapo' % k, p.Rperiapo, np.array([[e, l] for e in E for l in (0, .1, .5)]), [{}], 130, ex
            yield 'pot.%s.RperiapoXV' % k, p.Rperiapo, XV, [{}], 130, ex
    for k, d in list(D.items()) + [('pot' + k, P[k]) for k in ('plum', 'mn', 'mul')]:
        yield 'dens.%s.density' % k, d.density, X3, [{}, dict(t=.9), dict(t=TT)], 2050, ex
        yield 'dens.%s.projected' % k, d.projectedDensity, X2, [{}, dict(alpha=.3, beta=TT, gamma=.2), dict(alpha=TT, beta=TT, gamma=TT, t=TT)], 130, ex
        yield 'dens.%s.enclosedMass' % k, d.enclosedMass, X1[:8], [{}], 5, ex
        yield 'dens.%s.principalAxes' % k, d.principalAxes, X1[:6], [{}], 5, ex
    # actions
    for k in ('plum', 'mn', 'comp0', 'log0', 'harm'):
        p = P[k] if k in P else agama.Potential(type='Isochrone') if k == 'comp0' else agama.Potential(type='Logarithmic', q=.8) if k == 'log0' else agama.Potential(type='Harmonic', Omega=1, p=.8, q=.7)
        try: afs = [('af', agama.ActionFinder(p))] + ([('afi', agama.ActionFinder(p, interp=True))] if k != 'harm' else [])
        except Exception: continue
        for nm, af in afs:
            for s in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)):
                yield '%s.%s%d%d%d' % ((nm, k) + s), af, XV[:-1] if k == 'plum' else XV, [dict(actions=bool(s[0]), angles=bool(s[1]), frequencies=bool(s[2]))], 130, ex
        if k != 'harm': yield 'actions.%s' % k, lambda x, p=p, **kw: agama.actions(p, x, **kw), XV[:-1] if k == 'plum' else XV, [dict(fd=.5), dict(fd=.5, angles=True), dict(fd=0., frequencies=True) if k in ('plum', 'comp0') else dict(fd=.2, frequencies=True)], 130, ex
    AA = np.array([[.1, .2, .3, 1, 2, 3], [.5, .1, 1, 0, 0, 0], [.05, .3, -.7, 4, 5, 6], [.2, .2, .5, 1, 1, 1], [.1, 0, 1, 2, 2, 2], [-1, 0, 1, 0, 0, 0], [.3, .4, .9, 6, .1, 3]])
    yield 'am.sph', agama.ActionMapper(P['plum']), AA, [{}, dict(frequencies=True)], 130, ex
    yield 'am.torus', agama.ActionMapper(P['mn']), AA, [{}, dict(frequencies=True)], 66, ex
    # distribution and selection functions
    JJ = np.array([[.1, .2, .3], [1, 0, 0], [0, 1, -1], [0, 0, 0], [5, 5, -5], [.01, .02, .5], [.3, .3, 2], [1e5, 1, 1], [np.nan, 0, 0]])
    df1 = agama.DistributionFunction(type='DoublePowerLaw', norm=1, slopein=1, slopeout=4, j0=1, rotfrac=.3); df2 = agama.DistributionFunction(type='QuasiSpherical', potential=P['plum']); df3 = agama.DistributionFunction(fdf)
    df4 = agama.DistributionFunction(type='Exponential', mass=1, Jr0=.1, Jz0=.1, Jphi0=1); df5 = agama.DistributionFunction(type='QuasiIsothermal', Sigma0=1, Rdisk=1, Hdisk=.2, Rsigmar=2, sigmar0=.3, potential=P['mn'])
    dfc = agama.DistributionFunction(df1, df4, df5)
    for nm, d in (('dpl', df1), ('qs', df2), ('user', df3), ('exp', df4), ('qi', df5), ('comp', dfc)):
        yield 'df.' + nm, d, JJ, [{}] + ([dict(der=True)] if nm != 'user' else []), 2050, ex
    sf = agama.SelectionFunction([.2, 0, .1], 1.5, 3); yield 'sf', sf, XV, [{}], 2050, ex
    yield 'sf0', agama.SelectionFunction([1, 0, 0], 1.), XV, [{}], 1025, ex
    # galaxy model (expensive)
    dfc2 = agama.DistributionFunction(df2, df2); gm = agama.GalaxyModel(P['plum'], dfc2, sf_obj=sf) if False else agama.GalaxyModel(P['plum'], dfc2)
    for s in ((1, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 1)):
        for sep in (False, True):
            if sep and u and not S.thorough: continue
            yield 'gm.moments%d%d%d' % s + str(sep), gm.moments, X3[:3], [dict(dens=bool(s[0]), vel=bool(s[1]), vel2=bool(s[2]), separate=sep)], 3, ex
    yield 'gm.projmoments', gm.moments, X2[:3], [dict(dens=True, vel=False, vel2=False), dict(dens=True, vel=False, vel2=False, alpha=TT[:3], beta=TT[:3], gamma=.3, separate=True)], 3, ex
    yield 'gm.projdf', gm.projectedDF, np.array([[.3, .2, 0, 0, .1, np.inf, np.inf, .2], [.3, .2, .1, 0, .1, np.inf, np.inf, np.inf]]), [{}, dict(separate=True, beta=TT[:2])], 3, ex
    yield 'gm.vdf', lambda x, **kw: vdfvals(gm.vdf(x, gridv=np.linspace(-1, 1, 5), **kw), np.asarray(x).ndim), X3[:3], [dict(dens=True)] if u or not S.thorough else [{}, dict(dens=True)], 3 if S.thorough else 2, ex
    # splines and orbits
    xs = np.array([0, .5, 1, 2, 3.5]); ys = np.sin(xs); XS = np.array([.1, .7, 1.9, 0, 3.5, -1, 5, 2, np.nan, .5])
    for nm, sp in (('cub', agama.Spline(xs, ys)), ('nat', agama.Spline(xs, ys, der=np.cos(xs))), ('q', agama.Spline(xs, ys, der1=np.cos(xs), der2=-np.sin(xs)) if False else agama.Spline(xs, ys, reg=True)), ('b1', agama.Spline(xs, ampl=np.ones(7))), ('b0', agama.Spline(xs, ampl=np.ones(4))), ('b2', agama.Spline(xs, ampl=np.arange(6.)))):
        yield 'spl.' + nm, sp, XS, [{}, dict(der=1), dict(der=2), dict(der=3), dict(ext=7.5), dict(der=1, ext=0.)], 70, ex
        if nm[0] == 'b': yield 'splconv.' + nm, sp, XS[:8], [dict(conv=.3), dict(conv=1.), dict(conv=agama.Spline(xs, ampl=np.ones(7))), dict(conv=np.array([.3, .1, 0, .4, .5, 1, .2])), dict(conv=0.)], 70, conv
    o = agama.orbit(potential=P['comp'], ic=XV[0], time=5, dtype=object, verbose=False); ro = agama.orbit(potential=P['log'], ic=XV[0], time=-5, Omega=.4, dtype=object, verbose=False)
    yield 'orbitobj', o, np.array([0, 1, 2.5, 5, -1, 6, 3.3]), [{}], 70, ex
    yield 'orbitobj.r', ro, np.array([0, -1, -2.5, -5, -6, 1, -3.3]), [{}], 70, ex
    for k in ('plum', 'log', 'rot', 'comp'):
        if u and k not in ('rot', 'comp') and not S.thorough: continue
        for kw in (dict(trajsize=5), dict(trajsize=0, dtype=float), dict(trajsize=3, der=True, dtype=float), dict(trajsize=2, lyapunov=True), dict(lyapunov=True), dict(trajsize=4, dtype=complex), dict(trajsize=5, Omega=.3), dict(trajsize=1, timestart=TT[:5]), dict(trajsize=6, timestart=.5, method='hermite', accuracy=1e-4)):
            yield 'orbit.%s.%s' % (k, ','.join(sorted(kw))), lambda x, p=P[k], **q: agama.orbit(potential=p, ic=x, verbose=False, **q), XV[:5], [dict(kw, time=3.), dict(kw, time=np.array([3., 1, .5, 2, -1]))], 12, ex
    G = np.array([[1., .1, .5, 1, 0, 0, .1, -.05], [2, -.3, .7, 1, 0, .1, .02, .03], [.5, 0, 1, 1, .05, 0, 0, 0]])
V4 = (-.9, -.3, .2, .6)
def vdfvals(r, nd):   # splines (one or arrays of them) replaced by their values
    return tuple(np.array([e(v) for v in V4]) if callable(e) else e for q in tup(r) for e in (q if nd == 2 and isinstance(q, np.ndarray) else [q]))
    r = tup(r); return tuple(np.array([s(v) if callable(s) else s for v in (-.9, -.3, .2, .6)]) if nd < 2 else np.array([[q(v) if callable(q) else q for v in (-.9, -.3, .2, .6)] for q in np.atleast_1d(s)]) for s in r) if not any(callable(x) for x in r) or nd < 2 else tuple(np.array([s(v) for v in (-.9, -.3, .2, .6)]) for s in r)
def row(res, i, single):   # i-th row of a result for many points, flattened in the same manner as the result for a single one
    return res[i]
SKIPROW = ('gm.vdf', 'orbit.')
def rows(name, res, n, one):
    """split the result for n points into n tuples of arrays"""
    if name.startswith('gm.vdf'): return [tuple(res[j] for j in range(i, len(res), n)) for i in range(n)]
    if name.startswith('orbit.'):
        out = []
        for i in range(n):
            o = []
            for r in (res if isinstance(res, tuple) else (res,)): o += list(tup(r[i]))
            out.append(tuple(o))
        return out
    res = res if isinstance(res, tuple) else (res,)
    if n == 1 and one: return [single(name, res)]   # an array of one number is treated as a number
    for r in res:
        if len(r) != n: raise Exception('%d rows for %d points' % (len(r), n))
    return [tuple(r[i] for r in res) for i in range(n)]
def single(name, res):
    if name.startswith('orbit.'): return tup(res)
    return res if isinstance(res, tuple) else (res,)
def call(f, x, kw): return f(x, **kw) if kw else f(x)
def pick(kw, i):   # per-point arguments are cyclic lists
    return dict((k, v[i % len(v)] if isinstance(v, np.ndarray) else v) for k, v in kw.items())
def expand(kw, n): return dict((k, v[np.arange(n) % len(v)] if isinstance(v, np.ndarray) else v) for k, v in kw.items())
job = 0
for u in (0, 1):
    m = None; agama.setNumThreads(1)
    if m is None: m = build(u)
    for name, f, pool, kws, nmax, tol in jobs(u, m):
        for ik, kw in enumerate(kws):
            job += 1
            K = len(pool); ref = {}
            cyc = [len(v) for v in kw.values() if isinstance(v, np.ndarray)]; per = np.lcm.reduce(cyc) if cyc else 1
            def getref(i):
                key = (i % K, i % per)
                if key not in ref:
                    agama.setNumThreads(1)
                    try: ref[key] = single(name, call(f, pool[key[0]] if pool.ndim == 2 else float(pool[key[0]]), pick(kw, i)))
                    except Exception as e: ref[key] = e
                return ref[key]
            def compare(res, n, what):
                try: R = rows(name, res, n, pool.ndim == 1)
                except Exception as e: check(False, '%s: %s' % (what, e)); return
                if R is None: return
                for i in range(n):
                    r = getref(i)
                    if isinstance(r, Exception): check(False, '%s: single point %s fails with %s' % (what, pool[i % K], r)); return
                    if len(r) != len(R[i]) or not all(same(a, b, tol(n)) for a, b in zip(R[i], r)):
                        check(False, '%s: row %d for the point %s is %s instead of %s' % (what, i, pool[i % K], R[i], r)); return
                S.nchecks += n
            for n in NS if S.thorough else NSQ:
                if n > nmax: continue
                for nt in ((1, 2, 4) if S.thorough else (1, 4)):
                    if not begin('u%d:%s:%d:N%d:T%d' % (u, name, ik, n, nt), job): continue
                    x = pool[np.arange(n) % K]; xc = x.copy(); x.flags.writeable = False
                    ok = [not isinstance(getref(i), Exception) for i in range(min(n, K * per))]
                    agama.setNumThreads(nt)
                    try: res = call(f, x, expand(kw, n))
                    except Exception as e:
                        if n == 0 and name.startswith('orbit'): outcome('noorbits'); continue
                        if not cyc and n and not all(ok): outcome('both fail'); continue
                        check(False, 'array call fails: %s' % e); continue
                    S.states += n; S.traces += 1; compare(res, n, 'array'); check(np.array_equal(x, xc, equal_nan=True), 'input modified')
                    outcome('%s:%d:%d' % (name, ik, n))
            # layouts, containers, dtypes
            n = min(7, nmax); x = pool[np.arange(n) % K]
            if not begin('u%d:%s:%d:layouts' % (u, name, ik), job): continue
            agama.setNumThreads(2)
            for nm, l in layouts(x):
                if l is None: continue
                before = repr(l)
                try: res = call(f, l, expand(kw, n))
                except Exception as e: check(any(isinstance(getref(i), Exception) for i in range(n)), 'layout %s fails: %s' % (nm, e)); continue
                compare(res, n, 'layout ' + nm); check(repr(l) == before, 'input in layout %s modified' % nm); S.states += 1
            if cyc:   # layouts of per-point arguments
                for nm in ('strided', 'be', 'list', 'neg'):
                    q = expand(kw, n)
                    for k in q:
                        if isinstance(q[k], np.ndarray): q[k] = dict((a, b) for a, b in layouts(q[k]) )[nm]
                    try: res = f(x, **q)
                    except Exception as e: check(False, 'argument layout %s fails: %s' % (nm, e)); continue
                    compare(res, n, 'argument layout ' + nm)
            # float32 and integer input: same as the converted double input
            for dt in (('f4', 'i4', 'i8', 'u1', 'f2') if S.thorough else ('f4', 'i4', 'u1')) if not name.startswith('orbit.') else ('f4', 'f2'):
                y = np.nan_to_num(np.abs(x) if dt == 'u1' else x, nan=1, posinf=9, neginf=3); y = np.clip(y, 1 if 'Axes' in name else -100, 100).astype(dt); z = y.astype(float)
                try: a = call(f, z, expand(kw, n))
                except Exception as e: a = None
                try: b = call(f, y, expand(kw, n))
                except Exception as e:
                    check(a is None, 'dtype %s fails: %s' % (dt, e)); continue
                if a is None: check(False, 'dtype %s works but float does not' % dt); continue
                ta, tb = tup(a), tup(b); check(len(ta) == len(tb) and all(same(p, q, 0) if not callable(p) else True for p, q in zip(ta, tb)), 'dtype %s gives %s instead of %s' % (dt, b, a)); S.states += 1
            # separate numbers instead of an array, shape (1, dim)
            i0 = 0
            r = getref(i0)
            if not isinstance(r, Exception):
                if pool.ndim == 2 and name[:3] in ('pot', 'den', 'df.', 'sf') and '.R' not in name and '.T' not in name:
                    try: q = single(name, f(*[float(v) for v in pool[0]]) if not kw else f(*[float(v) for v in pool[0]], **pick(kw, 0))); check(all(same(a, b, 0) for a, b in zip(q, r)), 'separate arguments: %s instead of %s' % (q, r))
                    except Exception as e: check(False, 'separate arguments fail: %s' % e)
                elif pool.ndim == 1:
                    for sc in (np.float64(pool[0]), np.float32(.5), np.array(pool[0]), np.int64(1), 1):
                        try: q = single(name, call(f, sc, pick(kw, 0))); w = single(name, call(f, float(sc), pick(kw, 0))); check(all(same(a, b, 0) for a, b in zip(q, w)), 'scalar type %s: %s instead of %s' % (type(sc), q, w))
                        except Exception as e: check(isinstance(e, (TypeError, ValueError)) and not isinstance(sc, (int, float)), 'scalar of type %s fails: %s' % (type(sc), e))
            # wrong shapes are rejected
            if pool.ndim == 2 and not name.startswith('orbit.'):
                for bad in (np.zeros((3, 4)), np.zeros((2, 3, 3)), 'abc' if 'Tcirc' in name else np.zeros(5), 'abc', None, np.zeros((2, 9)), [[1, 2, 3], [1, 2]], object()):
                    try: call(f, bad, pick(kw, 0)); check(False, 'bad argument %s accepted' % (bad,))
                    except Exception: S.nchecks += 1
finish()
