# C04: settings and object lifetimes over all sequences of Python calls
import sys, os, gc, itertools, ctypes, warnings; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama
init(); warnings.simplefilter('ignore'); os.chdir(S.scratch)
gomp = ctypes.CDLL('libgomp.so.1')
nthr = gomp.omp_get_max_threads
agama.setUnits()
P = np.array([[0.3,0.2,0.1],[-1.1,0.4,0.7],[2.0,-1.5,-0.3]]); XV = np.array([[0.5,0.3,0.2,0.1,0.3,0.05],[1.,0.2,0.1,-0.2,0.5,0.1]]); J = np.array([[0.1,0.2,0.3],[0.5,0.1,-0.4]])
A = lambda x: np.array(x, dtype=float)
def attempt(f):
    try: return f()
    except Exception as e: return e
# ---------------------------------------------------------------- part 1: number of threads
def part_threads():
    D = nthr()
    ctors = [('w', n) for n in (1, 3, 0)] + [('s', 2), ('s', 0), ('x', -1), ('x', 'a'), ('x', None), ('f', 2), ('e', 4)]
    depth = 5 if S.thorough else 3
    # program = tree: 'w' opens a with-block (closed by ')'), 's' a plain call, 'x' a failing call, 'f' a failing call inside a with block, 'e' a block left by an exception, 'c' a computation
    def progs(n, op):
        if n == 0: yield (); return
        for k in range(n+1): pass
        for c in ctors + [('c', 0)]:
            for rest in progs(n-1, op): yield (c,) + rest
        if op > 0:
            for rest in progs(n-1, op): yield ((')', 0),) + rest
    def balanced(p):
        d = 0
        for c in p:
            if c[0] in 'we': d += 1
            elif c[0] == ')':
                d -= 1
                if d < 0: return False
        return True
    pot = agama.Potential(type='Plummer'); ref = None
    class Boom(Exception): pass
    for first in ctors + [('c', 0)]:
        if not begin('threads first=%s%s depth %d' % (first[0], first[1], depth)): continue
        for p in progs(depth-1, depth):
            prog = (first,) + p
            if not balanced(prog): continue
            agama.setNumThreads(0); cur = D; stack = []; ok = True
            for i, (k, v) in enumerate(prog):
                S.transitions += 1
                if k in 'we':
                    o = agama.setNumThreads(v); r = o.__enter__(); stack.append((cur, o, k)); cur = v or D
                    if o.prevNumThreads != stack[-1][0] or o.currNumThreads != cur or r is not o: ok = False; why = 'attributes'
                elif k == 's': agama.setNumThreads(v); cur = v or D
                elif k == 'x':
                    if not isinstance(attempt(lambda: agama.setNumThreads(v) if v is not None else agama.setNumThreads()), Exception): ok = False; why = 'accepted a wrong argument'
                elif k == 'f':
                    try:
                        with agama.setNumThreads(v):
                            if nthr() != v: ok = False; why = 'not set'
                            pot.potential('wrong')
                    except Exception: pass
                elif k == 'c': pot.potential(P)
                elif k == ')':
                    prev, o, kk = stack.pop(); cur = prev
                    r = o.__exit__(Boom, Boom(), None) if kk == 'e' else o.__exit__(None, None, None)
                    if r: ok = False; why = 'exception swallowed'
                if nthr() != cur: ok = False; why = 'number of threads is %d, expected %d' % (nthr(), cur)
                if not ok: fail('step %d of %s: %s' % (i, prog, why)); break
            S.traces += 1
            state(tuple(x[0] for x in stack))
        agama.setNumThreads(0); outcome('threads')
# ---------------------------------------------------------------- part 2: units
def part_units():
    U = [dict(), dict(mass=1, length=1, velocity=1), dict(mass=1e10, length=2, time=3), dict(mass=1, velocity=2, time=0.5)]
    BAD = [dict(mass=1), dict(length=1, velocity=1), dict(mass=-1, length=1, velocity=1), dict(mass=1, length=1, velocity=1, time=1), dict(mass=1, length='a', velocity=1), dict(mass=1, length=1), dict(masss=1), 'positional']
    G = 4.30091727e-6   # kpc (km/s)^2 / Msun
    kmsMyr = 1.0227121650537077e-3   # km/s*Myr in kpc
    def expect(u):
        if not u: return {}
        l, v, t = u.get('length'), u.get('velocity'), u.get('time')
        if l is None: l = v*t*kmsMyr
        if v is None: v = l/t/kmsMyr
        if t is None: t = l/v/kmsMyr
        return dict(length=l, velocity=v, time=t, mass=u['mass'])
    def near(a, b): return set(a) == set(b) and all(abs(a[k]/b[k]-1) < 1e-6 for k in b)
    ops = [('set', i) for i in range(len(U))] + [('bad', i) for i in range(len(BAD))] + [('new', 0), ('del', 0), ('failnew', 0)]
    depth = 4 if S.thorough else 3
    def obs(): return agama.getUnits(), agama.G
    def phys(u):   # potential of a point at 1 kpc from a Plummer sphere of 1e10 Msun with radius 1 kpc, in (km/s)^2
        e = expect(u)
        p = agama.Potential(type='Plummer', mass=1e10/e['mass'], scaleRadius=1/e['length'])
        return p.potential(A([1/e['length'], 0, 0]))*e['velocity']**2, p.Tcirc(-0.5*G*1e10/e['velocity']**2)*e['time'], p.density(A([1/e['length'], 0, 0]))*e['mass']/e['length']**3
    ref = None
    for first in ops:
        if not begin('units %s%s depth %d' % (first[0], first[1], depth)): continue
        for rest in itertools.product(ops, repeat=depth-1):
            agama.setUnits(); cur = {}; objs = []
            for i, (k, v) in enumerate((first,)+rest):
                S.transitions += 1
                if k == 'set': agama.setUnits(**U[v]); cur = U[v]
                elif k == 'bad':
                    r = attempt(lambda: agama.setUnits(1, 2, 3) if BAD[v] == 'positional' else agama.setUnits(**BAD[v]))
                    check(isinstance(r, Exception), 'setUnits(%s) accepted' % (BAD[v],))
                elif k == 'new': objs.append(agama.Potential(type='Plummer'))
                elif k == 'failnew': attempt(lambda: agama.Potential(type='Plumer'))
                elif objs: objs.pop()
                g, GG = obs(); e = expect(cur)
                if not near(g, e): fail('after %s: getUnits()=%s instead of %s' % (((first,)+rest)[:i+1], g, e)); break
                eG = 1 if not cur else G*e['mass']/e['length']/e['velocity']**2
                if abs(GG/eG-1) > 1e-4: fail('after %s: G=%g instead of %g' % (((first,)+rest)[:i+1], GG, eG)); break
            else:
                S.nchecks += 1
            if cur:
                p = phys(cur); want = (-G*1e10/2**0.5, None, 3/(4*np.pi)*1e10*2**-2.5)
                check(abs(p[0]/want[0]-1) < 1e-4 and abs(p[2]/want[2]-1) < 1e-6, 'after %s: potential %g density %g instead of %g %g' % ((first,)+rest, p[0], p[2], want[0], want[2]))
                if ref is None: ref = p
                check(all(abs(a/b-1) < 1e-9 for a, b in zip(p, ref)), 'after %s: %s, other units gave %s' % ((first,)+rest, p, ref))
            S.traces += 1; state(str(cur))
        agama.setUnits(); outcome('units')
# ---------------------------------------------------------------- part 3: random seed
def part_seed():
    with agama.setNumThreads(1):
        pot = agama.Potential(type='Plummer'); dfn = agama.DistributionFunction(type='QuasiSpherical', potential=pot); gm = agama.GalaxyModel(pot, dfn); den = agama.Density(type='Dehnen', q=0.6)
        draws = [lambda: den.sample(7)[0], lambda: gm.sample(3)[0], lambda: agama.sampleNdim(lambda x: 1+x[:,0], 5, [0,0], [1,1])[0], lambda: den.sample(4, potential=pot)[0]]
        noise = [lambda: agama.setRandomSeed(-1), lambda: agama.setRandomSeed('x'), lambda: agama.setRandomSeed(), lambda: agama.setRandomSeed(1, 2), lambda: den.sample('x'), lambda: den.sample(-3), lambda: agama.sampleNdim('x', 5, 2), lambda: pot.potential(P), lambda: gm.moments([1., 0, 0]), lambda: agama.orbit(potential=pot, ic=XV[0], time=2), lambda: agama.Spline([0, 1], [0])]
        ops = [('seed', s) for s in (1, 2, 12345)] + [('draw', i) for i in range(len(draws))] + [('noise', i) for i in range(len(noise))]
        depth = 5 if S.thorough else 4
        memo = {}
        def reference(seed, hist):   # result of the last draw after seeding and drawing exactly hist
            key = (seed, hist)
            if key not in memo:
                agama.setRandomSeed(seed)
                for h in hist: r = draws[h]()
                memo[key] = r.tobytes()
            return memo[key]
        for first in ops:
            if not begin('seed %s%s' % first): continue
            for rest in itertools.product(ops, repeat=depth-1):
                seq = (first,)+rest
                if seq[-1][0] != 'draw' or sum(k == 'noise' for k, v in seq) > 1 or not any(k == 'seed' for k, v in seq): continue   # the last draw decides
                if any(a[0] == 'draw' for a in seq[:[k for k, v in seq].index('seed')]) and sum(k == 'seed' for k, v in seq) == 1 and depth > 4 and seq[0][0] == 'draw' and seq[1][0] == 'draw': continue
                agama.setRandomSeed(99); last = None; hist = (); r = None
                for k, v in seq:
                    S.transitions += 1
                    if k == 'seed': agama.setRandomSeed(v); last = v; hist = ()
                    elif k == 'draw': r = draws[v](); hist += (v,)
                    else: attempt(noise[v])
                if last is not None: check(r.tobytes() == reference(last, hist), '%s: the random stream differs from a fresh one' % (seq,))
                S.traces += 1
            outcome('seed')
        if begin('seed distinct'):
            reps = {reference(s, (i,)) for s in (1, 2, 3, 12345) for i in range(len(draws))}; check(len(reps) == 4*len(draws), 'different seeds give the same numbers'); outcome('distinct')
            x = []
            for k in range(2): agama.setRandomSeed(0); x.append(den.sample(7)[0].tobytes()); __import__('time').sleep(1.1)
            check(x[0] != x[1], 'seed=0 is not taken from the time')
# ---------------------------------------------------------------- part 4: lifetime of objects
class UD:    # user-defined function
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*a)
def ud_dens(): return UD(lambda x: np.exp(-(x*x).sum(1)))
def ud_df(): return UD(lambda j: np.exp(-j.sum(1) if j.ndim > 1 else -j.sum()))
xs = np.linspace(0, 2, 9)
def mk_particles():
    r = np.random.RandomState(3); return r.randn(60, 3), np.ones(60)/60
B = {   # name: (parents, builder)
 'pot':   ((), lambda: agama.Potential(type='Plummer', mass=2, scaleRadius=0.8)),
 'pot2':  ((), lambda: agama.Potential(type='MiyamotoNagai', scaleRadius=1, scaleHeight=0.3)),
 'dens':  ((), lambda: agama.Density(type='Dehnen', gamma=1, axisRatioZ=0.6)),
 'fdens': ((), ud_dens), 'fdf': ((), ud_df),
 'arr':   ((), lambda: xs.copy()), 'arrv': ((), lambda: np.sin(xs)),
 'part':  ((), mk_particles), 'cen': ((), lambda: A([[0, .1, .2, .3], [1, .3, .2, .1], [2, .2, 0, 0]])),
 'tab':   ((), lambda: dict(type='Dehnen', gamma=0.5)),
 'comp':  (('pot', 'pot2'), lambda a, b: agama.Potential(a, b)),
 'comp2': (('pot', 'tab'), lambda a, b: agama.Potential(dict(type='NFW'), b)),
 'sub':   (('comp',), lambda c: c[0]), 'subl': (('comp',), lambda c: list(c)[1]),
 'cdens': (('dens', 'pot'), lambda a, b: agama.Density(a, b)), 'csub': (('cdens',), lambda c: c[1]),
 'udens': (('fdens',), lambda f: agama.Density(f, symmetry='s')), 'umul': (('fdens',), lambda f: agama.Potential(type='Multipole', density=f, symmetry='s', gridSizeR=12, lmax=0)),
 'mod':   (('pot', 'cen'), lambda p, c: agama.Potential(potential=p, center=c)), 'mod2': (('comp',), lambda c: agama.Potential(potential=c, orientation=[1, 2, 3], scale=[2, 0.5])),
 'mdens': (('dens', 'cen'), lambda d, c: agama.Density(density=d, center=c)),
 'mul':   (('dens',), lambda d: agama.Potential(type='Multipole', density=d, lmax=2, gridSizeR=12)), 'nb': (('part',), lambda p: agama.Potential(type='Multipole', particles=p, symmetry='s', gridSizeR=8)),
 'df':    (('pot',), lambda p: agama.DistributionFunction(type='QuasiSpherical', potential=p)), 'df2': (('pot', 'dens'), lambda p, d: agama.DistributionFunction(type='QuasiSpherical', potential=p, density=d, beta0=-0.2)),
 'qi':    (('comp',), lambda c: agama.DistributionFunction(type='QuasiIsothermal', potential=c, Sigma0=1, Rdisk=1, Hdisk=0.3, sigmar0=0.5, Rsigmar=3)),
 'cdf':   (('df', 'qi'), lambda a, b: agama.DistributionFunction(a, b)), 'cdfu': (('df', 'fdf'), lambda a, b: agama.DistributionFunction(a, b)), 'dfsub': (('cdf',), lambda c: c[1]),
 'af':    (('comp',), lambda c: agama.ActionFinder(c)), 'am': (('pot',), lambda p: agama.ActionMapper(p)),
 'sf':    ((), lambda: agama.SelectionFunction(point=[0, 0, 0], radius=1.5, steepness=2)),
 'gm':    (('pot', 'df', 'sf'), lambda p, d, s: agama.GalaxyModel(p, d, sf=s)), 'gm2': (('comp', 'cdfu', 'af'), lambda p, d, a: agama.GalaxyModel(p, d, a)),
 'gpot':  (('gm',), lambda g: g.potential), 'gdf': (('gm2',), lambda g: g.df), 'gaf': (('gm2',), lambda g: g.af), 'gsf': (('gm',), lambda g: g.sf),
 'vdf':   (('gm',), lambda g: g.vdf([0.5, 0.3, 0.1], gridv=6)[1]),
 'orb':   (('mod2',), lambda p: agama.orbit(potential=p, ic=XV[0], time=3, dtype=object)), 'orbs': (('comp',), lambda p: agama.orbit(potential=p, ic=XV, time=3, dtype=object)), 'orbx': (('orb',), lambda o: o.x), 'traj': (('pot',), lambda p: agama.orbit(potential=p, ic=XV[0], time=3, trajsize=9)[1]),
 'spl':   (('arr', 'arrv'), lambda x, y: agama.Spline(x, y)), 'splh': (('arr', 'arrv'), lambda x, y: agama.Spline(x, y, der=np.cos(x))), 'sple': (('arr', 'arrv'), lambda x, y: agama.splineApprox(x[::2], x, y)),
 'targ':  (('arr',), lambda x: agama.Target(type='DensitySphHarm', gridr=x[1:], lmax=2)), 'tres': (('targ', 'dens'), lambda t, d: t(d)), 'torb': (('targ', 'comp'), lambda t, c: agama.orbit(potential=c, ic=XV[0], time=3, targets=[t])),
 'psf': ((), lambda: A([[.1, .3], [.2, .7]])), 'ap': ((), lambda: A([[0, 0], [1, 0], [0.3, 1]])),
 'losvd': (('arr', 'psf', 'ap'), lambda x, p, a: agama.Target(type='LOSVD', degree=1, gridx=x, gridv=x, apertures=(a, a+1), psf=p, velpsf=.1, symmetry='t')),
 'cmpo':  (('df', 'dens'), lambda f, d: agama.Component(df=f, density=d, disklike=False, rminSph=.1, rmaxSph=10, sizeRadialSph=5, lmaxAngularSph=0)), 'cmst': (('pot2',), lambda p: agama.Component(potential=p)),
 'cden':  (('cmpo',), lambda c: c.density), 'cdfa': (('cmpo',), lambda c: c.df), 'cpot': (('cmst',), lambda c: c.potential),
 'scm':   (('cmpo', 'cmst', 'comp'), lambda a, b, p: agama.SelfConsistentModel(components=[a, b], potential=p, rminSph=.1, rmaxSph=10, sizeRadialSph=6, lmaxAngularSph=0, verbose=False)), 'scmp': (('scm',), lambda s: s.potential), 'scmc': (('scm',), lambda s: s.components[0]),
}
def ev(o):
    if isinstance(o, np.ndarray): return o.tobytes() if o.dtype != object else b''.join(ev(x) for x in o.flat)
    if isinstance(o, (tuple, list)): return b'|'.join(ev(x) for x in o)
    if isinstance(o, dict): return repr(sorted(o.items())).encode()
    if isinstance(o, float): return np.float64(o).tobytes()
    if isinstance(o, UD): return ev(o(P))
    if o is None: return b'None'
    if isinstance(o, agama.Potential): return ev([o.eval(P, pot=True, acc=True, der=True, t=0.3), o.density(P)])
    if isinstance(o, agama.Density): return ev(o.density(P, t=0.3))
    if isinstance(o, agama.DistributionFunction): return ev(o(J))
    if isinstance(o, agama.ActionFinder): return ev(o(XV, actions=True, angles=True, frequencies=True))
    if isinstance(o, agama.ActionMapper): return ev(o(np.hstack([abs(J), J])))
    if isinstance(o, agama.SelectionFunction): return ev(o(XV))
    if isinstance(o, agama.GalaxyModel): return ev(o.projectedDF(XV[0, [0, 1, 3, 4, 5]]*0.5 if 0 else A([.3, .2, 0.1, .2, .1, 0, 0, 0])) if 0 else o.moments(P[0], dens=True, vel=False, vel2=False))
    if type(o).__name__ == 'Orbit': return ev([np.asarray(o([0.5, 1.5])), np.asarray(o.x(0.7)), A(list(o))])
    if isinstance(o, agama.Spline): return ev([np.asarray(o(A([.1, .5, 1.3]))), np.asarray(o(A([.1, .5]), 1))])
    if isinstance(o, agama.Target): return ev([len(o), np.asarray(o(agama.Density(type='Plummer')))])
    if isinstance(o, agama.Component): return ev([o.potential, o.density, o.df])
    if isinstance(o, agama.SelfConsistentModel): return ev([o.potential, list(o.components)])
    if isinstance(o, int): return str(o).encode()
    raise RuntimeError(type(o))
def closure(n):
    r = []
    for p in B[n][0]:
        for q in closure(p):
            if q not in r: r.append(q)
    return r + [n]
def build(names, env=None):
    env = {} if env is None else env
    for n in names:
        if n not in env: env[n] = B[n][1](*[env[p] for p in B[n][0]])
    return env
def churn():   # reuse freed memory
    x = [agama.Potential(type='Logarithmic', v0=3), agama.Density(type='Ferrers', p=0.5, q=0.4), agama.DistributionFunction(type='Exponential', norm=7, Jr0=1, Jz0=1, Jphi0=1), agama.Spline([0, 1, 2], [7, 8, 5]), np.full(97, 1e77), [object() for i in range(50)], np.full(9, 1e99), np.full(27, 3e88)]
    del x
def mutate(n, o):   # inputs that the user may overwrite afterwards
    if isinstance(o, np.ndarray) and o.dtype != object: o *= -3.7; o += 11
    elif isinstance(o, tuple):
        for x in o: mutate(n, x)
    elif isinstance(o, dict): o.clear(); o['type'] = 'NFW'
def part_life():
    for n in B:
        cl = closure(n)
        if not begin('life '+n): continue
        env = attempt(lambda: build(cl))
        if isinstance(env, Exception): fail('cannot create: %s' % env); continue
        ref = {k: ev(env[k]) for k in cl}
        env2 = build(cl); 
        for k in cl: check(ev(env2[k]) == ref[k], '%s: not reproducible' % k)
        del env2
        # every order of deleting the objects, evaluating all the others after each step
        L = len(cl); orders = itertools.permutations(cl) if L <= (5 if S.thorough else 4) else [tuple(cl[(i*s+j) % L] for i in range(L)) for j in range(L) for s in range(1, L) if np.gcd(s, L) == 1]
        seen = set()
        for order in orders:
            e = build(cl)
            for i, k in enumerate(order):
                S.transitions += 1; del e[k]; gc.collect(0); churn()
                key = frozenset(order[:i+1])
                if key in seen and not S.thorough: continue
                seen.add(key)
                for q in e:
                    if ev(e[q]) != ref[q]: fail('%s changed after deletion of %s' % (q, order[:i+1]))
                S.nchecks += 1
            S.traces += 1
        S.states += len(seen)
        # overwriting arrays, dictionaries and lists that were used as input
        e = build(cl); mut = [k for k in cl[:-1] if isinstance(e[k], (np.ndarray, tuple, dict))]
        for r in range(1, len(mut)+1):
            for sub in itertools.combinations(mut, r):
                e = build(cl)
                for k in sub: mutate(k, e[k])
                churn(); S.transitions += 1
                for q in cl:
                    if q not in sub: check(ev(e[q]) == ref[q], '%s changed after overwriting %s' % (q, sub))
        # evaluating and repeating does not change anything; each failing call leaves everything as it was
        e = build(cl); o = e[n]
        if isinstance(o, (np.ndarray, tuple, dict, UD, float)): outcome('life '+n); continue
        bad = failing(o)
        for nm, f in bad:
            S.transitions += 1; r = attempt(f)
            check(isinstance(r, Exception) or r is WARN, '%s.%s: no error' % (type(o).__name__, nm))
            churn()
            for q in cl: check(ev(e[q]) == ref[q], '%s changed after a failed call %s' % (q, nm))
        for (n1, f1), (n2, f2) in itertools.product(bad, bad):
            S.transitions += 2; attempt(f1); attempt(f2)
        for q in cl: check(ev(e[q]) == ref[q], '%s changed after failed calls' % q)
        # reference counts of everything used for the construction and returned by the calls
        def count(f, what, own):
            f(); gc.collect(); own = list(own); c0 = [sys.getrefcount(x) for x in own]
            for i in range(30): f()
            gc.collect(); c1 = [sys.getrefcount(x) for x in own]; S.transitions += 31
            check(all(abs(a-b) < 5 for a, b in zip(c0, c1)), '%s: reference counts of arguments %s change from %s to %s' % (what, [type(x).__name__ for x in own], c0, c1))
        par = [e[p] for p in B[n][0]]
        count(lambda: B[n][1](*par), 'creation', par + [list, dict, True, False, 1.0, type(o)])
        count(lambda: ev(o), 'evaluation', par + [o, P, XV, J])
        for nm, f in bad: count(lambda: attempt(f), 'failed call '+nm, par + [o, P, XV, J])
        outcome('life '+n)
WARN = object()
def warned(f):
    def g():
        with warnings.catch_warnings(): warnings.simplefilter('error'); return f()
    return g
BADARR = ['x', [1, 2], np.zeros((2, 4)), [[1, 2, 3], [4, 5]], {}, object()]
def failing(o):
    T = type(o).__name__; r = []
    def add(nm, f): r.append((nm, f))
    add('setattr', lambda: setattr(o, 'nonexistent_attribute', 1)) if not isinstance(o, (agama.Potential, agama.Density, agama.DistributionFunction)) else None
    meth = [m for m in dir(o) if not m.startswith('_') and callable(getattr(o, m)) and not isinstance(getattr(o, m), (agama.Potential, agama.Density, agama.DistributionFunction, agama.ActionFinder, agama.SelectionFunction, agama.Spline))]
    for m in meth:
        if m in ('export', 'iterate', 'totalMass', 'totalEntropy', 'roots', 'extrema', 'principalAxes'): continue
        for b in BADARR:
            if m in ('sample', 'enclosedMass', 'Tcirc', 'Rmax', 'Rcirc') and not isinstance(b, (str, dict)): continue
            if m in ('Rperiapo', 'vdf', 'projectedEval', 'projectedDF', 'projectedDensity', 'moments') and isinstance(b, list) and b == [1, 2]: continue
            if m == 'enclosedMass': continue
            add('%s(%.20r)' % (m, b), lambda m=m, b=b: getattr(o, m)(b))
        add(m+'(unknown=1)', lambda m=m: getattr(o, m)(P[0], unknown=1)) if m not in ('enclosedMass', 'Tcirc', 'Rmax', 'Rperiapo', 'sample') else None
    if hasattr(o, 'export'): add('export', lambda: o.export('/nonexistent/file')); add('export()', lambda: o.export()); add('export(1)', lambda: o.export(1))
    if callable(o) and not isinstance(o, (agama.Potential, agama.Density)):
        for b in ('x', {}, object()): add('call(%.20r)' % (b,), lambda b=b: o(b))
        add('call()', lambda: o())
    add('reinit', lambda: o.__init__(type='Plummer'))
    add('reinit()', lambda: o.__init__()); add('reinit(1,2)', lambda: o.__init__(1, 2))
    if hasattr(type(o), '__getitem__'):
        for i in (10**6, -10**6, 'a', None): add('[%r]' % i, lambda i=i: o[i])
    return r
def part_attr():   # deletion and assignment of attributes
    env = build(list(B))
    for n in B:
        o = env[n]
        if isinstance(o, (np.ndarray, tuple, dict, UD, float)): continue
        names = sorted(set(m for m in dir(type(o)) if not m.startswith('_') and not callable(getattr(type(o), m, None))))
        for m in names:
            for act in ('del', 'none', 'list', 'str', 'neg'):
                if not begin('attr %s %s.%s %s' % (n, type(o).__name__, m, act)): continue
                e = build(closure(n)); x = e[n]
                def f():
                    if act == 'del': delattr(x, m)
                    else: setattr(x, m, {'none': None, 'list': [1], 'str': 'x', 'neg': -1}[act])
                S.transitions += 1; r = attempt(f)
                if isinstance(r, Exception):
                    check(ev(x) == ev(o), 'failed %s of attribute %s changed the object: %s' % (act, m, r))
                attempt(lambda: getattr(x, m)); attempt(lambda: ev(x)); attempt(lambda: x.iterate() if hasattr(x, 'iterate') and m == 'components' else None); repr(x); del x; gc.collect(); outcome('attr %s' % act)
    if begin('scm components'):
        e = build(closure('scm')); s = e['scm']; ref = ev(s); lists = [[e['cmpo']], [e['cmst']], [e['cmpo'], e['cmst']]]
        gc.collect(); c0 = [sys.getrefcount(l) for l in lists]; orig = s.components; co = sys.getrefcount(orig)
        for q in itertools.product(lists, repeat=3):
            for l in q: s.components = l; check(s.components is l, 'assigned list is not returned'); S.transitions += 1
        s.components = orig; q = l = None; gc.collect()
        check([sys.getrefcount(l) for l in lists] == c0, 'assignment of components leaks references: %s -> %s' % (c0, [sys.getrefcount(l) for l in lists]))
        check(sys.getrefcount(orig) == co, 'reference count of the original list %d -> %d' % (co, sys.getrefcount(orig))); check(ev(s) == ref, 'model changed'); outcome('scm')
# ---------------------------------------------------------------- part 5: histories on a common pool of objects
def part_hist():
    """every sequence of create / delete / failing create / evaluate over a small pool, with the model = set of live objects"""
    names = ['pot', 'df', 'comp', 'gm', 'sub', 'spl']; full = ['pot', 'pot2', 'comp', 'sub', 'df', 'sf', 'gm', 'arr', 'arrv', 'spl']
    base = build(full); ref = {k: ev(base[k]) for k in full}; del base
    ops = [('mk', n) for n in full] + [('rm', n) for n in full] + [('fail', i) for i in range(4)]
    depth = 6 if S.thorough else 5
    fails = [lambda: agama.Potential(type='x'), lambda: agama.GalaxyModel(1, 2), lambda: agama.DistributionFunction(type='QuasiSpherical', potential=3), lambda: agama.Spline([1], [2, 3])]
    start = ['pot', 'pot2', 'arr', 'arrv', 'sf']
    def enabled(live):
        for k, v in ops:
            if k == 'mk' and v not in live and all(p in live for p in B[v][0]): yield (k, v)
            elif k == 'rm' and v in live: yield (k, v)
            elif k == 'fail' and v == len(live) % 4: yield (k, v)
    def explore(env, d, seq):
        if d == 0: S.traces += 1; return
        for op in enabled(env):
            S.transitions += 1; e2 = dict(env)
            if op[0] == 'mk': e2[op[1]] = B[op[1]][1](*[env[p] for p in B[op[1]][0]])
            elif op[0] == 'rm': del e2[op[1]]
            else: check(isinstance(attempt(fails[op[1]]), Exception), 'no error')
            state(sorted(e2))
            if d == 1:
                for q in e2:
                    if ev(e2[q]) != ref[q]: fail('%s changed in the history %s' % (q, seq + [op]))
                S.nchecks += 1
            explore(e2, d-1, seq+[op])
    e0 = build(start); first = list(enabled(e0))
    for op in first:
        e = build(start)
        for op2 in list(enabled(e)):
            if not begin('history %s %s, %s %s' % (op + op2)): continue
            e = build(start); okk = True
            for o in (op, op2):
                if o[0] == 'mk':
                    if o[1] in e or not all(p in e for p in B[o[1]][0]): okk = False; break
                    e[o[1]] = B[o[1]][1](*[e[p] for p in B[o[1]][0]])
                elif o[0] == 'rm':
                    if o[1] not in e: okk = False; break
                    del e[o[1]]
            if okk: explore(e, depth-2, [op, op2])
            outcome('history')
for part in (part_threads, part_units, part_seed, part_life, part_attr, part_hist): part()
finish()
