"""O01 (Python): agama.orbit - every combination of outputs, data types and batch layouts gives the same orbits."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama
init()
UNITS = [dict(mass=1, length=1, velocity=1), dict(mass=1e10, length=1, velocity=1)]
POTS = [dict(type='Plummer', mass=2, scaleRadius=.7), dict(type='Logarithmic', v0=.5, scaleRadius=.2, axisRatioY=.9, axisRatioZ=.7), dict(type='MiyamotoNagai', mass=1, scaleRadius=2, scaleHeight=.3)]
rng = np.array([[1, .2, .3, .1, .7, -.2], [-.8, .9, .1, -.3, -.4, .35], [.5, -1.5, .8, .1, .2, .3], [2.1, .3, -.4, -.5, .1, .2], [0, 1, 0, .3, 0, .4]])
DT = {'float32': 6e-8, 'float64': 0, 'complex64': 6e-8, 'complex128': 0, object: 0, None: 6e-8}
def xv(a):
    a = np.asarray(a)
    return np.hstack((a.real, a.imag)).astype(float) if np.iscomplexobj(a) else a.astype(float)
def eq(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not check(a.shape == b.shape, '%s: shape %s instead of %s' % (what, a.shape, b.shape)): return False
    S.states += a.size
    return check(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (abs(a - b) <= tol * (1e-30 + abs(b)))), '%s: differs by %s: %s' % (what, np.max(abs(a - b)) if a.size else 0, a.ravel()[:6]))
for u in range(2):
    agama.setUnits(**UNITS[u]); MS = [1, 1e-1][u]
    pots = [agama.Potential(**{k: (v * MS if k == 'mass' else v) for k, v in p.items()}) for p in POTS]
    targets = [agama.Target(type='KinemShell', gridr=np.linspace(.1, 4, 6), degree=1), agama.Target(type='DensityClassicTopHat', gridr=np.linspace(.1, 4, 6), stripsPerPane=2, axisratioy=1, axisratioz=1)]
    for ip, pot in enumerate(pots):
        refs = {}
        def args(i, T, t0, Om): return dict(potential=pot, ic=rng[i], time=T, timestart=t0, Omega=Om, verbose=False)
        def ref(i, T, t0, Om, n):   # one quantity at a time
            k = (i, T, t0, Om, n)
            if k in refs: return refs[k]
            r = {}; a = args(i, T, t0, Om)
            r['t'], r['x'] = agama.orbit(trajsize=n, dtype='float64', **a)
            r['o'] = agama.orbit(trajsize=n, dtype=object, **a)
            r['d'] = agama.orbit(trajsize=n, dtype='float64', der=True, **a)[1]
            r['l'] = agama.orbit(lyapunov=True, **a); r['l2'] = agama.orbit(trajsize=n, der=True, lyapunov=True, **a)[2]
            r['g'] = [agama.orbit(targets=g, **a) for g in targets]
            refs[k] = r; return r
        for Om in (0, .3):
            # the reference itself: sampled times, initial state, Orbit object
            for i in range(5):
              for T in (3., -2.):
                for t0 in (0, 1.5):
                  for n in (1, 2, 3, 10, 0):
                    if not begin('u=%d pot=%d ref Omega=%g i=%d T=%g t0=%g n=%d' % (u, ip, Om, i, T, t0, n)): continue
                    r = ref(i, T, t0, Om, n)
                    if n > 1: eq(r['t'], np.linspace(t0, t0 + T, n), 1e-14, 'times')
                    if n == 1: eq(r['t'], [t0 + T], 1e-14, 'time'); eq(r['x'][0], ref(i, T, t0, Om, 2)['x'][1], 1e-12, 'final state')
                    if n == 0: eq([r['t'][0], r['t'][-1]], [t0, t0 + T], 1e-14, 'time range'); eq(r['x'][-1], ref(i, T, t0, Om, 2)['x'][1], 1e-12, 'final state')
                    if n != 1: eq(r['x'][0], rng[i], 2e-15, 'initial conditions') if Om == 0 or t0 == 0 else check(np.max(abs(r['x'][0] - rng[i])) < 1e-14, 'initial conditions')
                    o = r['o']; check(len(o) == len(r['t']), 'length'); eq([o[k] for k in range(len(o))], r['t'], 1e-14, 'timestamps of Orbit')
                    f = 1 if n != 1 else 1
                    w = np.array([o(t) for t in r['t']]).reshape(-1, 6); check(np.max(abs(w - r['x'])) < 1e-13, 'Orbit at sample times differs by %g' % np.max(abs(w - r['x'])))
                    w = np.asarray(o(np.array(r['t']))).reshape(-1, 6); check(np.max(abs(w - r['x'])) < 1e-13, 'Orbit for an array'); w = np.asarray(o(o)).reshape(-1, 6) if n != 1 else w; check(np.max(abs(w - r['x'])) < 1e-13, 'Orbit for an Orbit')
                    if n == 0:   # interpolated trajectory
                        tt = np.linspace(t0, t0 + T, 33); w = o(np.clip(tt, min(o[0], o[len(o)-1]), max(o[0], o[len(o)-1]))); x = agama.orbit(trajsize=33, dtype='float64', **args(i, T, t0, Om))[1]; e = np.max(abs(w - x)); S.extra['max_interp'] = max(S.extra.get('max_interp', 0), e); check(e < 5e-2, 'interpolated Orbit differs by %g' % e)
                        E = pot.potential(r['x'][:, :3]) + .5 * np.sum(r['x'][:, 3:]**2, axis=1) - Om * (r['x'][:, 0] * r['x'][:, 4] - r['x'][:, 1] * r['x'][:, 3]); check(np.max(abs(E - E[0])) < 1e-6 * abs(E).max(), 'energy')
                    if n > 1: check(np.all(np.isnan(o([t0 - .1 * np.sign(T), t0 + T * 1.1]))), 'Orbit outside the time range is %s' % o([t0 - .1 * np.sign(T), t0 + T * 1.1]))
                    outcome('ref %d %d' % (n, T > 0))
            # all subsets of outputs x dtypes x sets of orbits
            for dt in DT:
                for traj in (None, 0, 1, 7, 'mixed'):
                    for der in (0, 1):
                        for lyap in (0, 1):
                            for tg in range(4):
                                for nb, batch in enumerate(([3], [0, 1, 2, 3, 4], [4, 2, 2, 0], None)):   # None: a single orbit as 1d array
                                    if (der and traj is None) or (traj is None and not lyap and not tg) or (dt is object and traj is None): continue
                                    if not S.thorough and (ip + der + lyap + tg + nb + u) % 2: continue
                                    if not begin('u=%d pot=%d Omega=%g dtype=%s traj=%s der=%d lyap=%d targets=%d batch=%d' % (u, ip, Om, dt, traj, der, lyap, tg, nb)): continue
                                    single = batch is None; b = [1] if single else batch; N = len(b)
                                    Ts = [[3., -2., 3., 3., -2.][k] for k in range(N)]; t0s = [[0, 1.5, 1.5, 0, 0][k] for k in range(N)]; ns = [[7, 0, 3, 1, 2][k] for k in range(N)] if traj == 'mixed' else [traj] * N
                                    kw = dict(potential=pot, ic=rng[b[0]] if single else rng[b], time=Ts[0] if single else Ts, timestart=t0s[0] if single else np.array(t0s), Omega=Om, verbose=False)
                                    if traj is not None: kw['trajsize'] = ns[0] if single else (ns if traj == 'mixed' else traj)
                                    if dt is not None: kw['dtype'] = dt
                                    if der: kw['der'] = True
                                    if lyap: kw['lyapunov'] = True
                                    sel = [targets[k] for k in range(2) if tg >> k & 1]
                                    if sel: kw['targets'] = sel[0] if len(sel) == 1 else (sel if ip else tuple(sel))
                                    out = agama.orbit(**kw); nout = len(sel) + (traj is not None) + der + lyap
                                    if nout == 1: out = (out,)
                                    if not check(len(out) == nout, '%d outputs instead of %d' % (len(out), nout)): continue
                                    out = list(out); tol = DT[dt]; S.transitions += nout
                                    R = [ref(b[k], Ts[k], t0s[k], Om, 0 if ns[k] is None else ns[k]) for k in range(N)]
                                    for q in range(2):
                                        if tg >> q & 1:
                                            g = out.pop(0); g = [g] if single else g
                                            for k in range(N): eq(g[k], R[k]['g'][q], 0, 'target %d of orbit %d' % (q, k))
                                    if traj is not None:
                                        g = out.pop(0); g = [g] if single else g; check(len(g) == N, 'number of trajectories')
                                        for k in range(N):
                                            if dt is object: eq(np.array([[t] + list(g[k](t)) for t in [g[k][j] for j in range(len(g[k]))]]), np.column_stack((R[k]['t'], R[k]['x'])), 1e-13, 'Orbit %d' % k) if ns[k] else None
                                            else: eq(g[k][0], R[k]['t'], 0, 'times of orbit %d' % k); eq(xv(g[k][1]), R[k]['x'], tol, 'trajectory of orbit %d' % k); check(np.asarray(g[k][1]).dtype == np.dtype(dt or 'float32'), 'data type')
                                    if der:
                                        g = out.pop(0); g = [g] if single else g
                                        for k in range(N):
                                            if not check(len(g[k]) == 6, '%d deviation vectors' % len(g[k])): continue
                                            for v in range(6):
                                                if dt is not object: eq(xv(g[k][v]), R[k]['d'][v], tol, 'deviation vector %d of orbit %d' % (v, k))
                                                elif ns[k]: w = np.array([g[k][v](t) for t in R[k]['t']]).reshape(-1, 6); m = np.max(abs(R[k]['d'][v])); check(np.max(abs(w - R[k]['d'][v])) < 1e-10 * m, 'deviation vector %d of orbit %d as Orbit: differs by %g' % (v, k, np.max(abs(w - R[k]['d'][v]))))
                                    if lyap:
                                        g = np.atleast_1d(out.pop(0)); eq(g, [R[k]['l2' if der else 'l'] for k in range(N)], 0, 'Lyapunov exponents')
                                    outcome('%s %s %d%d%d' % (dt, traj, der, lyap, tg))
# arguments that must be rejected
agama.setUnits(**UNITS[0]); pot = agama.Potential(**POTS[0]); good = dict(potential=pot, ic=rng[:2], time=1., trajsize=3, verbose=False)
BAD = [dict(potential=None), dict(potential=5), dict(ic=None), dict(ic=rng[0][:5]), dict(ic=rng[:2, :5]), dict(ic='abc'), dict(ic=rng.reshape(1, 5, 6)), dict(time=[1, 2, 3]), dict(time=None), dict(time='abc'), dict(timestart=[1, 2, 3]), dict(timestart='abc'), dict(trajsize=-1), dict(trajsize=[1, 2, 3]), dict(trajsize='abc'), dict(dtype='int'), dict(dtype='nonsense'), dict(dtype='S5'), dict(method='rk'), dict(targets=5), dict(targets=[pot]), dict(der=2), dict(lyapunov=3), dict(verbose=7), dict(nosuch=1), dict(trajsize=None, dtype=None, delete='trajsize'), dict(delete='trajsize', der=True), dict(delete='potential'), dict(delete='ic'), dict(delete='time'), dict(method='hermite', Omega=.3)]
for k, bad in enumerate(BAD):
    if not begin('bad %d' % k): continue
    kw = dict(good, **bad); d = kw.pop('delete', None); kw.pop(d, None)
    try: agama.orbit(**kw); check(False, 'accepted %s' % bad)
    except Exception as e: S.nchecks += 1
    outcome('bad')
finish()
