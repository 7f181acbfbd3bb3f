# I02, Python interface: writeSnapshot / readSnapshot under all unit systems, layouts and byte limits
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, itertools, resource, signal
import agama
init()
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
F = S.scratch + '/snap'
UN = [None, dict(mass=1, length=1, velocity=1), dict(mass=2.5e3, length=0.001, velocity=30), dict(mass=1e10, length=8, time=1e3)]
BASE = np.array([[1.5, -2.25, 0.3333333, -7.125e-5, 1234567.9, 0.1], [-31.415927, 2e10, 1e-12, 5, -5e3, 0], [0, 0, 0, 0, 0, 0], [1, 2, 3, 4, 5, 6.]])
MASS = np.array([1.25, 0., 3e-7, 4e11])
def layouts(a):
    yield 'C', np.ascontiguousarray(a)
    yield 'F', np.asfortranarray(a)
    yield 'strided', np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2] if a.size else a
    yield 'neg', a[::-1].copy()[::-1] if a.size else a
    yield 'list', a.tolist()
    yield 'f4', a.astype('f4')
for u, un in enumerate(UN):
    agama.setUnits(**(un or {})) if un else agama.setUnits()
    for nc in (3, 6):
        for N in range(0, 5):
            for fmt in ('text', 'T', None, 'nemo', 'N'):
                pos = BASE[:N, :nc]; m = MASS[:N]
                for nm, p in layouts(pos):
                    if not begin('py:u%d:%d:N%d:%s:%s' % (u, nc, N, fmt, nm)): continue
                    if N == 0 and nm == 'list': continue
                    if os.path.exists(F): os.unlink(F)
                    try: agama.writeSnapshot(F, (p, m), *([] if fmt is None else [fmt]))
                    except Exception as e:
                        check(N == 0, 'exception %s' % e); outcome('err'); continue
                    S.states += 1
                    if fmt in ('nemo', 'N'):
                        check(os.path.getsize(F) > 100 + N * (4 * nc + 4), 'file too short')
                        try: agama.readSnapshot(F); check(False, 'NEMO file accepted')
                        except Exception: check(True)
                        # the last array is the mass
                        d = open(F, 'rb').read(); k = d.index(b'Mass\0') + 5 + 8
                        check(np.array_equal(np.frombuffer(d[k:k+4*N], 'f4'), m.astype('f4')) if N else True, 'masses in the NEMO file')
                        k = d.index(b'Position\0') + 9 + 12
                        check(np.allclose(np.frombuffer(d[k:k+12*N], 'f4').reshape(N, 3), pos[:, :3], rtol=2e-7, atol=0) if N else True, 'positions in the NEMO file')
                        continue
                    x, mm = agama.readSnapshot(F)
                    if not check(x.shape == (N, 6) and mm.shape == (N,), 'shape %s' % (x.shape,)): continue
                    tol = 1e-7 if nm != 'f4' else 2e-7
                    check(np.allclose(x[:, :nc], pos, rtol=tol, atol=0) and np.all(x[:, nc:] == 0), 'coordinates %s instead of %s' % (x, pos))
                    check(np.allclose(mm, m, rtol=tol, atol=0), 'masses %s instead of %s' % (mm, m))
                    outcome('%d%d' % (nc, N))
agama.setUnits()
for fmt in ('text', 'nemo'):
    agama.writeSnapshot(F, (BASE, MASS), fmt); full = open(F, 'rb').read()
    for k in range(len(full) + 2):
        if not begin('pylim:%s:%d' % (fmt, k)): continue
        os.unlink(F) if os.path.exists(F) else None
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
        try: agama.writeSnapshot(F, (BASE, MASS), fmt); ok = True
        except Exception: ok = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        S.transitions += 1
        check(ok == (k >= len(full)), 'export of %d bytes with room for %d: %s' % (len(full), k, 'success' if ok else 'error'))
        if ok: check(open(F, 'rb').read() == full, 'content')
        outcome('lim%d' % ok)
finish()
