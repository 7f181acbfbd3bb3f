import sys, os, itertools; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama
init()
os.chdir(S.scratch); ROOT = os.getcwd()
PTS = np.array([[0.3,0.2,0.1],[-1.1,0.4,0.7],[2.0,-1.5,-0.3],[0.05,-0.02,0.6],[0.,0.,1.3],[4.,3.,2.]])
ACT = np.array([[0.1,0.2,0.3],[0.5,0.1,-0.4],[0.,0.3,1.],[1.2,0.,0.8],[0.02,0.01,2.]])
POT0 = None
def pot0():
    global POT0
    if POT0 is None: POT0 = agama.Potential(type='Plummer')
    return POT0
def fp(o):     # everything observable at a set of points
    if isinstance(o, agama.DistributionFunction): return [np.asarray(o(ACT)), np.array(o.totalMass())]
    if isinstance(o, agama.Potential):
        f, d, p = o.eval(PTS, acc=True, der=True, pot=True)
        return [np.asarray(f), np.asarray(d), np.asarray(p), np.asarray(o.density(PTS)), np.asarray(o.potential(PTS, t=0.7))]
    return [np.asarray(o.density(PTS)), np.asarray(o.density(PTS, t=0.7))]
def same(a, b): return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))
def close(a, b, eps=1e-12): return len(a) == len(b) and all(np.allclose(x, y, rtol=eps, atol=eps*max(1e-30, np.max(abs(y[np.isfinite(y)]), initial=0)), equal_nan=True) for x, y in zip(a, b))
def tree():
    r = []
    for d, _, f in os.walk(ROOT):
        for n in f:
            q = os.path.join(d, n); r.append((q, os.path.getsize(q)))
    return sorted(r)
# ---- what the documentation says: type -> parameter: (valid non-default values), synonyms, values that must be rejected
G = dict(mass=(1.5, 0.25), scaleRadius=(0.75, 2.5))
def T(name, cls, base, extra, bad): return (name, cls, base, extra, bad)
SYN = dict(surfaceDensity='Sigma0', densityNorm='rho0', scaleRadius='rscale', scaleHeight='scaleRadius2', axisRatioY='p', axisRatioZ='q', cutoffStrength='xi')
SYN_DF = dict(beta='beta0', anisotropyRadius='r_a')
pos = lambda *n: {k: ('-1', '0') for k in n}
TYPES = [
 ('Plummer', 'PD', {}, G, {}),
 ('NFW', 'PD', {}, G, {}),
 ('Isochrone', 'PD', {}, G, {}),
 ('MiyamotoNagai', 'PD', {}, dict(G, scaleHeight=(0.25, 1.5)), {}),
 ('PerfectEllipsoid', 'PD', dict(axisRatioZ=0.7), dict(G, axisRatioZ=(0.5, 0.8)), {}),
 ('Dehnen', 'PD', {}, dict(G, gamma=(0.5, 1.5), axisRatioY=(0.75, 0.9), axisRatioZ=(0.5, 0.6)), {'gamma': ('-0.5', '2.5', '3'), 'scaleRadius': ('-1', '0')}),
 ('Ferrers', 'PD', dict(axisRatioY=0.7, axisRatioZ=0.5), dict(G, axisRatioY=(0.75, 0.8), axisRatioZ=(0.4, 0.6)), {'scaleRadius': ('-1', '0'), 'axisRatioY': ('1.0', '-1', '0'), 'axisRatioZ': ('0.9', '0')}),
 ('Logarithmic', 'P', {}, dict(v0=(1.5, 0.5), scaleRadius=(0.5, 2.5), axisRatioY=(0.75, 1.25), axisRatioZ=(0.5, 0.8)), {}),
 ('Harmonic', 'P', {}, dict(Omega=(1.5, 0.5), axisRatioY=(0.75, 1.25), axisRatioZ=(0.5, 0.8)), {}),
 ('KeplerBinary', 'P', {}, dict(mass=(1.5, 0.5), binary_q=(0.5, 1.), binary_sma=(1.25, 2.), binary_ecc=(0.25, 0.5), binary_phase=(0.3, 2.)), {'binary_q': ('-0.1', '-1'), 'binary_ecc': ('-0.1', '1.5')}),
 ('King', 'PD', dict(W0=3.), dict(G, W0=(2., 6.), trunc=(0.5, 1.5)), {'W0': ('0', '-1'), 'trunc': ('-1', '4')}),
 ('Disk', 'PD', {}, dict(mass=(1.5, 0.25), scaleRadius=(0.75, 2.5), scaleHeight=(-0.2, 0.3), innerCutoffRadius=(0.1, 0.3), modulationAmplitude=(0.2, 0.5), sersicIndex=(0.8, 2.)), {'scaleRadius': ('-1', '0'), 'innerCutoffRadius': ('-1',), 'sersicIndex': ('-1', '0')}),
 ('Disk', 'PD', {}, dict(surfaceDensity=(1.5, 0.25), scaleRadius=(0.75, 2.5), scaleHeight=(-0.2, 0.3)), {}),
 ('Spheroid', 'PD', {}, dict(mass=(1.5, 0.25), scaleRadius=(0.75, 2.5), alpha=(2., 1.5), beta=(3.5, 5.), gamma=(0.5, 1.5), axisRatioZ=(0.5, 0.8)), {'scaleRadius': ('-1', '0'), 'gamma': ('3', '4'), 'alpha': ('-1', '0'), 'beta': ('2', '1'), 'axisRatioZ': ('0', '-1')}),
 ('Spheroid', 'PD', {}, dict(densityNorm=(1.5, 0.25), outerCutoffRadius=(5., 12.), cutoffStrength=(1.5, 3.), axisRatioY=(0.75, 0.9), scaleRadius=(0.5, 1.5)), {'outerCutoffRadius': ('-1', '0')}),
 ('Nuker', 'PD', dict(beta=4., gamma=1., alpha=2.), dict(mass=(1.5, 0.25), scaleRadius=(0.75, 2.5), alpha=(1.5, 2.5), beta=(3.5, 5.), gamma=(0.5, 1.5), axisRatioZ=(0.5, 0.8)), {'scaleRadius': ('-1', '0'), 'gamma': ('2', '3', '-1'), 'alpha': ('-1', '0')}),
 ('Nuker', 'PD', dict(beta=4., gamma=1., alpha=2.), dict(surfaceDensity=(1.5, 0.25), outerCutoffRadius=(5., 12.), cutoffStrength=(1.5, 3.)), {}),
 ('Sersic', 'PD', dict(sersicIndex=2.), dict(mass=(1.5, 0.25), scaleRadius=(0.75, 2.5), sersicIndex=(1., 4.), axisRatioZ=(0.5, 0.8)), {'scaleRadius': ('-1', '0'), 'sersicIndex': ('-1', '0'), 'axisRatioZ': ('0', '-1')}),
 ('Sersic', 'PD', dict(sersicIndex=2.), dict(surfaceDensity=(1.5, 0.25), axisRatioY=(0.75, 0.9)), {}),
 ('Multipole', 'P', dict(density='Dehnen'), dict(mass=(1.5, 0.25), gamma=(0.5, 1.5), axisRatioZ=(0.5, 0.8), lmax=(2, 4), mmax=(0, 2), gridSizeR=(15, 20), rmin=(0.01, 0.1), rmax=(20., 50.)), {'gridSizeR': ('-1',), 'lmax': ('-2', '-1'), 'mmax': ('-1',), 'rmin': ('-1', '1e10'), 'rmax': ('-1',)}),
 ('BasisSet', 'P', dict(density='Plummer'), dict(mass=(1.5, 0.25), scaleRadius=(0.5, 2.), nmax=(4, 8), lmax=(2, 4), eta=(0.5, 1.5), r0=(0.5, 2.)), {'nmax': ('-1', 'x'), 'lmax': ('-2',), 'eta': ('0.25', '-1', '0')}),
 ('CylSpline', 'P', dict(density='MiyamotoNagai', gridSizeR=12, gridSizeZ=10), dict(mass=(1.5, 0.25), scaleHeight=(0.5, 0.75), mmax=(0, 2), rmin=(0.1, 0.2), rmax=(10., 20.), zmin=(0.1, 0.2), zmax=(10., 20.)), {'gridSizeR': ('-1', '1'), 'gridSizeZ': ('-1', '1'), 'rmin': ('-1',), 'rmax': ('-1',), 'zmax': ('-1',)}),
]
QI = dict(Rdisk=1., Hdisk=0.2, sigmar0=0.5, Rsigmar=2.)
DFS = [
 ('DoublePowerLaw', dict(J0=1., slopeIn=1., slopeOut=5.), dict(mass=(1.5, 0.25), J0=(0.5, 2.), slopeIn=(0.5, 1.5), slopeOut=(4.5, 6.), coefJrIn=(0.8, 1.2), coefJzOut=(0.9, 1.1)),
   {'mass': ('0', '-1'), 'J0': ('0', '-1'), 'slopeIn': ('3', '4'), 'slopeOut': ('3', '2'), 'coefJrIn': ('0', '-1', '3'), 'coefJzIn': ('0', '3'), 'rotFrac': ('1.5', '-1.5'), 'Jcutoff': ('-1',), 'Jcore': ('-1',), 'steepness': ('0', '-1'), 'cutoffStrength': ('-1',), 'coefJrOut': ('3',)}, None),
 ('DoublePowerLaw', dict(norm=2., J0=1., slopeIn=1., slopeOut=5.), dict(norm=(1.5, 0.25), rotFrac=(0.5, -0.5), Jphi0=(0.2, 0.5), Jcore=(0.1, 0.2), Jcutoff=(5., 10.), cutoffStrength=(1.5, 3.), steepness=(1.5, 0.8)), {'norm': ('0', '-1')}, None),
 ('Exponential', dict(Jr0=0.2, Jz0=0.1, Jphi0=1.), dict(mass=(1.5, 0.25), Jr0=(0.3, 0.4), Jz0=(0.2, 0.3), Jphi0=(0.8, 1.2), addJden=(0.1, 0.2), addJvel=(0.2, 0.3), coefJr=(0.5, 0.8)), {'mass': ('0', '-1'), 'Jr0': ('0', '-1'), 'Jz0': ('0', '-1'), 'Jphi0': ('0', '-1')}, None),
 ('Exponential', dict(norm=2., Jr0=0.2, Jz0=0.1, Jphi0=1.), dict(norm=(1.5, 0.25), qJr=(0.1, 0.2), qJz=(0.1, 0.3), qJphi=(0.1, 0.2), coefJz=(0.5, 0.8)), {'norm': ('0', '-1'), 'qJr': ('1', '2', '-1')}, None),
 ('QuasiIsothermal', dict(QI, Sigma0=1.), dict(Sigma0=(1.5, 0.25), Rdisk=(1.5, 0.8), Hdisk=(0.25, 0.3), sigmar0=(0.4, 0.6), Rsigmar=(1.5, 3.), sigmamin=(0.1, 0.2), Jmin=(0.1, 0.2)), {'Sigma0': ('0', '-1'), 'Rdisk': ('0', '-1'), 'sigmar0': ('0', '-1'), 'Rsigmar': ('0', '-1'), 'Hdisk': ('0', '-1')}, 'P'),
 ('QuasiIsothermal', dict(Rdisk=1., sigmaz0=0.3, Rsigmaz=2., sigmar0=0.5, Rsigmar=2.), dict(mass=(1.5, 0.25), sigmaz0=(0.4, 0.25), Rsigmaz=(1.5, 3.), coefJr=(0.5, 0.8), coefJz=(0.5, 0.3), qJr=(0.1, 0.2)), {'mass': ('0', '-1'), 'sigmaz0': ('-1',)}, 'P'),
 ('QuasiSpherical', {}, dict(beta=(0.25, -0.5), anisotropyRadius=(2., 5.)), {'beta': ('1', '2', '-5'), 'anisotropyRadius': ('0', '-1')}, 'P'),
]
def make(cls, args, ctx=None):
    if cls == 'P': return agama.Potential(**args)
    if cls == 'D': return agama.Density(**args)
    a = dict(args)
    if ctx: a['potential'] = pot0()
    return agama.DistributionFunction(**a)
def attempt(f):
    try: return f()
    except Exception as e: return e
def inikey(v): return str(v) if not isinstance(v, float) else repr(v)
def writeini(fname, sections, cm=False):
    with open(fname, 'w') as f:
        for name, d in sections:
            f.write(('# comment\n' if cm else '') + '[' + name + ']\n')
            for k, v in d.items(): f.write('%s%s%s%s\n' % (k, ' = ' if cm else '=', inikey(v), ' ' if cm else ''))
            if cm: f.write('\n')
nmodels = [0]
def ways(cls, typ, par, base, ctx, label):
    d = dict(type=typ); d.update(base); d.update(par)
    ref = attempt(lambda: make(cls, d, ctx))
    if isinstance(ref, Exception): fail('%s %s: %s' % (label, d, ref)); return
    R = fp(ref); nmodels[0] += 1; S.states += 1
    def cmp(what, f):
        S.transitions += 1; o = attempt(f)
        if isinstance(o, Exception): fail('%s %s: rejected as %s: %s' % (label, d, what, o)); return
        check(same(fp(o), R), '%s %s: different model when given as %s' % (label, d, what))
    # letter case of names and values, numbers as strings, synonyms
    sd = {k: inikey(v) for k, v in d.items()}
    cmp('keywords with string values', lambda: make(cls, sd, ctx))
    for cn, cf in (('lower', str.lower), ('upper', str.upper), ('swapped', str.swapcase)):
        cmp(cn+' case', lambda: make(cls, {cf(k): (cf(v) if isinstance(v, str) and k in ('type', 'density') else v) for k, v in d.items()}, ctx))
    syn = SYN_DF if cls == 'F' else SYN
    sk = [k for k in d if k in syn]
    for n in range(1, len(sk)+1):
        for sub in itertools.combinations(sk, n):
            cmp('synonyms of '+','.join(sub), lambda: make(cls, {(syn[k] if k in sub else k): v for k, v in d.items()}, ctx))
            cmp('synonyms (lower case) of '+','.join(sub), lambda: make(cls, {(syn[k].lower() if k in sub else k): v for k, v in d.items()}, ctx))
    for k in sk:    # both names at once, equal or not
        for v in (d[k], 3.25):
            o = attempt(lambda: make(cls, dict(d, **{syn[k]: v}), ctx)); S.transitions += 1
            check(isinstance(o, Exception), '%s %s: accepted both %s and its synonym %s' % (label, d, k, syn[k]))
    # order
    keys = list(d)
    perms = itertools.permutations(keys) if len(keys) <= (5 if S.thorough else 4) else [keys[i:]+keys[:i] for i in range(len(keys))] + [list(reversed(keys[i:]+keys[:i])) for i in range(len(keys))]
    for q in perms: cmp('order %s' % (q,), lambda: make(cls, {k: d[k] for k in q}, ctx))
    if cls in 'PD':
        C = agama.Potential if cls == 'P' else agama.Density
        S_ = 'Potential' if cls == 'P' else 'Density'
        if cls == 'P': cmp('a dictionary', lambda: C(d)); cmp('two arguments', lambda: C(*[d]))
        for sec in (S_, S_.lower(), S_.upper(), S_+' something'):
            for cm in (False, True):
                writeini('m.ini', [(sec, d)], cm)
                cmp('INI file, section [%s]' % sec, lambda: C('m.ini'))
        cmp('INI file by keyword', lambda: C(file='m.ini')); cmp('INI file, absolute path', lambda: C(ROOT+'/m.ini'))
        with open('m.ini', 'w') as f: f.write('; c\n\n[Other]\ntype=Plummer\nmass=77\n[%s]\n' % S_ + '\r\n'.join('%s=%s' % (k, inikey(v)) for k, v in d.items()))
        cmp('INI file, other sections, CRLF, no newline at the end', lambda: C('m.ini'))
        writeini('m.ini', [(S_, {k.upper(): (v.upper() if isinstance(v, str) else v) for k, v in reversed(list(d.items()))})])
        cmp('INI file, upper case, reversed', lambda: C('m.ini'))
        os.makedirs('sub', exist_ok=True); writeini('sub/m.ini', [(S_, d)]); writeini('sub/n.ini', [(S_, dict(file='m.ini'))]); writeini('o.ini', [(S_, dict(file='sub/n.ini'))])
        cmp('INI file in a subdirectory', lambda: C('sub/m.ini')); cmp('nested INI files, relative paths', lambda: C('o.ini')); cmp('nested INI files, absolute path', lambda: C(ROOT+'/sub/n.ini'))
        cmp('INI file in a subdirectory, ./', lambda: C('./sub/../sub/n.ini'))
        check(os.getcwd() == ROOT, 'current directory changed to %s' % os.getcwd())
        # a component twice = dictionary + object = two INI sections
        if cls == 'P':
            two = [x for x in (attempt(lambda: C(d, dict(type='Plummer', mass=0.5))), attempt(lambda: C(C(**d), C(type='Plummer', mass=0.5))))]
            writeini('m.ini', [('Potential 1', d), ('Potential 2', dict(type='Plummer', mass=0.5))]); two.append(attempt(lambda: C('m.ini')))
            pl = fp(agama.Potential(type='Plummer', mass=0.5)); want = [a+b for a, b in zip(R, pl)]
            for i, t in enumerate(two):
                if isinstance(t, Exception): fail('%s %s: composite %d: %s' % (label, d, i, t))
                else: check(close(fp(t), want, 1e-11), '%s %s: composite given in way %d is not the sum' % (label, d, i))
            S.transitions += 3
        else:
            t1 = attempt(lambda: C(C(**d), C(type='Plummer', mass=0.5))); writeini('m.ini', [('Density 1', d), ('Density 2', dict(type='Plummer', mass=0.5))]); t2 = attempt(lambda: C('m.ini'))
            pl = fp(agama.Density(type='Plummer', mass=0.5)); want = [a+b for a, b in zip(R, pl)]
            for t in (t1, t2):
                if isinstance(t, Exception): fail('%s %s: composite density: %s' % (label, d, t))
                else: check(close(fp(t), want), '%s %s: composite density is not the sum' % (label, d))
def subsets(par):   # all single parameters with both values, all pairs, all together
    r = [{}]
    ks = list(par)
    for k in ks:
        for v in par[k]: r.append({k: v})
    for a, b in itertools.combinations(ks, 2): r.append({a: par[a][0], b: par[b][1]})
    r.append({k: par[k][0] for k in ks}); r.append({k: par[k][1] for k in ks})
    return r
for it, (typ, cl, base, par, bad) in enumerate(TYPES):
    for cls in cl:
        sl = subsets(par)
        heavy = typ in ('Multipole', 'BasisSet', 'CylSpline', 'Disk', 'Spheroid', 'Nuker', 'Sersic', 'King') and cls == 'P'
        if not S.thorough: sl = [s for i, s in enumerate(sl) if i in (0, len(sl)-2, len(sl)-1) or (i % (7 if heavy else 3) == 1)]
        for isub, sub in enumerate(sl):
            if begin('ways %s %s #%d %s' % (cls, typ, it, ','.join('%s=%s' % q for q in sub.items()))):
                ways(cls, typ, sub, {k: v for k, v in base.items() if k not in sub}, None, typ); outcome('ways %s %s' % (cls, typ))
for it, (typ, base, par, bad, ctx) in enumerate(DFS):
    sl = subsets(par)
    if not S.thorough: sl = [s for i, s in enumerate(sl) if i in (0, len(sl)-2, len(sl)-1) or i % 5 == 1]
    for sub in sl:
        if 'norm' not in par and 'Sigma0' not in par and 'mass' in par and 'mass' not in sub: sub = dict(sub, mass=1.25)
        if begin('ways F %s #%d %s' % (typ, it, ','.join('%s=%s' % q for q in sub.items()))):
            ways('F', typ, sub, {k: v for k, v in base.items() if k not in sub}, ctx, typ); outcome('ways F '+typ)
# ---- rejection
GARBAGE = ('', 'abc', '--1', 'e5', '+-1', 'x1', '()', '$')   # trailing characters after a number are documented to be ignored
ALLPAR = sorted(set(k for t in TYPES for k in t[3]) | set(['innerCutoffRadius', 'gridSizeR', 'gridSizeZ', 'smoothing', 'trunc', 'fixOrder', 'interpLinear', 'v0', 'Omega', 'W0']))
TAKES = {}
for t in TYPES: TAKES.setdefault((t[0]), set()).update(t[3]); TAKES[t[0]].update(t[2])
TAKES['Sersic'] |= {'axisRatioY'}; TAKES['Nuker'] |= {'axisRatioY'}; TAKES['Disk'] |= {'surfaceDensity'}
for t in ('Disk', 'Spheroid', 'Nuker', 'Sersic'): TAKES[t] |= {'lmax', 'mmax'}
TAKES['Multipole'] |= {'smoothing', 'fixOrder', 'symmetry', 'scaleRadius', 'axisRatioY'}; TAKES['BasisSet'] |= {'mmax', 'fixOrder', 'symmetry', 'gridSizeR'} ; TAKES['CylSpline'] |= {'fixOrder', 'scaleRadius', 'gridSizeR', 'gridSizeZ', 'symmetry'}
ok0 = None
def rejects(what, f):
    S.transitions += 1
    cwd, tr = os.getcwd(), tree()
    o = attempt(f)
    check(isinstance(o, Exception), '%s: accepted' % what)
    check(os.getcwd() == cwd and tree() == tr, '%s: working directory or files changed by a failed call' % what)
    if os.getcwd() != cwd: os.chdir(cwd)
def badargs(cls, typ, base, ctx, k, v): return make(cls, dict(dict(type=typ, **base), **{k: v}), ctx)
for it, (typ, cl, base, par, bad) in enumerate(TYPES):
    for cls in cl:
        S_, C = ('Potential', agama.Potential) if cls == 'P' else ('Density', agama.Density)
        for k in sorted(set(par) | set(bad)):
            if begin('reject value %s %s #%d %s' % (cls, typ, it, k)):
                if os.path.exists('m.ini'): os.remove('m.ini')
                vals = [v for v in bad.get(k, ())] + list(GARBAGE)
                for v in vals:
                    if cls == 'D' and typ in ('Plummer',) and 0: pass
                    rejects('%s(type=%s, %s=%r)' % (S_, typ, k, v), lambda: badargs(cls, typ, base, None, k, v))
                    writeini('m.ini', [(S_, dict(dict(type=typ, **base), **{k: v}))]); rejects('%s INI file type=%s, %s=%r' % (S_, typ, k, v), lambda: C('m.ini')); os.remove('m.ini')
                    if cls == 'P': rejects('Potential(Plummer, {type=%s, %s=%r})' % (typ, k, v), lambda: C(dict(type='Plummer'), dict(dict(type=typ, **base), **{k: v})))
                outcome('reject %s %s' % (cls, typ))
        if begin('reject unknown %s %s #%d' % (cls, typ, it)):
            for k in ALLPAR:
                if k not in TAKES[typ]: rejects('%s(type=%s, %s=1.5)' % (S_, typ, k), lambda: badargs(cls, typ, base, None, k, 1.5))
            for k in list(par) + ['type']:      # every one-letter edit of a parameter name
                names = set([k[:i]+k[i+1:] for i in range(len(k))] + [k+'x', 'x'+k, k+'_', k[:1]+'_'+k[1:]])
                for n in names:
                    low = {q.lower() for q in list(TAKES[typ]) + list(SYN.values()) + list(SYN)}
                    if n and n.lower() not in low:
                        a = dict(dict(type=typ, **base), **{n: par[k][0] if k in par else typ})
                        rejects('%s(%s)' % (S_, a), lambda: make(cls, a))
            names = set([typ[:i]+typ[i+1:] for i in range(len(typ))] + [typ[:i]+typ[i+1]+typ[i]+typ[i+2:] for i in range(len(typ)-1) if typ[i].lower() != typ[i+1].lower()] + [typ+'x', typ+' x', 'x'+typ, typ[0]*2+typ[1:]])
            for n in names: rejects('%s(type=%s)' % (S_, n), lambda: make(cls, dict(type=n, **base)))
            if 'density' not in base:
                for f in ('nofile', 'dir/nofile', '.', ''): rejects('%s(type=%s, file=%r)' % (S_, typ, f), lambda: badargs(cls, typ, base, None, 'file', f))
            else:
                for n in ('Plumer', 'Logarithmic', 'Harmonic', 'KeplerBinary', 'Multipole', 'CylSpline', 'xyz', ''): rejects('%s(type=%s, density=%s)' % (S_, typ, n), lambda: make(cls, dict(type=typ, density=n)))
                rejects('no source', lambda: make(cls, dict(type=typ)))
                rejects('missing file', lambda: make(cls, dict(type=typ, file='nofile')))
                rejects('symmetry with density', lambda: make(cls, dict(type=typ, symmetry='s', **base)))
            # modifiers with bad values
            for k, vv in dict(center=('x', '1', '1,2', '1,2,3,4', 'nofile'), orientation=('x', '1', '1,2', '1,2,3,4'), rotation=('x', 'nofile', '1,2'), scale=('x', '1', '1,2,3', 'nofile')).items():
                for v in vv: rejects('%s(type=%s, %s=%s)' % (S_, typ, k, v), lambda: badargs(cls, typ, base, None, k, v))
            outcome('unknown %s %s' % (cls, typ))
for it, (typ, base, par, bad, ctx) in enumerate(DFS):
    b0 = dict(base); 
    if 'norm' not in b0 and 'Sigma0' not in b0 and 'mass' in par: b0['mass'] = 1.25
    for k in sorted(set(par) | set(bad)):
        if begin('reject value F %s #%d %s' % (typ, it, k)):
            for v in [v for v in bad.get(k, ())] + list(GARBAGE): rejects('DF(type=%s, %s, %s=%r)' % (typ, b0, k, v), lambda: badargs('F', typ, b0, ctx, k, v))
            outcome('reject F '+typ)
    if begin('reject unknown F %s #%d' % (typ, it)):
        allk = {q.lower() for t in DFS if t[0] == typ for d in (t[1], t[2], t[3]) for q in d} | {'beta0', 'r_a', 'beta', 'anisotropyradius'}
        for k in sorted({q for t in DFS for d in (t[1], t[2], t[3]) for q in d} | set(ALLPAR)):
            if k.lower() not in allk: rejects('DF(type=%s, %s=1.5)' % (typ, k), lambda: badargs('F', typ, b0, ctx, k, 1.5))
        for k in list(par):
            for n in set([k[:i]+k[i+1:] for i in range(len(k))] + [k+'x', 'x'+k, k+'_']):
                if n and n.lower() not in allk: rejects('DF(type=%s, %s)' % (typ, n), lambda: badargs('F', typ, b0, ctx, n, par[k][0]))
        for n in set([typ[:i]+typ[i+1:] for i in range(len(typ))] + [typ+'x', 'x'+typ, '']): rejects('DF(type=%r)' % n, lambda: make('F', dict(type=n, **b0), ctx))
        if ctx is None: rejects('DF %s with potential' % typ, lambda: make('F', dict(type=typ, **b0), 'P'))
        else: rejects('DF %s without potential' % typ, lambda: make('F', dict(type=typ, **b0), None))
        nm = [k for k in ('norm', 'Sigma0') if k in b0]
        if nm: rejects('DF %s mass and norm' % typ, lambda: badargs('F', typ, b0, ctx, 'mass', 1.5))
        elif 'mass' in b0: rejects('DF %s mass and norm' % typ, lambda: badargs('F', typ, b0, ctx, 'Sigma0' if typ[:6] == 'QuasiI' else 'norm', 1.5))
        outcome('unknown F '+typ)
# ---- mutually exclusive parameters, empty or damaged files
if begin('exclusive'):
    for d in (dict(type='Disk', mass=1, surfaceDensity=1), dict(type='Disk', mass=1, Sigma0=1), dict(type='Spheroid', mass=1, densityNorm=1), dict(type='Spheroid', mass=1, rho0=2), dict(type='Nuker', mass=1, surfaceDensity=1), dict(type='Sersic', mass=1, Sigma0=1, sersicIndex=2)):
        for cls in 'PD': rejects(str(d), lambda: make(cls, d)); 
    for d in ({}, dict(mass=1), dict(type=''), dict(scaleRadius=1), dict(file=''), dict(file='nofile'), dict(file='nodir/nofile'), dict(type='Plummer', density='Plummer'), dict(type='Plummer', potential='Plummer'), dict(density='Plummer', mass=1, lmax=3)):
        for cls in 'P': rejects('Potential(%s)' % d, lambda: make(cls, d))
    for f in ('nofile', 'nodir/nofile', '/nonexistent/x.ini', '', '.'): 
        rejects('file %r' % f, lambda: agama.Potential(f)); rejects('file %r' % f, lambda: agama.Density(f))
    outcome('exclusive')
FILES = [('', 'empty'), ('\n\n', 'newlines'), ('[Density]\ntype=Plummer\n', 'other section'), ('type=Plummer\n', 'no section'), ('[Potential]\n', 'empty section'), ('[Potential]\nmass=1\n', 'no type'), ('[Potential]\ntype\n', 'no value'), ('[Potential]\ntype=\n', 'empty value'),
  ('[Potential]\nfile=nofile.ini\n', 'missing include'), ('[Potential 1]\ntype=Plummer\n[Potential 2]\ntype=Plumer\n', 'second section wrong'), ('[Potential 1]\ntype=Plummer\n[Potential 2]\nfile=nofile\n', 'second file missing'),
  ('[Potential]\ntype=Multipole\nlmax=2\nmmax=0\nCoefficients\nPhi\n', 'truncated coefficients'), ('[Potential]\ntype=CylSpline\nmmax=0\nCoefficients\n', 'no coefficients'), ('[Potential]\ntype=BasisSet\nnmax=2\nlmax=0\nCoefficients\n#\n0 1\n', 'short coefficients'), ('[Potential]\ntype=Plummer\nmass=abc\n', 'bad number'), ('[Potential]\ntype=Evolving\nTimestamps\n', 'no timestamps'), ('[Potential]\ntype=Evolving\nTimestamps\n0 nofile1\n1 nofile2\n', 'missing snapshots'), ('[Potential]\ntype=UniformAcceleration\nfile=nofile\n', 'missing acceleration'), ('[Potential]\ntype=Multipole\nsymmetry=s\nfile=nofile\n', 'missing snapshot'),
  ('\0\1\2\3', 'binary'), ('[Potential', 'unterminated'), ('[Potential]\ntype=Plummer\nmass=1\nmass=2\n', 'duplicate parameter'), ('[Potential]\ntype=Plummer\nscaleRadius=1\nrscale=1\n', 'duplicate synonyms')]
for txt, nm in FILES:
    if begin('file '+nm):
        os.makedirs('sub', exist_ok=True)
        for d in ('', 'sub/'):
            with open(d+'f.ini', 'w') as f: f.write(txt)
            if nm != 'duplicate parameter':
                for p in (d+'f.ini', ROOT+'/'+d+'f.ini'): rejects('INI file (%s)' % nm, lambda: agama.Potential(p)); rejects('INI file (%s)' % nm, lambda: agama.Potential(file=p))
                with open('g.ini', 'w') as f: f.write('[Potential]\nfile=%sf.ini\n' % d)
                rejects('nested INI file (%s)' % nm, lambda: agama.Potential('g.ini'))
                if 'other' not in nm: rejects('nested INI file (%s), density' % nm, lambda: agama.Density('g.ini')); rejects('INI file (%s), density' % nm, lambda: agama.Density(d+'f.ini'))
        outcome('file '+nm)
finish()
