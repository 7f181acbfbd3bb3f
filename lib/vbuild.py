"""Builds what a check needs from /repo's current working tree.

Objects are cached under /verif/build/<flavour>/ by a hash of (compiler flags, source text, text of every header
of /repo/src), so nothing stale can ever be used: an unchanged cache hit is byte-for-byte the same input.
The cache directory is ignored by git; with an empty cache everything is compiled from scratch (about 1 min)."""
import hashlib, os, subprocess, sys, sysconfig, concurrent.futures as cf, glob, shutil, threading
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + '/src'
BUILD = VERIF + '/build'
NJOBS = 8
BASE = ['-std=c++11', '-fPIC', '-w', '-ffunction-sections', '-fdata-sections', '-DHAVE_EIGEN', '-I/usr/include/eigen3', '-DHAVE_GLPK']
PYINC = ['-I' + sysconfig.get_paths()['include'], '-I/usr/lib/python3/dist-packages/numpy/core/include']
LIBS = ['-lgsl', '-lgslcblas', '-lglpk']
FLAVOURS = {
    # the normal library
    'std':  dict(cxx='g++', flags=['-O1', '-fopenmp'], libs=['-fopenmp']),
    # compiled with OpenMP outlining + thread-sanitizer call-outs, linked against our own runtimes (see harness/omprt)
    'race': dict(cxx='g++', flags=['-O1', '-g1', '-fopenmp', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], libs=['-no-pie', '-rdynamic']),
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-fopenmp', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
                 libs=['-fopenmp', '-fsanitize=address,undefined']),
    'cov':  dict(cxx='g++', flags=['-O0', '-fopenmp', '--coverage'], libs=['-fopenmp', '--coverage']),
}
NOT_LIB = {'interface_amuse', 'interface_nemo', 'interface_python'}
SLOW_FIRST = ['math_linalg', 'math_fit', 'math_spline', 'interface_python', 'potential_factory']

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b'\0')
    return h.hexdigest()[:20]

def rd(fn):
    with open(fn, 'rb') as f: return f.read()

def srcfile(n): return SRC + '/' + n + ('.cc' if n.startswith('torus/') else '.cpp')

def headers_hash():
    return sha(*[rd(f) for f in sorted(glob.glob(SRC + '/*.h') + glob.glob(SRC + '/torus/*.h') + glob.glob(SRC + '/torus/*.templates'))])

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('command failed: ' + ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])

def compile_many(jobs):
    """jobs: list of (command-without-output, output file)"""
    def one(j):
        cmd, out = j
        if os.path.exists(out): return
        tmp = out + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
        run(cmd + ['-o', tmp]); os.replace(tmp, out)
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        for r in [ex.submit(one, j) for j in jobs]: r.result()

def lib_sources(names=None):
    n = [os.path.basename(f)[:-4] for f in glob.glob(SRC + '/*.cpp')] + ['torus/' + os.path.basename(f)[:-3] for f in glob.glob(SRC + '/torus/*.cc')]
    n = [x for x in n if x not in NOT_LIB]
    if names is not None: n = [x for x in n if x in names]
    return sorted(n, key=lambda x: (SLOW_FIRST.index(x) if x in SLOW_FIRST else 99, x))

def objects(flavour, names=None, extra=()):
    """return (jobs, object files) for library sources (+ extra sources such as interface_python)"""
    fl = FLAVOURS[flavour]; hh = headers_hash(); d = BUILD + '/' + flavour
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    allnames = lib_sources(names) + list(extra)
    allnames.sort(key=lambda x: (SLOW_FIRST.index(x) if x in SLOW_FIRST else 99, x))
    for n in allnames:
        py = n in ('interface_python', 'utils')
        flags = BASE + fl['flags'] + fl.get('per', {}).get(n, []) + (['-DHAVE_PYTHON'] + PYINC if n == 'interface_python' else [])
        if flavour == 'cov':
            out = d + '/' + n.replace('/', '_') + '.o'
            if os.path.exists(out): os.remove(out)
        else:
            out = d + '/' + n.replace('/', '_') + '-' + sha(' '.join(flags), rd(srcfile(n)), hh) + '.o'
        jobs.append(([fl['cxx']] + flags + ['-I' + SRC, '-c', srcfile(n)], out)); objs.append(out)
    return jobs, objs

def prune(keep):
    """drop cached objects of earlier trees (best effort; keeps the newest 3 variants of each)"""
    try:
        for d in glob.glob(BUILD + '/*/'):
            groups = {}
            for f in glob.glob(d + '*'):
                if '-' in os.path.basename(f): groups.setdefault(os.path.basename(f).rsplit('-', 1)[0], []).append(f)
            for g in groups.values():
                g.sort(key=os.path.getmtime)
                for f in g[:-3]:
                    if f not in keep: os.remove(f)
    except OSError: pass

def build_exe(name, srcs, flavour='std', names=None, flags=(), libs=None, extra_objs=()):
    """compile harness sources (absolute or relative to /verif/harness) + library objects -> executable path"""
    fl = FLAVOURS[flavour]; hh = headers_hash()
    jobs, objs = objects(flavour, names)
    hobjs = []
    myh = sha(*[rd(f) for f in sorted(glob.glob(VERIF + '/harness/*.h') + glob.glob(VERIF + '/harness/omprt/*.h'))])
    for s in srcs:
        opts = []
        if isinstance(s, tuple): s, opts = s
        p = s if os.path.isabs(s) else VERIF + '/harness/' + s
        fls = BASE + list(opts if opts else fl['flags']) + list(flags)
        out = BUILD + '/' + flavour + '/' + name + '_' + os.path.basename(s) + '-' + sha(' '.join(fls), rd(p), hh, myh) + '.o'
        cxx = fl['cxx'] if not p.endswith('.c') else 'gcc'
        if p.endswith('.c'): fls = [f for f in fls if not f.startswith('-std=')]
        jobs.insert(1, ([cxx] + fls + ['-I' + SRC, '-I' + VERIF + '/harness', '-c', p], out)); hobjs.append(out)
    compile_many(jobs)
    L = list(fl['libs'] if libs is None else libs)
    exe = BUILD + '/' + flavour + '/' + name + '.exe-' + sha(*(hobjs + objs + L))
    if not os.path.exists(exe) and names is not None:
        try: run([fl['cxx']] + hobjs + objs + list(extra_objs) + LIBS + L + ['-Wl,--gc-sections', '-lpthread', '-ldl', '-o', exe + '.tmp%d' % os.getpid()]); os.replace(exe + '.tmp%d' % os.getpid(), exe)
        except BuildError: return build_exe(name, srcs, flavour, None, flags, libs, extra_objs)   # the subset no longer suffices: link everything
    if not os.path.exists(exe):
        run([fl['cxx']] + hobjs + objs + list(extra_objs) + LIBS + L + ['-Wl,--gc-sections', '-lpthread', '-ldl', '-o', exe + '.tmp%d' % os.getpid()])
        os.replace(exe + '.tmp%d' % os.getpid(), exe)
    prune(set(objs + hobjs + [exe]))
    return exe

def build_python(flavour='std'):
    """agama.so as a python extension; returns the directory to put on PYTHONPATH"""
    fl = FLAVOURS[flavour]
    jobs, objs = objects(flavour, None, ['interface_python'])
    compile_many(jobs)
    key = sha(*(objs + [rd(REPO + '/py/__init__.py') if os.path.exists(REPO + '/py/__init__.py') else b'']))
    d = BUILD + '/' + flavour + '/py_' + os.path.basename(REPO.rstrip('/')) + '-' + key
    if not os.path.exists(d + '/agama.so'):
        os.makedirs(d, exist_ok=True)
        tmp = d + '/agama.so.tmp%d' % os.getpid()
        run([fl['cxx'], '-shared'] + objs + LIBS + list(fl['libs']) + ['-o', tmp])
        os.replace(tmp, d + '/agama.so')
    prune(set(objs + [d]))
    return d

if __name__ == '__main__':
    for a in sys.argv[1:]:
        if a == 'py': build_python()
        else:
            j, o = objects(a); compile_many(j)
