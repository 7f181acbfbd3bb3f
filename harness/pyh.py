"""Python side of the harness protocol (see vh.h)."""
import sys, os, hashlib, mmap
class _S: pass
S = _S()
S.shard, S.nshards, S.thorough, S.only, S.scratch, S.prog = 0, 1, False, None, '.', None
S.ncase = S.nrun = S.nchecks = S.nfail = S.states = S.transitions = S.traces = 0
S.outcomes, S.stateset, S.cur, S.nsample, S.extra = set(), set(), '', 0, {}
MAXFAIL = int(os.environ.get('VH_MAXFAIL', '50'))
def init():
    a = sys.argv[1:]; i = 0
    while i < len(a):
        if a[i] == '--shard': S.shard, S.nshards = int(a[i+1]), int(a[i+2]); i += 2
        elif a[i] == '--thorough': S.thorough = True
        elif a[i] == '--only': S.only = a[i+1]; i += 1
        elif a[i] == '--scratch': S.scratch = a[i+1]; i += 1
        elif a[i] == '--progress':
            with open(a[i+1], 'wb') as f: f.write(b'\0' * 4096)
            f = open(a[i+1], 'r+b'); S.prog = mmap.mmap(f.fileno(), 4096); i += 1
        i += 1
    sys.stdout.reconfigure(line_buffering=True)
def setprog(s):
    if S.prog is not None:
        b = s.encode()[:4000] + b'\0'; S.prog[0:len(b)] = b
def one(s): return s.replace('\n', ' ').replace('\t', ' ').replace('\r', ' ')
def begin(case, key=None):   # key: cases with the same key are run by the same shard
    k = S.ncase if key is None else key; S.ncase += 1
    if S.only is not None:
        if case != S.only: return False
    elif k % S.nshards != S.shard: return False
    S.cur = case; S.nrun += 1; setprog(case)
    if S.nsample < 2 and S.only is None: print('SAMPLE ' + one(case)); S.nsample += 1
    return True
def h(s): return hashlib.md5(s.encode()).hexdigest()[:16]
def outcome(s): S.outcomes.add(h(str(s)))
def state(s): S.stateset.add(h(str(s)))
def fail(what):
    S.nfail += 1
    if S.nfail <= MAXFAIL or S.only is not None: print('FAIL %s\t%s' % (S.cur, one(what)[:3000]))
def check(ok, what=''):
    S.nchecks += 1
    if not ok: fail(what if isinstance(what, str) else repr(what))
    return bool(ok)
def finish():
    for o in sorted(S.outcomes): print('OUT ' + o)
    for o in sorted(S.stateset): print('ST ' + o)
    for k, v in (('cases', S.ncase), ('run', S.nrun), ('checks', S.nchecks), ('fails', S.nfail), ('states', S.states),
                 ('transitions', S.transitions), ('traces', S.traces)): print('STAT %s %d' % (k, v))
    for k, v in S.extra.items(): print('EXTRA %s %.17g' % (k, v))
    setprog(''); print('DONE'); sys.stdout.flush()
    os._exit(0)   # skip interpreter teardown
