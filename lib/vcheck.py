"""Driver shared by all checks: builds a harness, runs its shards, confirms failures by replay, writes evidence."""
import json, os, subprocess, sys, time, tempfile, shutil, threading, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF = vbuild.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NSHARDS = 8

def known_findings(prop):
    out = []
    fn = VERIF + '/known_findings.jsonl'
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open': out.append(d)
    return out

class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.tier = 'thorough' if TIER == 'thorough' else 'quick'
        self.stats, self.extra, self.outcomes, self.samples, self.fails = {}, {}, set(), [], []; self.states = set()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir='/tmp')
        self.coverage = {}
        self.budget = 780 if self.tier == 'quick' else 6*3600
        self.parts = {}

    # ---- running a harness binary or python module following the vh protocol
    def run_harness(self, cmd, env=None, part='', nshards=NSHARDS, timeout=None, omp=1, tag=''):
        env = dict(os.environ, **(env or {}))
        env.setdefault('OMP_NUM_THREADS', str(omp)); env['PYTHONDONTWRITEBYTECODE'] = '1'
        timeout = timeout or max(60, self.budget - (time.time() - self.t0))
        procs = []
        base = list(cmd) + (['--thorough'] if self.tier == 'thorough' else [])
        for i in range(nshards):
            sc = os.path.join(self.scratch, '%s%d' % (tag, i)); os.makedirs(sc, exist_ok=True)
            pf = os.path.join(self.scratch, '%sprog%d' % (tag, i))
            of = open(os.path.join(self.scratch, '%sout%d' % (tag, i)), 'w+b')
            ef = open(os.path.join(self.scratch, '%serr%d' % (tag, i)), 'w+b')
            p = subprocess.Popen(base + ['--shard', str(i), str(nshards), '--scratch', sc, '--progress', pf],
                                 stdout=of, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=sc)
            procs.append((p, of, ef, pf, sc))
        t0 = time.time()
        for i, (p, of, ef, pf, sc) in enumerate(procs):
            try:
                p.wait(max(1, timeout - (time.time() - t0))); why = ''
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); why = 'timeout'
            of.seek(0); out = of.read().decode(errors='replace'); of.close()
            ef.seek(0); err = ef.read().decode(errors='replace'); ef.close()
            done = self.parse(out, base, env, part)
            if not done:
                cur = ''
                try: cur = open(pf, 'rb').read().split(b'\0')[0].decode(errors='replace')
                except OSError: pass
                why = why or ('terminated by signal %d' % -p.returncode if p.returncode < 0 else 'exit status %d' % p.returncode)
                self.fails.append(dict(cmd=base, env=env, case=cur, what='harness ' + why + ' in this case; stderr: ' + err[-600:].replace('\n', ' | '), part=part, crash=True))
        return self

    def parse(self, out, base, env, part):
        done = False
        for line in out.split('\n'):
            if line.startswith('STAT '):
                _, k, v = line.split(); self.stats.setdefault((part, k), []).append(int(v))
            elif line.startswith('EXTRA '):
                _, k, v = line.rsplit(' ', 2) if line.count(' ') > 2 else line.split(); self.extra.setdefault(k, []).append(float(v))
            elif line.startswith('OUT '): self.outcomes.add(part + line[4:])
            elif line.startswith('ST '): self.states.add(part + line[3:])
            elif line.startswith('SAMPLE '):
                if len(self.samples) < 200: self.samples.append((part + ': ' if part else '') + line[7:])
            elif line.startswith('FAIL '):
                case, _, what = line[5:].partition('\t')
                self.fails.append(dict(cmd=base, env=env, case=case, what=what, part=part, crash=False))
            elif line.strip() == 'DONE': done = True
        return done

    def stat(self, k, mode=sum, part=None):
        if mode is sum: return sum(sum(v) for (p, kk), v in self.stats.items() if kk == k and (part is None or p == part))
        return sum(mode(v) for (p, kk), v in self.stats.items() if kk == k and (part is None or p == part))

    # ---- replay one case alone; True if it fails again
    def replay(self, f, timeout=300):
        sc = os.path.join(self.scratch, 'replay'); shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc)
        pf = os.path.join(self.scratch, 'progreplay')
        try:
            p = subprocess.run(f['cmd'] + ['--only', f['case'], '--scratch', sc, '--progress', pf], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=f['env'], cwd=sc, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return True, 'timeout'
        out = p.stdout.decode(errors='replace')
        bad = [l for l in out.split('\n') if l.startswith('FAIL ')]
        if bad: return True, bad[0].partition('\t')[2]
        if 'DONE' not in out.split('\n'):
            return True, 'died with status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-400:])
        return False, ''

    def finish(self, rule, extra_cov=None, mc=False):
        known = known_findings(self.prop)
        confirmed, unconfirmed, hits = [], [], {}
        seen = set(); tried = 0
        for f in self.fails:
            key = f['case']
            if key in seen: continue
            seen.add(key)
            k = [d for d in known if d['case'] == key or (d['case'].endswith('*') and key.startswith(d['case'][:-1]))]
            if k: hits.setdefault(k[0]['case'], (k[0], f)); continue
            if len(confirmed) >= 3 or tried >= 12: continue
            tried += 1
            if f['case'] == '' and f['crash']:
                unconfirmed.append(dict(f, what='harness died outside any case: ' + f['what'])); continue
            ok, what = self.replay(f)
            if ok: confirmed.append(dict(f, what=what or f['what']))
            else: unconfirmed.append(f)
        wall = time.time() - self.t0
        cov = dict(evaluations=self.stat('run'), distinct_nontrivial=len(self.outcomes), rule=rule, samples=self.samples[:200] or ['none'],
                   assertions_checked=self.stat('checks'), cases_enumerated=self.stat('cases', max))
        if mc:
            cov.update(states=self.stat('states') + len(self.states), transitions=self.stat('transitions'), traces_validated_against_impl=self.stat('traces'))
        for k, v in self.extra.items(): cov['x_' + k] = sum(v) if k.startswith('n_') else max(v)
        cov['exhausted'] = (self.stat('run') >= self.stat('cases', max)) and not unconfirmed
        cov.update(self.coverage); cov.update(extra_cov or {})
        cov['known_findings_hit'] = sorted(hits)
        cov['unconfirmed_failures'] = [(u['case'], u['what'][:300]) for u in unconfirmed]
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=cov, wall_s=round(wall, 2))
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        print('%s: %d cases run of %d enumerated, %d assertions, %d distinct outcomes, %.1f s' % (
            self.prop, cov['evaluations'], cov['cases_enumerated'], cov['assertions_checked'], cov['distinct_nontrivial'], wall))
        for c, (d, f) in sorted(hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, d['what']))
        for u in unconfirmed: print('note: failure not reproduced on replay, not reported: %s: %s' % (u['case'], u['what'][:1000]))
        rc = 0
        if confirmed:
            rc = 1
            d = VERIF + '/replay'; os.makedirs(d, exist_ok=True)
            for i, f in enumerate(confirmed):
                fn = '%s/%s_%d.json' % (d, self.prop, i)
                renv = {k: v for k, v in f['env'].items() if k in ('PYTHONPATH', 'OMP_NUM_THREADS', 'LD_LIBRARY_PATH', 'VH_ARGS', 'C02')}
                json.dump(dict(property=self.prop, case=f['case'], what=f['what'], cmd=f['cmd'] + ['--only', f['case']], env=renv), open(fn, 'w'), indent=1)
                print('case %s: %s' % (f['case'][:1500], f['what'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, fn))
        elif unconfirmed:
            rc = 3 if any(u['crash'] for u in unconfirmed) else 0
        if rc == 0 and (cov['evaluations'] == 0 or cov['assertions_checked'] == 0 or not cov['exhausted'] and not unconfirmed):
            print('the enumeration was not completed: no verdict'); rc = 3
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        return rc

def main(fn):
    """fn() -> exit code; a build failure of the harness or library is an error of the check, not a violation"""
    try:
        rc = fn()
    except vbuild.BuildError as e:
        print('BUILD FAILED: ' + str(e)); rc = 2
    sys.exit(rc)
