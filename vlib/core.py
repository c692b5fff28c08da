"""Check scaffolding: workload collection, judging, known findings, evidence, exit status."""
import fnmatch, hashlib, json, os, sys, threading, time, traceback
import numpy as np
from . import build, run

VERIF = build.VERIF
REG = {}


def check(pid, rule, assumptions=(), level='exploration'):
    def deco(f):
        REG[pid] = dict(fn=f, rule=rule, assumptions=list(assumptions), level=level)
        return f
    return deco


def known(pid):
    ks = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                # known: property=<id> sig=<glob> <text>
                t = l.split(' ', 3)
                ks.append((t[2][4:], t[3] if len(t) > 3 else ''))
    return ks


HARNESS_FAULTS = ('unknown command', 'cannot read', 'cannot write', 'HARNESS-ERROR script', 'HARNESS-ERROR events', 'usage:', 'bc slots', 'HARNESS-ERROR op ', 'short read')


class FrameworkError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = np.random.default_rng([seed, int(pid[1:]), 1 if self.thorough else 0])
        self.scratch = run.Scratch()
        self.env = {'MALLOC_PERTURB_': '128'}
        self.runner = run.Runner(self.scratch, 'plain', self.env)
        self.jobs = []
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.cov = {}
        self.viol = []
        self.t0 = time.time()

    def k(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def maxi(self, key, v):
        self.cov[key] = max(self.cov.get(key, 0.), float(v))

    def add(self, target, case, np_=1):
        self.jobs.append((target, np_, case))

    def fail(self, sig, msg, case=None, target=None, np_=1, res=None):
        self.viol.append((sig, msg, case, target, np_, res))

    def seen(self, *key):
        """one judged evaluation; key identifies the distinct non-trivial situation"""
        self.evals += 1
        self.nontrivial.add(hashlib.md5(repr(key).encode()).hexdigest())

    def go(self, chunk=10, timeout=150, runner=None):
        runner = runner or self.runner
        groups = {}
        for t, n, c in self.jobs:
            groups.setdefault((t, n), []).append(c)
        self.jobs = []
        jobs, meta = [], []
        for (t, n), cs in sorted(groups.items(), key=lambda g: -g[0][1]):
            nproc_chunks = max(1, -(-len(cs) // chunk))
            per = -(-len(cs) // nproc_chunks)
            for i in range(0, len(cs), per):
                jobs.append((t, cs[i:i + per], n, timeout))
        lock = threading.Lock()

        def done(job, rs):
            t, cs, n, _ = job
            with lock:
                for c, r in zip(cs, rs):
                    if r is not None:
                        self.judge(t, n, c, r)
                    else:
                        self.count('cases_skipped_after_violations')

        runner.map(jobs, done, self.enough)

    def enough(self):
        """violations are certain and the check is taking long: stop exploring and report"""
        if os.environ.get('VERIF_FAIL_FAST') and self.viol:
            return True
        return len(self.viol) >= 3 and time.time() - self.t0 > self.k(90, 600)

    def judge(self, t, n, c, r):
        if r.failure:
            if any(k in r.failure or k in r.stderr for k in HARNESS_FAULTS):
                raise FrameworkError('%s: %s' % (c.label, r.failure))
            self.evals += 1
            self.fail('crash:' + c.label, 'process died on a valid workload (np=%d): %s' % (n, r.failure), c, t, n, r)
            return
        try:
            out = c.judge(r) if c.judge else []
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            # the observation itself is malformed (sizes, missing outputs): report what was observed
            out = [('malformed', 'observation does not have the expected shape: %r %s' % (e, traceback.format_exc().splitlines()[-3].strip()))]
        for sig, msg in out or []:
            self.fail(sig + ':' + c.label, '[np=%d] %s' % (n, msg), c, t, n, r)

    def finish(self, rule, assumptions, level):
        ks = known(self.pid)
        rep = os.path.join(VERIF, 'evidence', 'replay')
        shown, bad = {}, 0
        for i, (sig, msg, case, target, np_, res) in enumerate(self.viol):
            m = [k for k in ks if fnmatch.fnmatchcase(sig, k[0])]
            if m:
                if m[0][0] not in shown:
                    shown[m[0][0]] = 1
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, m[0][1]))
                continue
            bad += 1
            if bad <= 12:
                os.makedirs(rep, exist_ok=True)
                path = os.path.join(rep, '%s-%d.json' % (self.pid, bad))
                d = dict(property=self.pid, sig=sig, message=msg, target=target, np=np_, tier=self.tier, seed=self.seed)
                if case is not None:
                    d.update(label=case.label, script=case.lines, meta=repr(case.meta)[:2000],
                             arrays={k: np.asarray(a).ravel().tolist()[:4000] for k, a in case.arrays.items()})
                if res is not None and res.failure:
                    d['stderr'] = res.stderr[-6000:]
                json.dump(d, open(path, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  %s: %s' % (sig, msg[:700]))
        if bad > 12:
            print('  ... and %d more' % (bad - 12))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, wall_s=round(time.time() - self.t0, 2),
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial), rule=rule, samples=self.samples[:6],
                                processes=self.runner.processes, events=self.runner.events, **self.cov),
                  assumptions=assumptions, violations=bad)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=float)
        print('%s %s: %d evaluations, %d distinct, %d violation(s), %.1fs' % (self.pid, self.tier, self.evals, len(self.nontrivial), bad, time.time() - self.t0))
        return 1 if bad else 0


def main(pid, tier, seed):
    if pid not in REG:
        print('unknown property', pid)
        return 2
    r = REG[pid]
    c = Ctx(pid, tier, seed)
    try:
        r['fn'](c)
        if not c.evals and not c.viol:
            raise FrameworkError('nothing was evaluated')
        return c.finish(r['rule'], r['assumptions'], r['level'])
    except build.BuildError as e:
        print('ERROR %s: %s' % (pid, e))
        return 2
    except FrameworkError as e:
        print('ERROR %s: %s' % (pid, e))
        return 2
    except Exception:
        print('ERROR %s: %s' % (pid, traceback.format_exc()))
        return 2
    finally:
        c.scratch.close()
