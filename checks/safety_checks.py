import os
import re
import time
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vlib import build, core, run
from vlib.core import check


class Collect(core.Ctx):
    """runs the workload generator of another property and keeps its cases instead of executing them"""

    def __init__(self, parent, pid, factor):
        self.pid, self.tier, self.seed, self.thorough, self.factor = pid, parent.tier, parent.seed, False, factor
        self.rng = np.random.default_rng([parent.seed, int(pid[1:]), 22, int(parent.thorough)])
        self.scratch = parent.scratch
        self.env, self.runner = parent.env, None
        self.jobs, self.evals, self.nontrivial, self.samples, self.cov, self.viol, self.t0 = [], 0, set(), [], {}, [], parent.t0

    def k(self, quick, thorough):
        return max(1, int(round(quick * self.factor)))

    def go(self, *a, **k):
        pass


WORK = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C25', 'C26']


def collect(ctx, factor, cap, work=WORK, np_max=99):
    """cap: largest number of cases kept per property, evenly from its executables (dimensions)"""
    jobs = []
    for pid in work:
        c = Collect(ctx, pid, factor)
        core.REG[pid]['fn'](c)
        js = [j for j in c.jobs if j[1] <= np_max]
        if len(js) > cap:
            left = {}
            for i in ctx.rng.permutation(len(js)):
                left.setdefault(js[i][0], []).append(i)
            keep = []
            while len(keep) < cap and any(left.values()):
                for q in left.values():
                    if q:
                        keep.append(q.pop())
            js = [js[i] for i in sorted(keep[:cap])]
        ctx.count('workload_' + pid, len(js))
        jobs += [(pid,) + j for j in js]
    return jobs


def memcheck(logb):
    return ['valgrind', '-q', '--num-callers=16', '--error-limit=no', '--fullpath-after=', '--log-file=' + logb + '.%p']


def reports(logs):
    """memcheck reports whose stack goes through the library"""
    out = []
    for t in logs:
        for b in re.split(r'\n==\d+== *\n', t):
            b = re.sub(r'==\d+== ?', '', b)
            if 'byte(s)' in b.split('\n')[0] or 'Warning' in b.split('\n')[0]:   # padding handed to system calls by MPI
                continue
            if '/cafes/' in b and ' at 0x' in b:
                out.append(b)
    return out


def short(c, its):
    c.lines = [re.sub(r'ksp_max_it=(\d+)', lambda m: 'ksp_max_it=%d' % min(int(m.group(1)), its), l) for l in c.lines]


@check('C22', 'the workloads of all other properties, sampled: executed in a build with AddressSanitizer and UndefinedBehaviorSanitizer (and checked standard containers) on all process counts, and, for a smaller sample on one and two processes, '
       'under valgrind memcheck (reads of uninitialised data); non-trivial = one distinct workload that ran to its end under one of the two', ['PETSc, MPI and HDF5 themselves are not instrumented by the sanitizers'])
def c22(ctx):
    jobs = collect(ctx, ctx.k(.18, .7), ctx.k(90, 400))
    small = collect(ctx, .4, ctx.k(16, 90), np_max=2)
    ctx.runner = run.Runner(ctx.scratch, 'san', {})

    def judge(pid, label, np_):
        def j(r):
            ctx.seen(pid, label)
            ctx.count('events_under_sanitizers', len(r.events))
            return []
        return j
    for pid, t, n, c in jobs:
        c.judge = judge(pid, c.label, n)
        short(c, 12)
        c.label = pid + ' ' + c.label
        ctx.add(t, c, n)
    groups = {}
    for pid, t, n, c in small:
        if n <= 2:
            short(c, 3)
            c.label = pid + ' ' + c.label
            groups.setdefault((t, n), []).append(c)
    run.build_all([(t, v) for t in build.TARGETS for v in ('san', 'valgrind')])
    ctx.go(chunk=8, timeout=300)
    work = []
    for (t, n), cs in sorted(groups.items(), key=lambda g: -g[0][1]):
        k = 3 if t == 'part3' else 8
        work += [(t, n, cs[i:i + k]) for i in range(0, len(cs), k)]

    def one(w):
        t, n, cs = w
        t1 = time.time()
        r = run.Runner(ctx.scratch, 'valgrind', {}, wrapper=memcheck)
        try:
            res, failed = r.exec_batch(t, cs, n, 600, ctx.enough)
        except run.Stopped:
            return w, [], 0, []
        if os.environ.get('CAFES_TIMES'):
            print('%.1f' % (time.time() - t1), t, n, [x.label[:4] for x in cs])
        return w, res, failed, r.last_sanlogs
    with ThreadPoolExecutor(8) as ex:
        for (t, n, cs), res, failed, logs in ex.map(one, work):
            rep = reports(logs)
            for i, c in enumerate(cs):
                if not res or failed is not None and i >= failed:
                    break
                ctx.seen('memcheck', c.label)
                ctx.count('workloads_under_memcheck')
                ctx.count('events_under_memcheck', len(res[i].events))
            if failed is not None and res:
                c = cs[failed]
                c.label = 'memcheck ' + c.label
                c.judge = None
                ctx.judge(t, n, c, res[failed])
            for b in rep[:3]:
                r = res[failed or 0]
                r.failure, r.stderr = r.failure or 'memcheck report', b[:5000]
                ctx.fail('memcheck', '[np=%d] one of %d workloads (%s, ...): %s' % (n, len(cs), cs[0].label[:120], ' / '.join(l.strip() for l in b.split('\n') if l.strip())[:600]), cs[failed or 0], t, n, r)


# operations a time loop repeats; everything else in a script runs once
REPEAT = set('apply diag massdiag bcvec setrhs setuprhs solve interp surfinterp spread layer project control singrhs singforces singsol semagain semsolve dtonagain dtonsolve '
             'assemble matinfo sample iterate fields alg save'.split())
THRESHOLD = {1: 64, 2: 1024}   # bytes per repetition; message buffers of MPI vary a little between repetitions


def repeat(lines, n, only=None):
    out = []
    for i, l in enumerate(lines):
        out.append(l)
        op = l.split()[0]
        if op in REPEAT and (only is None or i in only):
            for _ in range(n):
                out += [l, 'heap tag=%s:%d' % (op, i)]
    return out


def growth(r, np_, n, last):
    """operations whose memory or descriptors grew at each of the last repetitions, on some process"""
    runs = {}
    for e in r.events:
        if e['ev'] == 'heap':
            runs.setdefault(e['tag'], []).append(e['v'])
    bad, seen = [], []
    for tag, v in runs.items():
        v = np.array(v)
        if len(v) < n:
            continue
        d = np.diff(v[:n], axis=0)[-last:]
        op = tag.split(':')[0]
        seen.append(op)
        for k in range(v.shape[1]):
            if (d[:, k, 0] >= THRESHOLD[np_]).all() and op != 'save':   # the HDF5 library itself keeps a few kB per file
                bad.append((int(tag.split(':')[1]), op, 'memory of process %d grows at every repetition: %s bytes' % (k, d[:, k, 0].astype(int).tolist()[-6:])))
            if (d[:, k, 1] >= 1).all():
                bad.append((int(tag.split(':')[1]), op, 'open descriptors of process %d grow at every repetition: %s' % (k, v[-6:, k, 1].astype(int).tolist())))
    return bad, seen


@check('C23', 'the workloads of the other properties, sampled, on one and two processes: every operation a simulation loop repeats (operator application, right-hand side, solve, interpolation, spreading, projection, forces, coupled solve, save ...) is executed '
       '10 times in a row with the bytes in use and open descriptors of every process recorded; an operation is suspect when each of the last 6 repetitions grows, and is confirmed by 30 repetitions that all grow over the last 20; '
       'non-trivial = one operation of one workload observed for 10 repetitions', ['the bytes the HDF5 library keeps for each file (about 4 kB, also without cafes) hide leaks of the save operation other than descriptors'])
def c23(ctx):
    jobs = collect(ctx, ctx.k(.3, 1.), ctx.k(32, 160), [w for w in WORK if w not in ("C19", "C21")], np_max=2)
    suspects = []

    def judge(pid, t, n, c, lines, arrays):
        def j(r):
            bad, ops = growth(r, n, 10, 6)
            for o in ops:
                ctx.seen(pid, c.label, o)
                ctx.count('repeated_' + o)
            if bad:
                suspects.append((pid, t, n, c, lines, bad))
            return []
        return j
    for pid, t, n, c in jobs:
        if n > 2:
            continue
        short(c, 6)
        lines = list(c.lines)
        c.lines = repeat(lines, 10)
        c.label = pid + ' ' + c.label
        c.judge = judge(pid, t, n, c, lines, c.arrays)
        ctx.add(t, c, n)
    ctx.go(chunk=4, timeout=300)
    ctx.count('suspects', len(suspects))

    def confirm(c):
        def j(r):
            bad, _ = growth(r, c.np_, 30, 20)
            return [('grow-' + op, '%s (%s): %s' % (op, c.lines0[i][:200], m)) for i, op, m in bad]
        return j
    done = {}
    for pid, t, n, c, lines, bad in suspects:
        ops = tuple(sorted({b[1] for b in bad}))
        if done.get((n, ops), 0) >= 4:
            continue
        done[n, ops] = done.get((n, ops), 0) + 1
        c.np_, c.lines0 = n, lines
        c.lines = repeat(lines, 30, {b[0] for b in bad})
        c.judge = confirm(c)
        ctx.add(t, c, n)
    ctx.go(chunk=1, timeout=300)
