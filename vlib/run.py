"""Runs batches of cases in the instrumented harnesses and collects the events the monitors judge."""
import json, os, shutil, signal, subprocess, tempfile, threading, time, glob
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from . import build


class Scratch:
    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (1 << 30) else None
        self.dir = tempfile.mkdtemp(prefix='cafesv.', dir=base)
        self.n = 0
        self.lock = threading.Lock()

    def path(self, suffix=''):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, 'f%d%s' % (self.n, suffix))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Case:
    """lines: script lines; arrays: name -> input array (written to files, referenced as @name);
    outs: output names (referenced as @name); judge(result) -> list of violation strings."""

    def __init__(self, label, lines, arrays=None, outs=(), judge=None, meta=None):
        self.label, self.lines, self.arrays, self.outs, self.judge, self.meta = label, lines, arrays or {}, list(outs), judge, meta or {}


class Result:
    def __init__(self):
        self.events, self.out, self.files = [], {}, {}
        self.failure = None  # string when the process died while running this case
        self.stderr = ''

    def ev(self, kind, n=0):
        l = [e for e in self.events if e.get('ev') == kind]
        return l[n] if l else None

    def evs(self, kind):
        return [e for e in self.events if e.get('ev') == kind]


_slots = threading.Semaphore(8)
_slot_lock = threading.Lock()


class _Weight:
    def __init__(self, n):
        self.n = min(n, 8)

    def __enter__(self):
        with _slot_lock:
            for _ in range(self.n):
                _slots.acquire()

    def __exit__(self, *a):
        for _ in range(self.n):
            _slots.release()


class Stopped(Exception):
    pass


class Runner:
    def __init__(self, scratch, variant='plain', extra_env=None, wrapper=None):
        self.s, self.variant, self.env, self.wrapper = scratch, variant, extra_env or {}, wrapper
        self.processes = 0
        self.events = 0
        self.sanitizer_logs = []

    def exec_batch(self, target, cases, np_, timeout, stop=None):
        exe = build.binary(target, self.variant)
        res = [Result() for _ in cases]
        script, evf = self.s.path('.scr'), self.s.path('.ev')
        lines = []
        for i, c in enumerate(cases):
            lines.append('echo case=%d' % i)
            names = {}
            for k, a in c.arrays.items():
                p = self.s.path('.in')
                np.ascontiguousarray(a, dtype=np.float64).tofile(p)
                names[k] = p
            for k in c.outs:
                names[k] = self.s.path('.out')
            res[i].files = names
            for l in c.lines:
                lines.append(' '.join(t if '=@' not in t else t[:t.index('=@') + 1] + names[t[t.index('=@') + 2:]] for t in l.split()))
        with open(script, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        tmp = self.s.path('.tmp')
        os.makedirs(tmp)
        e = build.env({'TMPDIR': tmp, 'OMPI_MCA_orte_tmpdir_base': tmp})
        logb = self.s.path('.san')
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=88:log_path=%s:detect_stack_use_after_return=1' % logb
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=88:log_path=%s' % logb
        e.update(self.env)
        cmd = [exe, script, evf]
        if self.wrapper:
            cmd = self.wrapper(logb) + cmd
        if np_ > 1:
            cmd = ['mpirun', '-q', '-np', str(np_)] + cmd
        with _Weight(np_):
            p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, cwd=tmp)
            to = False
            t1 = time.time() + timeout
            while True:
                try:
                    so, se = p.communicate(timeout=max(.1, min(3., t1 - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    quit_ = bool(stop and stop())
                    to = time.time() >= t1
                    if not (quit_ or to):
                        continue
                    try:
                        os.killpg(p.pid, signal.SIGTERM)
                        time.sleep(1)
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    so, se = p.communicate()
                    if quit_:
                        raise Stopped()
                    break
        se = se.decode(errors='replace')
        self.processes += 1
        cur = None
        ended = False
        if os.path.exists(evf):
            for l in open(evf):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                self.events += 1
                if d.get('ev') == 'echo' and 'case' in d:
                    cur = int(d['case'])
                elif d.get('ev') == 'end':
                    ended = True
                elif cur is not None:
                    res[cur].events.append(d)
        failed = None
        sanlogs = []
        for f in glob.glob(logb + '*'):
            t = open(f, errors='replace').read()
            if t.strip():
                sanlogs.append(t)
        if not ended or p.returncode != 0 or to:
            failed = cur if cur is not None else 0
            why = 'timeout after %ds' % timeout if to else 'exit %s' % p.returncode
            keys = [l for l in se.splitlines() if any(k in l for k in ('PETSC-ERROR', 'ERROR-RETURN', 'HARNESS-ERROR', 'Assertion', 'assert', 'what()', 'signal', 'ERROR: '))]
            step = [l for l in se.splitlines() if l.startswith('STEP')]
            san = ''
            for t in sanlogs:
                fr = [l.strip() for l in t.splitlines() if 'ERROR:' in l or 'runtime error' in l or '/cafes/' in l][:4]
                san += ' | '.join(fr)
            res[failed].failure = '%s; %s; %s %s' % (why, step[-1][:160] if step else '', ' | '.join(keys[:4])[:600], san[:900])
            if 'HARNESS-ERROR' in se:
                res[failed].failure = 'HARNESS ' + res[failed].failure
            res[failed].stderr = se[-3000:] + '\n'.join(sanlogs)[-6000:]
        self.last_sanlogs = sanlogs
        if sanlogs:
            self.sanitizer_logs += sanlogs
        for i, c in enumerate(cases):
            if failed is not None and i >= failed:
                break
            for k in c.outs:
                if os.path.exists(res[i].files[k]):
                    res[i].out[k] = np.fromfile(res[i].files[k])
        for f in [script, evf]:
            if os.path.exists(f):
                os.unlink(f)
        for r, c in zip(res, cases):
            r.text = c.lines
            for k, f in r.files.items():
                if k not in ('keep',) and not k.startswith('keep') and os.path.exists(f):
                    os.unlink(f)
        shutil.rmtree(tmp, ignore_errors=True)
        return res, failed

    def run(self, target, cases, np_=1, timeout=120, stop=None):
        """Runs every case; a case during which the process dies is retried alone, and reported only if it fails again."""
        out = [None] * len(cases)
        todo = list(range(len(cases)))
        tries = {}
        try:
            while todo and not (stop and stop()):
                res, failed = self.exec_batch(target, [cases[i] for i in todo], np_, timeout, stop)
                if failed is None:
                    for i, r in zip(todo, res):
                        out[i] = r
                    break
                for i, r in zip(todo[:failed], res[:failed]):
                    out[i] = r
                bad = todo[failed]
                r1, f1 = self.exec_batch(target, [cases[bad]], np_, timeout, stop)
                out[bad] = r1[0]
                todo = todo[failed + 1:]
        except Stopped:
            pass
        return out

    def map(self, jobs, done, stop):
        """jobs: list of (target, cases, np, timeout); runs them concurrently and hands each job's results to done."""
        for t in sorted({j[0] for j in jobs}):
            build.binary(t, self.variant)
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(lambda j=j: done(j, self.run(*j, stop=stop))) for j in jobs]:
                f.result()


def build_all(pairs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: build.binary(*p), pairs))
