"""Shared exploration engine: work distribution, containment, oracle plumbing, evidence.

A check module defines
    RULE                      text for the evidence file
    cases(tier)               generator of JSON-serialisable cases, simplest first (deterministic)
    one(ctx, case)            runs the *real code* on that case and calls ctx.fail(...) on a disagreement
and optionally CASE_LIMIT_S (hang limit per case), BUDGET_S, bounds(tier) (for the evidence), LEVEL, CHUNK.
Every case is executed by exactly one of the forked workers; all cases are executed (unless the time budget is hit,
which the evidence then says)."""
import gc
import hashlib
import json
import mmap
import multiprocessing
import os
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
REPO = '/repo'
MAX_REPORTED = 3


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


def make_scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    try:
        if base is not None:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 512 * 2 ** 20: base = None
    except OSError:
        base = None
    scratch = tempfile.mkdtemp(prefix='drecpy_mc_', dir=base)
    os.environ['DATA_FOLDER'] = os.path.join(scratch, 'data')
    os.makedirs(os.environ['DATA_FOLDER'])
    os.environ['HOME'] = scratch
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    return scratch


def remove_scratch(scratch):
    global _contained_roots
    assert 'drecpy_mc_' in scratch
    os.chdir('/')
    _contained_roots = None
    shutil.rmtree(scratch, ignore_errors=True)


def import_library(needs):
    if REPO not in sys.path: sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(2)
    os.dup2(devnull, 2)
    try:
        import DRecPy.Dataset
        if 'all' in needs:
            import DRecPy.Recommender
            import DRecPy.Recommender.Baseline
            import DRecPy.Sampler
            import DRecPy.Evaluation.Processes
            import DRecPy.Evaluation.Splits
            import DRecPy.Evaluation.Metrics
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(devnull)
    import DRecPy
    got = os.path.realpath(list(DRecPy.__path__)[0])
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'the library under test was imported from {got}, not from {REPO}')


def key64(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


# ---------------------------------------------------------------- containment
_contained_roots = None
_audit_installed = False


def _audit(event, args):
    if _contained_roots is None: return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)): return
        if isinstance(flags, int) and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND): return
        _contain(event, path)
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'shutil.rmtree'):
        _contain(event, args[0])
    elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
        _contain(event, args[1])
        if event in ('os.rename', 'shutil.move'): _contain(event, args[0])
    elif event == 'sqlite3.connect':
        _contain(event, args[0])
    elif event == 'os.kill' and args[1] == 0: return          # only asks whether a process exists
    elif event in ('os.system', 'subprocess.Popen', 'os.posix_spawn', 'os.kill', 'os.killpg'):
        raise PermissionError(f'containment: {event} refused')


def _contain(event, path):
    if isinstance(path, int): return
    try: p = os.fsdecode(path)
    except Exception: return
    if p == ':memory:' or p.startswith(('/dev/', '/proc/self/')) and not p.startswith('/dev/shm/'): return
    p = os.path.realpath(p)
    for r in _contained_roots:
        if p == r or p.startswith(r + os.sep): return
    raise PermissionError(f'containment: {event} outside the scratch directory refused: {p}')


def contain(roots):
    global _contained_roots, _audit_installed
    if not _audit_installed:
        sys.addaudithook(_audit)
        _audit_installed = True
    _contained_roots = [os.path.realpath(r) for r in roots]


# ---------------------------------------------------------------- context handed to checks
class Ctx:
    def __init__(self, eng, wid, workdir):
        self.eng, self.wid, self.dir, self.tier = eng, wid, workdir, eng.tier
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = 0
        self.samples = []
        self.counts = {}
        self.found = {}
        self._n = 0
        self.replaying = False

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond: raise Violation(msg, key)

    def finding(self, key, msg):
        """A disagreement that matches a described defect exactly: tolerated iff it is listed as a known finding."""
        for k in self.eng.known:
            if k['key'] == key:
                self.found[key] = k['what']
                return
        raise Violation(msg, key)

    def state(self, obj):
        self.states.add(key64(obj))

    def outcome(self, obj):
        self.outcomes.add(key64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def path(self, name):
        """A fresh path in this worker's scratch directory."""
        self._n += 1
        return os.path.join(self.dir, f'{self._n}_{name}')

    def new_data_folder(self):
        self._n += 1
        d = os.path.join(self.dir, f'data{self._n}')
        os.makedirs(d)
        os.environ['DATA_FOLDER'] = d
        return d


class Engine:
    def __init__(self, pid, mod, tier, seed, scratch):
        self.pid, self.mod, self.tier, self.seed, self.scratch = pid, mod, tier, seed, scratch
        self.t0 = time.time()
        self.case_limit = getattr(mod, 'CASE_LIMIT_S', 60)
        self.budget = getattr(mod, 'BUDGET_S', {'quick': 600, 'thorough': 6 * 3600})[tier]
        kf = os.path.join(ROOT, 'known_findings.json')
        self.known = []
        if os.path.exists(kf):
            with open(kf) as f:
                self.known = [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('kind', 'finding') == 'finding']

    # -------------------------------------------------------------- one case
    def _execute(self, ctx, case):
        """Returns None or a dict describing the violation."""
        mod = self.mod
        signal.setitimer(signal.ITIMER_REAL, self.case_limit, 2)
        try:
            try:
                mod.one(ctx, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.trace()
            return None
        except Violation as v:
            return {'key': v.key or 'value', 'msg': str(v), 'case': case}
        except HarnessError:
            raise
        except Hang:
            return {'key': 'hang', 'msg': f'no termination within {self.case_limit} s\n' + traceback.format_exc()[-1500:], 'case': case}
        except OSError as e:
            if e.errno in (28, 12, 24): raise HarnessError(f'environment: {e}')
            return {'key': 'exception', 'msg': traceback.format_exc()[-3000:], 'case': case}
        except Exception:
            return {'key': 'exception', 'msg': traceback.format_exc()[-3000:], 'case': case}

    def _known(self, v):
        for k in self.known:
            if k['key'] == v['key'] and (k.get('case') is None or k['case'] == json.loads(json.dumps(v['case']))):
                return k
        return None

    # -------------------------------------------------------------- worker
    def _worker(self, wid, counter, stop, hb):
        workdir = os.path.join(self.scratch, f'w{wid}')
        os.makedirs(os.path.join(workdir, 'data'))
        os.environ['DATA_FOLDER'] = os.path.join(workdir, 'data')
        os.environ['HOME'] = os.environ['TMPDIR'] = tempfile.tempdir = workdir
        os.chdir(workdir)
        random.seed(f'{self.seed}/{wid}')
        log = open(os.path.join(workdir, 'log'), 'w')
        os.dup2(log.fileno(), 1)
        os.dup2(log.fileno(), 2)
        contain([workdir, '/opt/venv/mplconfig'])

        def on_alarm(sig, frame): raise Hang()
        signal.signal(signal.SIGALRM, on_alarm)
        ctx = Ctx(self, wid, workdir)
        viol, done, err, capped = [], 0, None, False
        chunk = getattr(self.mod, 'CHUNK', 8)
        gen = iter(self.mod.cases(self.tier))
        pos, exhausted = 0, False
        try:
            while not exhausted and not stop.value:
                if time.time() - self.t0 > self.budget:
                    capped = True
                    break
                with counter.get_lock():
                    start = counter.value
                    counter.value += chunk
                while pos < start:
                    if next(gen, gen) is gen:
                        exhausted = True
                        break
                    pos += 1
                for _ in range(chunk):
                    if exhausted or stop.value: break
                    case = next(gen, gen)
                    if case is gen:
                        exhausted = True
                        break
                    pos += 1
                    hb[wid] = pos
                    v = self._execute(ctx, case)
                    done += 1
                    if len(ctx.samples) < 2 and done in (1, 40): ctx.samples.append(case)
                    if v is not None:
                        v['index'] = pos - 1
                        k = self._known(v)
                        if k is not None:
                            v['known'] = k['what']
                            if not any(x.get('known') == k['what'] for x in viol): viol.append(v)
                        else:
                            viol.append(v)
                            stop.value = 1
                    if done % 16 == 0: gc.collect()
        except HarnessError as e:
            err = str(e)
            stop.value = 1
        except BaseException:
            err = traceback.format_exc()
            stop.value = 1
        res = {'viol': viol, 'done': done, 'err': err, 'capped': capped, 'transitions': ctx.transitions, 'traces': ctx.traces,
               'samples': ctx.samples, 'counts': ctx.counts, 'found': ctx.found}
        return res, ctx

    def run(self):
        nw = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 8))))
        counter = multiprocessing.Value('q', 0)
        stop = multiprocessing.Value('i', 0)
        hb = multiprocessing.Array('q', nw, lock=False)
        gc.collect()
        gc.disable()
        gc.freeze()
        pids = {}
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    # results go through a file opened before containment
                    out = open(os.path.join(self.scratch, f'res{w}.json'), 'w')
                    st = open(os.path.join(self.scratch, f'res{w}.bin'), 'wb')
                    global _contained_roots
                    res, ctx = self._worker_safe(w, counter, stop, hb)
                    _contained_roots = None
                    json.dump(res, out, default=str)
                    out.close()
                    st.write(struct.pack('<q', len(ctx.states)) + b''.join(ctx.states) + b''.join(ctx.outcomes))
                    st.close()
                    code = 0
                finally:
                    os._exit(code)
            pids[pid] = w
        dead = []
        beats = {w: (-1, time.time()) for w in range(nw)}
        hung = []
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, w in list(pids.items()):
                    if hb[w] != beats[w][0]: beats[w] = (hb[w], now)
                    elif hb[w] > 0 and now - beats[w][1] > self.case_limit * 2 + 30 and not stop.value:
                        os.kill(p, signal.SIGKILL)
                        hung.append(w)
                        stop.value = 1
                time.sleep(0.05)
                continue
            w = pids.pop(pid, None)
            if w is not None and status != 0:
                dead.append((w, status))
                stop.value = 1
        states, outcomes = set(), set()
        viol, errs, capped = [], [], False
        tot = dict(done=0, transitions=0, traces=0)
        samples, counts = [], {}
        self.found = {}
        for w in range(nw):
            if any(d[0] == w for d in dead): continue
            with open(os.path.join(self.scratch, f'res{w}.json')) as f: r = json.load(f)
            with open(os.path.join(self.scratch, f'res{w}.bin'), 'rb') as f: b = f.read()
            n, = struct.unpack('<q', b[:8])
            hs = [b[8 + 8 * i: 16 + 8 * i] for i in range((len(b) - 8) // 8)]
            states.update(hs[:n])
            outcomes.update(hs[n:])
            viol += r['viol']
            self.found.update(r['found'])
            if r['err']: errs.append(r['err'])
            capped = capped or r['capped']
            for k in tot: tot[k] += r[k]
            samples += r['samples']
            for k, v in r['counts'].items(): counts[k] = counts.get(k, 0) + v
        for w, status in dead:
            case = self._nth_case(hb[w] - 1)
            what = 'did not terminate (worker killed)' if w in hung else f'worker process died (status {status})'
            if not w in hung and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                errs.append(f'worker {w} was killed from outside')
            elif case is None: errs.append(f'worker {w} died before its first case (status {status})')
            else: viol.append({'key': 'died', 'msg': what, 'case': case, 'index': hb[w] - 1})
        return self._report(viol, errs, capped, tot, states, outcomes, samples, counts)

    def _worker_safe(self, w, counter, stop, hb):
        try:
            return self._worker(w, counter, stop, hb)
        except BaseException:
            class E: states, outcomes = set(), set()
            return {'viol': [], 'done': 0, 'err': traceback.format_exc(), 'capped': False, 'transitions': 0, 'traces': 0,
                    'samples': [], 'counts': {}, 'found': {}}, E

    def _nth_case(self, n):
        if n < 0: return None
        for i, c in enumerate(self.mod.cases(self.tier)):
            if i == n: return c
        return None

    def _report(self, viol, errs, capped, tot, states, outcomes, samples, counts):
        known = [v for v in viol if v.get('known')]
        viol = sorted([v for v in viol if not v.get('known')], key=lambda v: v['index'])
        os.makedirs(EVIDENCE, exist_ok=True)
        level = getattr(self.mod, 'LEVEL', 'model_checking')
        cov = {'states': len(states), 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'],
               'evaluations': tot['done'], 'distinct_nontrivial': len(outcomes), 'rule': self.mod.RULE,
               'samples': samples[:6], 'exhaustive': not capped and not viol and not errs,
               'bounds': self.mod.bounds(self.tier) if hasattr(self.mod, 'bounds') else {}, 'counters': counts}
        if capped: cov['capped'] = f'time budget {self.budget} s reached; cases are explored simplest first'
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': getattr(self.mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol)}
        tmp = os.path.join(EVIDENCE, f'.{self.pid}.tmp')
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, f'{self.pid}.json'))
        print(f'[{self.pid}] tier={self.tier} cases={tot["done"]} states={len(states)} transitions={tot["transitions"]} '
              f'traces={tot["traces"]} distinct_outcomes={len(outcomes)} capped={capped} wall={ev["wall_s"]}s {counts or ""}')
        seen = set()
        for what in sorted(self.found.values()):
            seen.add(what)
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        for v in known:
            if v['known'] in seen: continue
            seen.add(v['known'])
            print(f'KNOWN-FINDING: property={self.pid} {v["known"]}')
        for i, v in enumerate(viol[:MAX_REPORTED]):
            path = os.path.join(EVIDENCE, f'replay_{self.pid}_{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier, 'case': v['case'], 'key': v['key'], 'msg': v['msg'],
                           'how': f'cd /verif && ./check {self.pid} --replay {path}'}, f, indent=1, default=str)
            print(f'--- {v["key"]}: case {json.dumps(v["case"], default=str)[:1500]}\n{v["msg"]}')
            print(f'VIOLATION property={self.pid} replay={path}')
        for e in errs: print('HARNESS ERROR:', e, file=sys.stderr)
        if viol: return 1
        return 2 if errs else 0

    def replay(self, rec):
        workdir = os.path.join(self.scratch, 'w0')
        os.makedirs(os.path.join(workdir, 'data'))
        os.environ['DATA_FOLDER'] = os.path.join(workdir, 'data')
        os.chdir(workdir)
        contain([self.scratch, '/opt/venv/mplconfig'])

        def on_alarm(sig, frame): raise Hang()
        signal.signal(signal.SIGALRM, on_alarm)
        ctx = Ctx(self, 0, workdir)
        ctx.replaying = True
        v = self._execute(ctx, rec['case'])
        if v is None:
            print(f'[{self.pid}] replay: the property held on this case')
            return 0
        print(v['msg'])
        print(f'VIOLATION property={self.pid} replay=(given)')
        return 1
