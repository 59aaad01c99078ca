"""Controlled scheduler for the real multi-threaded code: exhaustive delay-bounded exploration of thread interleavings.

install() must run before the library is imported (third-party packages are imported first, with the real primitives).
It replaces threading.Lock/RLock/_allocate_lock/_start_new_thread, Thread.join/is_alive, queue.SimpleQueue, time.sleep and
sqlite3.connect by cooperative versions which behave like the originals outside run().  Inside run() exactly one thread
executes at a time; control may change hands at every lock operation of the library, at every visible bytecode of the
modules under DRecPy/Evaluation and (optionally) at every line of the other library modules, or at
those lines on which something shared can change (fine='writes') and the ones after them.

The base scheduler is deterministic: go on with the current thread until it blocks, sleeps or ends (or for `quantum`
points), then take the next one in creation order.  A *delay* at a point skips the thread that would run.  explore()
enumerates all executions with at most `bound` delays, which subsumes all preemptions of that number."""
import _thread
import dis
import os
import queue
import sys
import threading
import time

S = None                       # the active scheduler
_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_sleep = time.sleep
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
_get_ident = _thread.get_ident
REPO = '/repo/'


class Abort(BaseException):
    pass


class Rec:
    __slots__ = ('n', 'sem', 'pred', 'timed', 'done', 'thread', 'ident')

    def __init__(self, n):
        self.n, self.pred, self.timed, self.done, self.thread, self.ident = n, None, False, False, None, None
        self.sem = _real_allocate()
        self.sem.acquire()


class CoopLock:
    def __init__(self): self._l = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = S
        me = s and s.me()
        if not me: return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        if s.aborting: return self._l.acquire(False) or True
        if _from_library(): s.point(me)
        while not self._l.acquire(False):
            if not blocking or timeout == 0: return False
            timed = timeout is not None and timeout >= 0
            s.block(me, self._free, timed)
            if timed and self._l.locked(): return False
        return True

    def _free(self): return not self._l.locked()

    def release(self):
        s = S
        if s and s.aborting:
            try: self._l.release()
            except RuntimeError: pass
            return
        self._l.release()
        me = s and s.me()
        if me and _from_library(): s.point(me)

    def locked(self): return self._l.locked()
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self._l._at_fork_reinit()
    acquire_lock, release_lock, locked_lock = acquire, release, locked


def _from_library():
    """Was the lock operated by the library (or through the pure-Python RLock by it) rather than by stdlib machinery?"""
    f = sys._getframe(2)
    for _ in range(3):
        if f is None: return False
        fn = f.f_code.co_filename
        if fn.startswith(REPO): return True
        if fn != __file__ and not (fn.endswith('threading.py') and f.f_code.co_name in ('acquire', 'release', '__enter__', '__exit__')): return False
        f = f.f_back
    return False


class CoopRLock(threading._PyRLock):
    def __init__(self):
        self._block = CoopLock()
        self._owner = None
        self._count = 0

    def __enter__(self): return self.acquire()

    def release(self):
        if S and S.aborting:
            try: super().release()
            except RuntimeError: pass
            return
        super().release()


def _start_new_thread(fn, args, kw={}):
    s = S
    me = s and s.me()
    if not me or s.aborting: return _real_start(fn, args, kw)
    rec = Rec(len(s.recs))
    rec.thread = getattr(fn, '__self__', None)

    def boot():
        rec.ident = _get_ident()
        rec.sem.acquire()
        s.by_ident[rec.ident] = rec
        try:
            if not s.aborting:
                fn(*args, **kw)
        except Abort: pass
        except SystemExit: pass
        finally:
            s.finish(rec)
    s.recs.append(rec)
    if rec.thread is not None: s.by_thread[id(rec.thread)] = rec
    return _real_start(boot, ())


def _join(self, timeout=None):
    s = S
    me = s and s.me()
    rec = s and s.by_thread.get(id(self))
    if me and rec is not None and not s.aborting:
        if not rec.done:
            s.block(me, lambda: rec.done, timeout is not None)
        if not rec.done: return
        return _real_join(self)
    if s and s.aborting: return
    return _real_join(self, timeout)


def _is_alive(self):
    s = S
    rec = s and s.by_thread.get(id(self))
    if rec is not None: return not rec.done
    return _real_is_alive(self)


def _sleep(secs):
    s = S
    me = s and s.me()
    if not me: return _real_sleep(secs)
    if s.aborting: return
    s.block(me, lambda: True, True)


_real_wait_for_updates = None


def _wait_for_updates(sentinels, change_notifier, timeout=None):
    """Of the pool's maintenance thread: real time does not matter, it only runs when nothing else can."""
    s = S
    me = s and s.me()
    if not me or s.aborting: return _real_wait_for_updates(sentinels, change_notifier, timeout)
    s.block(me, lambda: False, True)
    while not change_notifier.empty(): change_notifier.get()


def _make_sqlite():
    import sqlite3
    real_connect = sqlite3.connect

    def patiently(fn, args, kw):
        waited = 0
        while True:
            try: return fn(*args, **kw)
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e): raise
                s = S
                me = s and s.me()
                waited += 1
                if me and not s.aborting:
                    if waited > 40 or not s.block(me, lambda: True, True): raise
                else:
                    if waited > 100: raise
                    _real_sleep(0.02)

    class Cursor(sqlite3.Cursor):
        def execute(self, *a, **k): return patiently(super().execute, a, k)
        def executemany(self, *a, **k): return patiently(super().executemany, a, k)
        def executescript(self, *a, **k): return patiently(super().executescript, a, k)
        def fetchone(self, *a, **k): return patiently(super().fetchone, a, k)
        def fetchall(self, *a, **k): return patiently(super().fetchall, a, k)
        def fetchmany(self, *a, **k): return patiently(super().fetchmany, a, k)

    class Connection(sqlite3.Connection):
        def cursor(self, factory=Cursor): return super().cursor(factory)
        def execute(self, *a, **k): return self.cursor().execute(*a, **k)
        def executemany(self, *a, **k): return self.cursor().executemany(*a, **k)
        def commit(self): return patiently(super().commit, (), {})

    def connect(*a, **k):
        k['timeout'] = 0
        k.setdefault('factory', Connection)
        return real_connect(*a, **k)
    sqlite3.connect = connect


def import_dependencies():
    """Everything the library imports, loaded with the real primitives."""
    fd = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(2)
    os.dup2(fd, 2)
    try:
        os.environ['MPLBACKEND'] = 'Agg'
        import numpy, pandas, scipy.sparse, sklearn.metrics, joblib, tqdm, logging, csv, uuid, heapq  # noqa
        import matplotlib.pyplot  # noqa
        import tensorflow as tf
        tf.constant(1.) + 1
        tf.keras.optimizers.Adam()
        import requests, zipfile  # noqa
    except ImportError: pass
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(fd)


def install():
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import concurrent.futures.thread
    import multiprocessing.pool
    global _real_wait_for_updates
    _real_wait_for_updates = multiprocessing.pool.Pool._wait_for_updates
    multiprocessing.pool.Pool._wait_for_updates = staticmethod(_wait_for_updates)
    threading._allocate_lock = CoopLock
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    queue.SimpleQueue = queue._PySimpleQueue
    concurrent.futures.thread._global_shutdown_lock = CoopLock()
    time.sleep = _sleep
    _make_sqlite()


# ---------------------------------------------------------------- points
_OPS = {dis.opmap[o] for o in ('STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_ATTR', 'STORE_DEREF', 'CALL', 'CALL_FUNCTION_EX', 'BINARY_SUBSCR',
                               'STORE_SLICE', 'DELETE_SUBSCR', 'LOAD_DEREF', 'FOR_ITER') if o in dis.opmap}
_LOAD_GLOBAL, _LOAD_ATTR = dis.opmap.get('LOAD_GLOBAL'), dis.opmap.get('LOAD_ATTR')
_points = {}


def _code_points(code):
    """Offsets of the bytecodes that touch something another thread might see."""
    if code not in _points:
        pts = set()
        for ins in dis.get_instructions(code):
            if ins.opcode in _OPS: pts.add(ins.offset)
            elif ins.opname == 'LOAD_GLOBAL' and not (ins.arg & 1): pts.add(ins.offset)
            elif ins.opname == 'LOAD_ATTR' and not (ins.arg & 1): pts.add(ins.offset)
        _points[code] = pts
    return _points[code]


_WRITES = {'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_ATTR', 'STORE_DEREF', 'STORE_SLICE', 'DELETE_SUBSCR', 'DELETE_ATTR', 'DELETE_GLOBAL', 'YIELD_VALUE'}
_MUTATORS = {'append', 'add', 'remove', 'pop', 'extend', 'insert', 'update', 'setdefault', 'clear', 'discard', 'popitem', 'sort', 'fill', 'execute', 'executemany', 'executescript', 'fetchone', 'fetchall', 'commit',
             'rollback', 'close', 'cursor', 'seed', 'setstate', 'shuffle', 'sample', 'choice', 'randint', 'random', 'next', 'setattr', 'delattr', 'write', 'rename', 'drop', '__setitem__', 'unlink'}
_lines = {}


def _write_lines(code):
    """Lines on which something that another thread might see can change, and the lines right after them."""
    if code not in _lines:
        found, line, all_lines = set(), None, []
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno is not None and ins.positions.lineno != line:
                line = ins.positions.lineno
                all_lines.append(line)
            if ins.opname in _WRITES or (ins.opname in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_GLOBAL') and str(ins.argval) in _MUTATORS): found.add(line)
        all_lines = sorted(set(all_lines))
        _lines[code] = found | {b for a, b in zip(all_lines, all_lines[1:]) if a in found}
    return _lines[code]


# ---- the points are delivered by sys.monitoring (third-party code runs at full speed)
_mon = sys.monitoring
_TOOL = 3


def _on_instruction(code, offset):
    if offset not in _code_points(code): return _mon.DISABLE
    s = S
    if s is not None: s.point(s.me())


def _on_line(code, line):
    s = S
    if s is None or not s.fine or s.fine == 'writes' and line not in _write_lines(code): return
    s.point(s.me())


def _instrument(code):
    if _mon.get_local_events(_TOOL, code): return
    _mon.set_local_events(_TOOL, code, _mon.events.INSTRUCTION if '/Evaluation/' in code.co_filename else _mon.events.LINE)
    for c in code.co_consts:
        if isinstance(c, type(code)): _instrument(c)


def _on_start(code, offset):
    if code.co_filename.startswith(REPO): _instrument(code)
    return _mon.DISABLE


def _instrument_library():
    seen = set()

    def visit(o, depth=0):
        if id(o) in seen or depth > 4: return
        seen.add(id(o))
        if isinstance(o, (staticmethod, classmethod)): o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel): visit(f, depth + 1)
        elif hasattr(o, '__wrapped__'): visit(o.__wrapped__, depth + 1)
        if isinstance(o, type):
            if getattr(sys.modules.get(o.__module__), '__file__', None) and sys.modules[o.__module__].__file__.startswith(REPO):
                for v in list(vars(o).values()): visit(v, depth + 1)
        code = getattr(o, '__code__', None)
        if code is not None and getattr(code, 'co_filename', '').startswith(REPO):
            _instrument(code)
            for c in o.__closure__ or ():
                try: visit(c.cell_contents, depth + 1)
                except ValueError: pass
    for m in list(sys.modules.values()):
        if (getattr(m, '__file__', None) or '').startswith(REPO):
            for v in list(vars(m).values()): visit(v)


def _start_monitoring():
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, 'drecpy-mc')
        _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instruction)
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
        _mon.set_events(_TOOL, _mon.events.PY_START)
        _instrument_library()


class Scheduler:
    def __init__(self, delays=(), quantum=0, limit=100000, fine=True):
        self.delays = {}
        for d in delays: self.delays[d] = self.delays.get(d, 0) + 1
        self.quantum, self.limit, self.fine = quantum, limit, fine
        self.recs, self.by_ident, self.by_thread = [], {}, {}
        self.enabled_at = []           # number of runnable threads at every choice point
        self.steps = 0
        self.switches = 0
        self.run_len = 0
        self.aborting = False
        self.failure = None
        self.over = _real_allocate()
        self.over.acquire()
        self.main_done = False
        self.free = False

    def me(self):
        return None if self.free else self.by_ident.get(_get_ident())

    def let_go(self):
        """The code waits on something that is not controlled: go on without control (no further exploration, no alarm)."""
        self.free = True
        for r in list(self.recs):
            try: r.sem.release()
            except RuntimeError: pass

    # ---- scheduling
    def order(self, me):
        """Runnable threads, the one the deterministic scheduler prefers first."""
        n = len(self.recs)
        a = me.n if me else 0
        ready, timed = [], []
        for i in range(n):
            r = self.recs[(a + i) % n]
            if r.done: continue
            if r.timed: timed.append(r)
            elif r.pred is None or r.pred(): ready.append(r)
        if ready and me is ready[0] and self.quantum and self.run_len >= self.quantum: ready = ready[1:] + ready[:1]
        if timed and me is not None and timed[0] is me: timed = timed[1:] + timed[:1]
        return ready, timed

    def choose(self, me):
        ready, timed = self.order(me)
        cand = ready + [t for t in timed if t.pred is not None and t.pred()] if ready else timed
        if not cand: return None
        if len(cand) > 1:
            i = len(self.enabled_at)
            self.enabled_at.append(len(cand))
            k = self.delays.get(i, 0)
            return cand[min(k, len(cand) - 1)]
        return cand[0]

    def point(self, me):
        if me is None: return
        if self.aborting: raise Abort
        self.steps += 1
        self.run_len += 1
        if self.steps > self.limit: self.stop('does not end')
        nxt = self.choose(me)
        if nxt is not me: self.switch(me, nxt)

    def block(self, me, pred, timed):
        """Wait until pred() holds (or, if timed, possibly earlier).  Returns whether another thread has run meanwhile."""
        if self.aborting: raise Abort
        me.pred, me.timed = pred, timed
        self.steps += 1
        if self.steps > self.limit: self.stop('does not end')
        nxt = self.choose(me)
        if nxt is None: self.stop('deadlock')
        ran = nxt is not me
        if ran: self.switch(me, nxt)
        me.pred, me.timed = None, False
        return ran

    def switch(self, me, nxt):
        self.switches += 1
        self.run_len = 0
        nxt.sem.release()
        me.sem.acquire()
        if self.aborting: raise Abort
        while self.free and me.pred is not None and not me.pred(): _real_sleep(0.005)

    def stop(self, why):
        if self.failure is None: self.failure = why
        self.abort_all()
        raise Abort

    def abort_all(self):
        self.aborting = True
        me = self.me()
        for r in self.recs:
            if r is not me and not r.done:
                try: r.sem.release()
                except RuntimeError: pass

    def finish(self, rec):
        """The thread has ended: hand over (runs in the ending thread)."""
        rec.done = True
        self.by_ident.pop(rec.ident, None)
        if self.free:
            if all(r.done for r in self.recs): self.release_over()
            return
        if self.aborting:
            if all(r.done for r in self.recs): self.release_over()
            return
        nxt = self.choose(rec)
        if nxt is None:
            if all(r.done for r in self.recs): self.release_over()
            else:
                if not self.main_done: self.failure = self.failure or 'deadlock'
                self.abort_all()
            return
        if self.main_done and not self.order(None)[0]:       # only sleepers are left after the call returned
            self.abort_all()
            return
        self.switches += 1
        nxt.sem.release()

    def release_over(self):
        try: self.over.release()
        except RuntimeError: pass


class Result:
    pass


def run(fn, delays=(), quantum=0, limit=100000, fine=True):
    """Executes fn() under the scheduler; its threads are explored, its result (or exception) is returned."""
    global S
    _start_monitoring()
    s = Scheduler(delays, quantum, limit, fine)
    main = Rec(0)
    main.ident = _get_ident()
    s.recs.append(main)
    s.by_ident[main.ident] = main
    res = Result()
    res.value, res.error = None, None
    S = s
    ended = _real_allocate()
    ended.acquire()

    def watchdog():
        seen = -1
        while not ended.acquire(True, 20):
            if s.steps == seen and not s.aborting:
                s.let_go()
                return
            seen = s.steps
    _real_start(watchdog, ())
    try:
        try: res.value = fn()
        except Abort: pass
        except Exception as e: res.error = e
        s.main_done = True
        s.finish(main)
        if not s.over.acquire(True, 60) and not s.free: raise RuntimeError('controlled threads did not end')
    finally:
        S = None
        ended.release()
    for r in s.recs[1:]:
        if r.thread is not None and not s.aborting: _real_join(r.thread, 5)
    res.free = s.free
    res.failure, res.enabled_at, res.steps, res.switches, res.threads = s.failure, s.enabled_at, s.steps, s.switches, len(s.recs)
    return res


def explore(fn, bound, quantum=0, fine=True, limit=100000, stride=1, part=(0, 1), setup=None):
    """Yields (delays, Result) for every execution with at most `bound` delays; fn is called anew for each.
    stride > 1 keeps every stride-th point for the second and later delays; part=(i, n) keeps the subtrees of the first delays
    that are i modulo n (the execution without delays belongs to every part)."""
    todo = [()]
    while todo:
        d = todo.pop()
        if setup is not None: setup()
        r = run(fn, d, quantum, limit[0] if isinstance(limit, list) else limit, fine)
        yield d, r
        if len(d) >= bound or r.free: continue
        lo = d[-1] if d else 0
        step = 1 if not d else stride
        for j in range(len(r.enabled_at) - 1, lo - 1, -1):
            if j != lo and (j - lo) % step: continue
            if not d and j % part[1] != part[0]: continue
            if d.count(j) + 1 < r.enabled_at[j]: todo.append(d + (j,))
