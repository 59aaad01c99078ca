"""Crash-point enumeration: run a procedure of the real library in a forked child and kill it before its k-th event, for
every k.  Events: every executed source line of the library and every file-system effect (audit event)."""
import os
import signal
import sys

LIB = '/repo/DRecPy/'
FS = ('open', 'os.remove', 'os.rename', 'os.truncate', 'os.rmdir', 'os.mkdir', 'shutil.copyfile', 'shutil.move', 'sqlite3.connect')
_hook = None


def _audit(event, args):
    if _hook is not None and event in FS:
        if event == 'open' and isinstance(args[2], int) and not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC): return
        _hook(event, args)


_installed = False


def child(fn, kill_at=None, files=None, log=False):
    """Forks; the child runs fn() and dies without any cleanup before event number kill_at (or after fn if None).
    files: count only the lines of library files with one of these endings (file-system effects always count).
    log: the events themselves are reported.  Returns (exit status, number of events seen or None, raw report)."""
    global _installed, _hook
    if not _installed:
        sys.addaudithook(_audit)
        try:
            import threading
            import tqdm
            tqdm.tqdm.monitor_interval = 0
            tqdm.tqdm.set_lock(threading.RLock())          # not the semaphore shared by all forked processes, which a dying one would keep
        except ImportError: pass
        _installed = True
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        data = b''
        while True:
            chunk = os.read(r, 65536)
            if not chunk: break
            data += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        n = int(data) if data.strip().isdigit() else None
        return status, n, data
    code = 3
    try:
        os.close(r)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        import faulthandler
        faulthandler.dump_traceback_later(50, file=w)          # a child that hangs tells where
        n = 0

        events = []

        def tick(event=None, args=None):
            nonlocal n
            if n == kill_at: os._exit(77)
            if log: events.append([event, [str(a) for a in args][:2]] if event else None)
            n += 1

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(LIB): return None
            if files is not None and not frame.f_code.co_filename.endswith(files): return tracer
            if event == 'line': tick()
            return tracer
        try:
            _hook = tick
            sys.settrace(tracer)
            fn()
            sys.settrace(None)
            _hook = None
            if log:
                import json
                with os.fdopen(os.dup(w), 'wb') as f: f.write(json.dumps(events).encode())
            else: os.write(w, str(n).encode())
            code = 0
        except BaseException:
            sys.settrace(None)
            _hook = None
            import traceback
            os.write(w, b'!' + traceback.format_exc().encode()[-3000:])
            code = 5
    finally:
        os._exit(code)


def fresh_start():
    """The library is started anew (in the calling process): every module of it is imported again."""
    for m in list(sys.modules):
        if m == 'DRecPy' or m.startswith('DRecPy.'): del sys.modules[m]
    import DRecPy.Dataset
    return DRecPy.Dataset
