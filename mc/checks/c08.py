"""C08: lifetime of the private database files over every creation/derivation/close order, and after process death."""
import gc
import itertools
import os
import shutil
import subprocess
import sys
from .. import ref, crash
from ..ref import Table, Obs
from .c07 import template, COLS, OLD, NEW, content

RULE = ('a case is a sequence of create/derive/read/write/save/close/collect steps over up to 4 datasets, the data folder inspected after every step; or the '
        'same history killed at a point (after every step, or at every library line) followed by a new start of the library; distinct_nontrivial counts distinct (live set, files) observations')
ASSUMPTIONS = ['one process at a time, except for the cases with a second starting process', 'a new start is simulated by importing every module of the library again in a fresh process image']
CHUNK = 1
CASE_LIMIT_S = 300
CREATE = ['csv', 'sqlite']
DERIVE = ['copy', 'sel']
STEP = ['apply', 'burst', 'hold', 'save', 'close', 'close2', 'del']


def seqs(depth, create, derive, step, maxn):
    def rec(prefix, live, n):
        if prefix: yield list(prefix)
        if len(prefix) == depth: return
        if n < maxn:
            for c in create: yield from rec(prefix + [[c, n]], live + [n], n + 1)
            for d in derive:
                for s in live: yield from rec(prefix + [[d, s]], live + [n], n + 1)
        for o in step:
            for s in live:
                gone = o in ('close', 'close2', 'del')
                yield from rec(prefix + [[o, s]], [x for x in live if x != s] if gone else live, n)
    for s in rec([], [], 0):
        if len(s) == depth: yield s


def bounds(tier):
    return {'sequences': 'depth %d' % (4 if tier == 'quick' else 5), 'core sequences': 'depth %d, 4 datasets' % (5 if tier == 'quick' else 6),
            'kill points': 'after every prefix; every library line of the listed histories'}


LINES = [['csv'], ['sqlite'], ['csv', 'csv', 'close0'], ['sqlite', 'copy0', 'close0', 'close1'], ['csv', 'csv', 'close1', 'csv', 'close0'], ['csv', 'apply0', 'copy0', 'burst1']]


def cases(tier):
    d, c = (4, 5) if tier == 'quick' else (5, 6)
    for part in range(8):
        for l in LINES: yield ['lines', l, part]
    for s in (['csv'], ['csv', 'copy0'], ['sqlite', 'csv']): yield ['process', s]
    for n in range(1, d + 1):
        for s in seqs(n, CREATE, DERIVE, STEP, 3): yield ['seq', s]
    for s in seqs(c, ['csv'], ['copy'], ['burst', 'close', 'del'], 4): yield ['seq', s]
    for n in range(1, (3 if tier == 'quick' else 4)):
        for s in seqs(n, CREATE, DERIVE, STEP, 3): yield ['kill', s]
    yield ['alive']
    for s in ['csv'], ['sqlite']: yield ['badload', s]


def data_files():
    d = os.environ['DATA_FOLDER']
    return sorted(f for f in os.listdir(d))


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.folder = ctx.new_data_folder()
        self.user = os.path.join(self.folder, 'user')
        self.data = os.path.join(self.folder, 'data')
        os.makedirs(self.user)
        os.makedirs(self.data)
        os.environ['DATA_FOLDER'] = self.data
        self.csv = os.path.join(self.user, 'in.csv')
        ref.write_csv(self.csv, NEW)
        self.sq = os.path.join(self.user, 'src.sqlite')
        shutil.copyfile(template(ctx, 'old', OLD), self.sq)
        os.environ['DATA_FOLDER'] = self.data
        self.foreign = os.path.join(self.data, 'my own.tmp.txt')
        with open(self.foreign, 'w') as f: f.write('keep me')
        self.live, self.t, self.keep = {}, {}, []
        self.before = (open(self.csv, 'rb').read(), open(self.sq, 'rb').read())
        self.saved = {}
        self.n = 0

    def step(self, op, s):
        from DRecPy.Dataset import InteractionDataset
        if op == 'csv':
            self.live[self.n], self.t[self.n] = ref.load('db', self.csv, COLS), Table.load(COLS, NEW)
            self.n += 1
        elif op == 'sqlite':
            self.live[self.n], self.t[self.n] = InteractionDataset(self.sq, in_memory=False, verbose=False), Table.load(COLS, OLD)
            self.n += 1
        elif op in ('copy', 'sel'):
            q = [('interaction', '>=', 1.5)]
            self.live[self.n] = self.live[s].copy() if op == 'copy' else self.live[s].select(ref.qtext(q))
            self.t[self.n] = self.t[s].copy() if op == 'copy' else self.t[s].select(q)
            self.n += 1
        elif op == 'apply':
            self.live[s].apply('interaction', lambda v: v + 1)
            self.t[s] = self.t[s].apply('interaction', lambda v: v + 1)
        elif op == 'burst':
            for _ in range(5): self.live[s].count_unique('rid')
        elif op == 'hold':
            g = self.live[s].values()
            next(g, None)
            self.keep.append(g)
        elif op == 'save':
            p = os.path.join(self.user, f'saved{len(self.saved)}.sqlite')
            self.live[s].save(p)
            self.saved[p] = content(p)
        elif op in ('close', 'close2'):
            self.live[s].close()
            if op == 'close2': self.live[s].close()
            del self.live[s]
        elif op == 'del':
            del self.live[s]

    def inspect(self, last=False):
        ctx = self.ctx
        now = (open(self.csv, 'rb').read(), open(self.sq, 'rb').read())
        ctx.check(now == self.before, 'a file supplied by the user was changed')
        for p, c in self.saved.items(): ctx.check(content(p) == c, f'the saved file {os.path.basename(p)} changed: {content(p)}')
        ctx.check(os.path.exists(self.foreign), 'an unrelated file in the data folder was deleted')
        files = [f for f in data_files() if f != os.path.basename(self.foreign)]
        if not self.live and not self.keep:
            ctx.check(not files, f'no dataset is in use, but the data folder still holds {files}')
        dbs = [f for f in files if not f.startswith('tmp_files')]
        if not self.keep: ctx.check(len(dbs) <= len(self.live), f'{len(self.live)} datasets in use, but {len(dbs)} private files: {dbs}')
        ctx.outcome((len(self.live), len(dbs)))

    def verify_live(self):
        for k, ds in self.live.items():
            m = Obs.records(ds, self.t[k])
            if m: self.ctx.fail(f'dataset {k}: {m}')


def one(ctx, case):
    kind = case[0]
    if kind == 'seq':
        w = World(ctx)
        for op, s in case[1]:
            w.step(op, s)
            ctx.step()
            w.inspect()
        ctx.state([o for o in case[1]])
        w.verify_live()
        w.keep = []
        # everything goes away, oldest first for even lengths, newest first for odd ones
        for k in sorted(w.live, reverse=len(case[1]) % 2 == 1):
            rest = {j: w.t[j] for j in w.live if j != k}
            if k % 2: w.live[k].close()
            del w.live[k]
            w.inspect()
            w.verify_live()
        w.inspect()
        shutil.rmtree(w.folder)
    elif kind == 'kill':
        w = World(ctx)

        def fn():
            for op, s in case[1]: w.step(op, s)
        st, _, out = crash.child(fn)
        ctx.check(st == 0, f'history failed: {out.decode(errors="replace")[-1000:]}')
        restart(ctx, w)
        shutil.rmtree(w.folder)
    elif kind == 'lines':
        k = case[2]
        while True:
            w = World(ctx)

            def fn():
                for op in case[1]: w.step(op.rstrip('0123456789'), int(op[-1]) if op[-1].isdigit() else 0)
            st, n, out = crash.child(fn, k)
            ctx.step()
            ctx.state((case[1], k))
            restart(ctx, w, f'killed at point {k}: ')
            shutil.rmtree(w.folder)
            if st == 0: break
            if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77): ctx.fail(f'run {k} failed: {out.decode(errors="replace")[-1000:]}')
            k += 8
    elif kind == 'alive':
        # another process starts while this one works
        w = World(ctx)
        w.step('csv', 0)
        w.step('copy', 0)
        st, _, out = crash.child(lambda: crash.fresh_start())
        ctx.check(st == 0, f'start failed: {out.decode(errors="replace")[-1000:]}')
        w.step('copy', 0)
        w.step('apply', 0)
        w.verify_live()
        for k in list(w.live): del w.live[k]
        w.inspect()
        shutil.rmtree(w.folder)
    elif kind == 'badload':
        from DRecPy.Dataset import InteractionDataset
        w = World(ctx)
        bad = os.path.join(w.user, 'bad.' + case[1][0])
        if case[1][0] == 'csv':
            with open(bad, 'w') as f: f.write('1,2,3,x\n4,5,notanumber,y\n')
        else:
            with open(bad, 'w') as f: f.write('this is not a database' * 300)
        try:
            ds = InteractionDataset(bad, columns=COLS if case[1][0] == 'csv' else None, in_memory=False, verbose=False)
        except Exception as e:
            e.__traceback__ = None
        else:
            ctx.fail('importing a malformed file did not raise')
        gc.collect()
        w.inspect()
        missing = os.path.join(w.user, 'missing.' + case[1][0])
        try: InteractionDataset(missing, columns=COLS if case[1][0] == 'csv' else None, in_memory=False, verbose=False)
        except Exception as e: e.__traceback__ = None
        else: ctx.fail('loading a missing file did not raise')
        gc.collect()
        ctx.check(not os.path.exists(missing), 'loading a missing file created it')
        w.inspect()
        shutil.rmtree(w.folder)
    elif kind == 'process':
        w = World(ctx)
        # the same with a genuinely new interpreter for the restart
        st, _, out = crash.child(lambda: [w.step(op.rstrip('0123456789'), int(op[-1]) if op[-1].isdigit() else 0) for op in case[1]])
        ctx.check(st == 0, f'history failed: {out.decode(errors="replace")[-1000:]}')
        pid = os.fork()
        if pid == 0:
            try:
                os.execve(sys.executable, [sys.executable, '-c', 'import sys; sys.path.insert(0, "/repo"); sys.dont_write_bytecode = True; import DRecPy.Dataset'],
                          dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            finally:
                os._exit(9)
        _, status = os.waitpid(pid, 0)
        ctx.check(status == 0, f'importing the library failed with status {status}')
        after_restart(ctx, w, 'new interpreter: ')
        shutil.rmtree(w.folder)


def restart(ctx, w, what=''):
    st, _, out = crash.child(lambda: crash.fresh_start())
    ctx.check(st == 0, f'{what}starting the library failed: {out.decode(errors="replace")[-1000:]}')
    after_restart(ctx, w, what)


def after_restart(ctx, w, what):
    left = [f for f in data_files() if f.endswith('.sqlite')]
    ctx.check(not left, f'{what}temporary databases of the dead process are still there after a new start: {left}')
    ctx.check(os.path.exists(w.foreign), f'{what}an unrelated file in the data folder was deleted')
    now = (open(w.csv, 'rb').read(), open(w.sq, 'rb').read())
    ctx.check(now == w.before, f'{what}a file supplied by the user was changed')
    ctx.outcome(('restart', tuple(sorted(os.listdir(w.data)))))
