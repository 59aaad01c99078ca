"""C13: the real leave_k_out / matrix_split under a controlled scheduler: every execution with a bounded number of delays."""
import gc
import os
from .. import ref, sched
from ..ref import Table, Obs
from . import c10, c11

NEEDS = ('all',)
RULE = ('a case is (split, dataset, parameters, backend, threads, progress reporting, granularity, delay bound, part of the schedule tree); every schedule of the part is executed on the real code; '
        'states counts distinct schedules, distinct_nontrivial distinct (configuration, result)')
ASSUMPTIONS = ['scheduling points: locks, queues and sleeps, visible bytecodes of DRecPy/Evaluation, and (granularity "line") every line of the other modules; C code (pandas, SQLite calls) is atomic',
               'delay-bounded: at most the stated number of deviations from the deterministic schedules; a call that takes more than 20 times its usual steps does not end']
CHUNK = 1
CASE_LIMIT_S = 400


def before_import():
    sched.import_dependencies()
    sched.install()


def bounds(tier):
    return {'threads': '1-3 workers, main thread and pool threads', 'delays': 'coarse points: 2 (quick) / 3 (thorough, strided); line points: 1 / 2 (strided)', 'round robin quanta': [1, 2, 3, 5, 8, 13], 'users': '2-4'}


CONFIGS = {
    # name: (kind of split, data profile or matrix, parameters)
    'lko': ('lko', [2, 3, 1], dict(k=1)),
    'lko-min': ('lko', [1, 3, 2], dict(k=1, min_user_interactions=2)),
    'lko-ratio': ('lko', [2, 4, 1], dict(k=0.5, min_user_interactions=2)),
    'lko-last': ('lko', [2, 3, 2], dict(k=2, last_timestamps=True)),
    'lko-two': ('lko', [3, 2], dict(k=1)),
    'mat': ('mat', [1, 1, 1, 1, 0, 1, 1, 1, 0], dict(user_test_ratio=0.67, item_test_ratio=0.67)),
    'mat-min': ('mat', [1, 1, 1, 0, 0, 1, 1, 1, 0], dict(user_test_ratio=1.0, item_test_ratio=0.67, min_user_interactions=2)),
}
FAIL = {'lko-nots': ('lko', [2, 3, 1], dict(k=1, last_timestamps=True, timestamp_label='nope')),
        'lko-boom': ('lko', [2, 2, 2], dict(k=1)), 'mat-boom': ('mat', [1] * 9, dict(user_test_ratio=0.67, item_test_ratio=0.34))}


def cases(tier):
    q = tier == 'quick'
    for name in CONFIGS:
        for be in ('mem', 'db'):
            for verbose in (False, True):
                for threads in (1, 2, 3):
                    for quantum in (1, 2, 3, 5, 8, 13):
                        if q and (quantum in (3, 8) or (verbose and quantum == 5)): continue
                        yield [name, be, threads, verbose, quantum % 2 == 1, 0, quantum, 0, 1]
    for name in FAIL:
        for be in ('mem', 'db'):
            for verbose in (True, False):
                for threads in (1, 2):
                    for p in range(2): yield [name, be, threads, verbose, False, 1, 0, p, 2]
    # all schedules with one delay, fine grained
    for name in CONFIGS:
        for be in ('db', 'mem'):
            for verbose in (True, False):
                if q and (name, be, verbose) not in (('lko', 'db', False), ('lko-two', 'db', True), ('lko-min', 'mem', True), ('mat', 'db', True), ('mat-min', 'mem', False)): continue
                n = 8
                for p in range(n): yield [name, be, 2, verbose, True, 1, 0, p, n]
    # more delays, coarse grained
    for name in CONFIGS:
        for be in ('mem', 'db'):
            for verbose in (True, False):
                for threads in (2, 3):
                    if q and (be == 'db' or verbose != (name == 'mat-min') or threads == 3 or name not in ('lko-two', 'mat-min')): continue
                    n = 16
                    for p in range(n): yield [name, be, threads, verbose, False, 2, 0, p, n]
    if q: return
    for name in ('lko-two', 'mat', 'lko-min'):
        for be in ('db', 'mem'):
            for verbose in (False, True):
                for p in range(64): yield [name, be, 2, verbose, False, 3, 0, p, 64]
                for p in range(64): yield [name, be, 2, verbose, True, 2, 0, p, 64]


class Boom(Exception):
    pass


def make(ctx, name, be):
    kind, prof, kw = (CONFIGS.get(name) or FAIL[name])
    if kind == 'lko':
        data = c10.table('int', prof, 1, [1, 2, 3, 4], 0)
        t = Table.load(c10.COLS, data)
        ds = ref.build(ctx, be, c10.COLS, data)
    else:
        data = c11.rows('text', (3, 3), prof, False)
        t = Table.load(c11.COLS, data)
        ds = ref.build(ctx, be, c11.COLS, data)
    if name in ('lko-min', 'mat'):      # filtered before
        ds, t = ds.select('interaction < 100'), t
    if name.endswith('boom'):
        orig = ds.select
        victim = c10.USERS['int'][1] if kind == 'lko' else c11.USERS['text'][1]

        def select(query, *a, **k):
            if repr(victim) in query: raise Boom(query)
            return orig(query, *a, **k)
        ds.select = select
    return ds, t


def one(ctx, case):
    from DRecPy.Evaluation.Splits import leave_k_out, matrix_split
    name, be, threads, verbose, fine, bound, quantum, part, nparts = case
    kind, _, kw = (CONFIGS.get(name) or FAIL[name])
    box = []

    def call():
        f = leave_k_out if kind == 'lko' else matrix_split
        return f(box[0], seed=3, max_concurrent_threads=threads, verbose=verbose, **kw)

    def setup():
        del box[:]
        box.extend(make(ctx, name, be))

    base = None
    stride = 1 if ctx.tier == 'quick' else 5 if fine and bound > 1 else 2 if bound > 2 else 1
    limit = [400000]
    n = 0
    for delays, r in sched.explore(call, bound, quantum, fine, limit, stride, (part, nparts), setup):
        n += 1
        ctx.step(r.steps)
        ctx.count('schedules')
        if r.free: ctx.count('schedules left uncontrolled')
        ctx.state((case[:7], delays))
        what = f'{name} {kw} threads={threads} verbose={verbose} backend={be} schedule: delays {delays} quantum {quantum}'
        ctx.check(r.failure is None, f'{what}: the call {r.failure} (base run: {base and base[2]} steps)', key='schedule')
        if name in FAIL:
            if name == 'lko-nots':
                ctx.check(r.error is not None, f'{what}: a failing worker was ignored: no error although the column does not exist')
                if base is None: limit[0] = r.steps * 20 + 20000
                base = base or (None, None, r.steps)
                continue
            if r.error is not None:
                ctx.check(isinstance(r.error, Boom), f'{what}: a worker failed with Boom, the split raised {r.error!r}')
                if base is None: limit[0] = r.steps * 20 + 20000
                base = base or (None, None, r.steps)
                continue
        ctx.check(r.error is None, f'{what}: raised {r.error!r}', key='schedule')
        ds, t = box
        train, test = r.value
        if base is None or n % 40 == 0:
            if kind == 'lko': c10.judge(ctx, t, train, test, kw['k'], kw.get('min_user_interactions', 0), kw.get('last_timestamps', False), what)
            else: c11.judge(ctx, t, train, test, kw['user_test_ratio'], kw['item_test_ratio'], kw.get('min_user_interactions', 0), what)
        got = (tuple(sorted(train.values_list('rid', to_list=True))), tuple(sorted(test.values_list('rid', to_list=True))))
        if base is None:
            base = got + (r.steps,)
            limit[0] = r.steps * 20 + 20000
            ctx.outcome((name, be, got))
            if (threads, quantum) != (1, 0):
                # the reference: a plain sequential run without scheduler
                setup()
                f = leave_k_out if kind == 'lko' else matrix_split
                a, b = f(box[0], seed=3, max_concurrent_threads=1, verbose=False, **kw)
                seq = (tuple(sorted(a.values_list('rid', to_list=True))), tuple(sorted(b.values_list('rid', to_list=True))))
                ctx.check(got == seq, f'{what}: train/test records {got}; one thread gives {seq}')
                box[:] = [ds, t]
        ctx.check(got == base[:2], f'{what}: train/test records {got}; the undisturbed schedule gives {base[:2]}', key='schedule')
        if n % 25 == 1:
            m = Obs.records(ds, t)
            if m: ctx.fail(f'{what}: the input dataset changed: {m}')
        del train, test, r, ds
        if n % 30 == 0: gc.collect()
    del box[:]
    gc.collect()
