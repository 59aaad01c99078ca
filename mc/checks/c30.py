"""C30: two threads on one dataset / on datasets derived from one another, on the real code under a controlled scheduler."""
import gc
import itertools
from .. import ref, sched
from .c01 import set_thresholds, restore

NEEDS = ('all',)
RULE = ('a case is (backend, housekeeping setting, program of each thread, granularity, delay bound, quantum, part of the schedule tree); every schedule of the part is executed on the real code; '
        'states counts distinct schedules, distinct_nontrivial distinct (programs, results)')
ASSUMPTIONS = ['a dataset that is changed in place is used by one thread only; reading and deriving may be done by any thread at any time',
               'scheduling points: locks, queues and sleeps, and every library line on which something shared can change (granularity "writes") or every library line; C code (pandas, one SQLite call) is atomic',
               'delay-bounded: at most the stated number of deviations from the deterministic schedules', 'the oracle is the same programs run one after the other (what they compute one after the other is decided by C01-C05)']
CHUNK = 1
CASE_LIMIT_S = 300
COLS = ['user', 'item', 'interaction', 'tag']
DATA = [(1, 10, 3.0, 'a'), (2, 10, 1.0, 'b'), (1, 20, 5.0, 'a'), (2, 30, 2.0, 'c'), (3, 30, 4.0, 'a')]


def before_import():
    sched.import_dependencies()
    sched.install()


def rows(ds): return sorted([sorted((k, str(ref.plain(v))) for k, v in r.items()) for r in ds.values_list()])


def slowly(ds):
    out = []
    for r in ds.values(['user', 'rid'], to_list=True): out.append([int(x) for x in r])
    return sorted(out)


def vec(v): return [float(x) for x in v.toarray().ravel()]


READ = {
    'values': rows, 'iterate': slowly,
    'len': len,
    'one': lambda ds: str(sorted(ds.select_one('interaction > 3', ['rid', 'tag']).items())),
    'exists': lambda ds: (bool(ds.exists('item == 10')), bool(ds.exists('item == 11'))),
    'max': lambda ds: (float(ds.max('interaction')), float(ds.min('interaction'))),
    'count': lambda ds: (int(ds.count_unique('user')), int(ds.count_unique(['user', 'item']))),
    'uvec': lambda ds: [vec(ds.select_user_interaction_vec(u)) for u in (0, 1)],
    'ivec': lambda ds: vec(ds.select_item_interaction_vec(1)),
    'ids': lambda ds: (ref.plain(ds.user_to_uid(2)), ref.plain(ds.iid_to_item(1)), ref.plain(ds.item_to_iid(30)), ref.plain(ds.uid_to_user(0))),
    'draw': lambda ds: [int(r['rid']) for r in itertools.islice(ds.select_random_generator(seed=3), 2)],
    'null': lambda ds: [tuple(map(int, p)) for p in itertools.islice(ds.null_interaction_pair_generator(seed=3), 2)],
    'select': lambda ds: rows(ds.select('user != 2').select('interaction >= 3')),
    'unique': lambda ds: sorted(str(x) for x in ds.unique('user').values_list('user', to_list=True)),
    'drop': lambda ds: rows(ds.drop([0, 2])),
    'copy': lambda ds: rows(ds.copy()),
}


def _burst(ds):
    for _ in range(4): ds.count_unique('user')


def _apply(ds): ds.apply('interaction', lambda v: v + 1)
def _select(ds): ds.select('interaction > 2', copy=False)
def _drop(ds): ds.drop([1, 2], copy=False)
def _assign(ds): ds.assign_internal_ids()
def _remove(ds): ds.remove_internal_ids()
def _close(ds): ds.close() if hasattr(ds, 'close') else None


def _derive(ds):
    t = ds.select('user != 1')
    t.apply('interaction', lambda v: v * 2)
    return rows(t)


READ['burst'] = _burst
READ['derive'] = _derive
WRITE = {'apply': _apply, 'select!': _select, 'drop!': _drop, 'assign': _assign, 'remove': _remove, 'close': _close, 'del': None}
R, W = list(READ), list(WRITE)
FAMILIES = ('copies', 'selections')


def bounds(tier):
    return {'threads': 2, 'reading operations': R, 'changing operations': W, 'programs': '1 operation each (thorough: 2 for a core)', 'delays': 1 if tier == 'quick' else '1 at every line, 2 at the lines that change something',
            'families': 'one dataset; datasets derived from one by copy or by selection (in the out-of-memory backend they share one table)'}


def pairs():
    """Programs [[operation, dataset], ...] of both threads; dataset 0 is shared and never changed, 1 and 2 belong to a thread each."""
    for a, b in itertools.combinations_with_replacement(R, 2): yield [[a, 0]], [[b, 0]]
    for a in R:
        for b in W: yield [[a, 0]], [[b, 2]]
    for a, b in itertools.combinations_with_replacement(W, 2): yield [[a, 1]], [[b, 2]]
    for a in R:
        for b in ('apply', 'select!', 'close', 'assign'): yield [[a, 1]], [[b, 2]]


HEAVY = {'burst', 'derive', 'select', 'uvec', 'draw', 'null'}


def cases(tier):
    q = tier == 'quick'
    for j, (a, b) in enumerate(pairs()):
        for be in ('db', 'mem'):
            if q and be == 'mem' and (a[0][0] in W or a[0][1] == 1): continue
            for fam in FAMILIES:
                if q and (fam == 'copies') == (j % 2 == 0): continue
                yield [be, j % 2, fam, a, b, 'writes' if q else True, 1, 0, 0, 1]
                for quantum in (1, 2, 5): yield [be, 1 - j % 2, fam, a, b, True, 0, quantum, 0, 1]
    if q: return
    for j, (a, b) in enumerate(pairs()):
        for be in ('db', 'mem'):
            if {a[0][0], b[0][0]} & HEAVY and j % 4: continue
            for p in range(8): yield [be, j % 2, FAMILIES[j % 2], a, b, 'writes', 2, 0, p, 8]
    core = ['iterate', 'uvec', 'copy', 'draw', 'count']
    for a in itertools.product(core, repeat=2):
        for b in itertools.product(('apply', 'select!', 'assign', 'close'), core):
            for be in ('db', 'mem'):
                yield [be, 1, 'copies', [[a[0], 0], [a[1], 0]], [[b[0], 2], [b[1], 0]], 'writes', 1, 0, 0, 1]


def one(ctx, case):
    import threading
    be, hk, fam, pa, pb, fine, bound, quantum, part, nparts = case
    saved = set_thresholds(hk) if be == 'db' else None
    box = []

    def setup():
        del box[:]
        base = ref.build(ctx, be, COLS, DATA)
        base.assign_internal_ids()
        d = (lambda: base.copy()) if fam == 'copies' else (lambda: base.select('interaction > 0'))
        box.extend([base, d(), d()])

    def program(prog, out):
        for op, k in prog:
            try:
                if op == 'del':
                    box[k] = None
                    out.append('deleted')
                else: out.append((READ.get(op) or WRITE[op])(box[k]))
            except Exception as e:
                out.append(f'{type(e).__name__}: {e}')

    def left(progs):
        closed = {k for p in progs for op, k in p if op in ('close', 'del')}
        out = []
        for k, ds in enumerate(box):
            if ds is None or k in closed: continue
            out.append((k, len(ds), ds.has_internal_ids, rows(ds)))
            if ds.has_internal_ids: out.append((READ['ids'](ds), [vec(ds.select_user_interaction_vec(u)) for u in sorted({int(x) for x in ds.values_list('uid', to_list=True)})]))
        return out

    def call():
        a, b = [], []
        t = threading.Thread(target=program, args=(pb, b))
        t.start()
        program(pa, a)
        t.join()
        return a, b
    try:
        setup()
        ea, eb = [], []
        program(pa, ea)
        program(pb, eb)
        want, after = (ea, eb), left((pa, pb))
        names = f'{pa} || {pb} (0: shared dataset, 1/2: derived from it) backend={be} family={fam}'
        for r in ea + eb: ctx.check(not (isinstance(r, str) and ': ' in r), f'{names}: one after the other: {r}')
        ctx.outcome((names, repr(want), repr(after)))
        base, n, limit = None, 0, [200000]
        for delays, r in sched.explore(call, bound, quantum, fine, limit, 1 if bound < 2 else 3, (part, nparts), setup):
            n += 1
            ctx.step(r.steps)
            ctx.count('schedules')
            if r.free: ctx.count('schedules left uncontrolled')
            ctx.state((repr(case[:8]), delays))
            what = f'{names} granularity={fine} schedule: delays {delays} quantum {quantum}'
            ctx.check(r.failure is None, f'{what}: {r.failure}', key='schedule')
            ctx.check(r.error is None, f'{what}: raised {r.error!r}', key='schedule')
            if base is None:
                base = r.steps
                limit[0] = r.steps * 20 + 20000
            ctx.check(r.value == want, f'{what}: returned {r.value}, one after the other {want}', key='schedule')
            now = left((pa, pb))
            ctx.check(now == after, f'{what}: afterwards {now}, one after the other {after}', key='schedule')
            if n % 30 == 0: gc.collect()
    finally:
        del box[:]
        if saved is not None: restore(saved)
        gc.collect()
