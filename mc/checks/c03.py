"""C03: every interleaving of operations over a family of datasets derived from one another; each live dataset is compared
with its own model."""
import gc
import itertools
from .. import ref
from ..ref import Table, Obs, qtext
from .c01 import set_thresholds, restore

RULE = ('a case is (backend, ids assigned at start?, housekeeping setting, sequence of (operation, dataset) pairs); after the last step every live '
        'dataset is compared with its own plain table; distinct_nontrivial counts distinct tuples of final model tables')
ASSUMPTIONS = ['operations on closed datasets are outside the property', 'an iterator must deliver the records of its creation unless its own dataset changed or closed']

COLUMNS = ['user', 'item', 'interaction', 'tag']
DATA = [(1, 10, 3.0, 'a'), (2, 10, 1.0, 'b'), (1, 20, 5.0, 'a'), (2, 30, 2.0, 'c'), (3, 30, 4.0, 'a')]
QS = {'selu': [('user', '!=', 2)], 'seli': [('interaction', '>=', 2)], 'selr': [('rid', '>', 1)]}
DERIVE = ['copy', 'selu', 'drop', 'uniq']
MUT = ['seli!', 'drop!', 'add', 'text', 'assign', 'remove', 'vec', 'burst', 'hold', 'abandon', 'close', 'del']
CORE_D = ['copy', 'selu']
CORE_M = ['selr!', 'add', 'assign', 'vec', 'burst', 'hold', 'close']
MAXLIVE = 3


def seqs(derive, mut, depth):
    """All well-formed sequences: operations address live slots; the first operation derives."""
    def rec(prefix, live, n):
        if len(prefix) == depth:
            yield list(prefix)
            return
        if n < MAXLIVE:
            for d in derive:
                for s in live: yield from rec(prefix + [[d, s]], live + [n], n + 1)
        if prefix:
            for m in mut:
                for s in live:
                    if m in ('close', 'del'):
                        if len(live) == 1: continue
                        yield from rec(prefix + [[m, s]], [x for x in live if x != s], n)
                    else:
                        yield from rec(prefix + [[m, s]], live, n)
    yield from rec([], [0], 1)


def bounds(tier):
    return {'quick': {'datasets': MAXLIVE, 'full alphabet': [len(DERIVE) + len(MUT), 'depth 3'], 'core alphabet': [len(CORE_D) + len(CORE_M), 'depth 4']},
            'thorough': {'datasets': MAXLIVE, 'full alphabet': [len(DERIVE) + len(MUT), 'depth 4'], 'core alphabet': [len(CORE_D) + len(CORE_M), 'depth 5']}}[tier]


def cases(tier):
    fd, cd = (3, 4) if tier == 'quick' else (4, 5)
    for d in range(1, cd + 1):
        for s in seqs(DERIVE, MUT, d) if d <= fd else seqs(CORE_D, CORE_M, d):
            for ids in (1, 0):
                if d > fd and not ids and tier == 'quick': continue
                yield ['db', ids, 0, s]
                if d < fd or d == fd and ids:
                    yield ['mem', ids, 0, s]
                    yield ['db', ids, 1, s]


class Inst:
    def __init__(self, ds, t):
        self.ds, self.t, self.held = ds, t, []


def vecs(ds, t):
    """None or a message; compares every interaction vector."""
    if not t.ids or not {'uid', 'iid', 'interaction'} <= set(t.columns): return None
    if any(isinstance(r['interaction'], str) for r in t.rows): return None
    for key, other, fn in (('uid', 'iid', ds.select_user_interaction_vec), ('iid', 'uid', ds.select_item_interaction_vec)):
        top = max([r[other] for r in t.rows], default=-1)
        for k in sorted({r[key] for r in t.rows}):
            exp = {}
            for r in t.rows:
                if r[key] == k: exp[r[other]] = exp.get(r[other], 0.0) + float(r['interaction'])
            got = fn(k).toarray().ravel().tolist()
            if len(got) <= top: return f'{fn.__name__}({k}) has length {len(got)}, but {other} {top} exists'
            want = [exp.get(j, 0.0) for j in range(len(got))]
            if any(abs(a - b) > 1e-9 for a, b in zip(got, want)): return f'{fn.__name__}({k}) = {got}, expected {want}'
    return None


def idcheck(ds, t):
    if not t.ids or not {'user', 'item', 'uid', 'iid'} <= set(t.columns): return None
    for raw, key, to, back in (('user', 'uid', ds.user_to_uid, ds.uid_to_user), ('item', 'iid', ds.item_to_iid, ds.iid_to_item)):
        for v, k in {(r[raw], r[key]) for r in t.rows}:
            if not ref.same(k, to(v), True): return f'{to.__name__}({v!r}) = {to(v)!r}, expected {k}'
            if not ref.same(v, back(k), True): return f'{back.__name__}({k}) = {back(k)!r}, expected {v!r}'
    return None


def perform(ctx, insts, op, slot):
    it = insts[slot]
    ds, t = it.ds, it.t
    name, inplace = op.rstrip('!'), op.endswith('!')
    cols = set(t.columns)
    if name in QS or name in ('drop', 'copy', 'uniq'):
        if name in QS:
            if any(c not in cols or any(isinstance(r[c], str) for r in t.rows) for c, _, _ in QS[name]): return
            new, nt = ds.select(qtext(QS[name]), copy=not inplace), t.select(QS[name])
        elif name == 'drop': new, nt = ds.drop([0, 3], copy=not inplace), t.drop([0, 3])
        elif name == 'uniq':
            c = [x for x in ('user', 'item', 'interaction', 'uid', 'iid') if x in cols]
            new, nt = ds.unique(c), t.unique(c)
        else: new, nt = ds.copy(), t.copy()
        if inplace:
            it.t = nt
            it.held = []
        else: insts[len(insts)] = Inst(new, nt)
        return
    if name in ('add', 'text'):
        if 'interaction' not in cols or not t.rows: return
        fn = (lambda v: v + 1 if not isinstance(v, str) else v + '1') if name == 'add' else (lambda v: f't{v}')
        if name == 'text' and any(isinstance(r['interaction'], str) for r in t.rows): return
        vals = [r['interaction'] for r in sorted(ds.values_list(), key=lambda r: r['rid'])]
        ds.apply('interaction', fn)
        it.t = t.copy()
        for r, v in zip(it.t.rows, vals): r['interaction'] = fn(ref.plain(v))
        it.held = []
    elif name == 'assign':
        if not {'user', 'item'} <= cols: return
        ds.assign_internal_ids()
        it.t = t.assign()
        it.held = []
    elif name == 'remove':
        if t.ids and not {'uid', 'iid'} <= cols: return
        ds.remove_internal_ids()
        it.t = t.remove()
        it.held = []
    elif name == 'vec':
        m = vecs(ds, t)
        if m: ctx.fail(m)
    elif name == 'burst':
        for _ in range(5): ds.count_unique('rid') if hasattr(ds, 'count_unique') else len(ds)
    elif name in ('hold', 'abandon'):
        g = ds.values()
        first = next(g, None)
        if name == 'hold' and t.rows: it.held.append((g, first, t))
    elif name in ('close', 'del'):
        if name == 'close' and hasattr(ds, 'close'): ds.close()
        del insts[slot]
        insts[slot] = None
        it.ds = ds = None
        gc.collect(0)
    else:
        raise ValueError(op)


def one(ctx, case):
    be, ids, fast, seq = case
    saved = set_thresholds(fast)
    try:
        ds, t = ref.build(ctx, be, COLUMNS, DATA), Table.load(COLUMNS, DATA)
        if ids:
            ds.assign_internal_ids()
            t = t.assign()
        insts = {0: Inst(ds, t)}
        del ds
        for op, slot in seq:
            perform(ctx, insts, op, slot)
            ctx.step()
            ctx.state((be, tuple(x and x.t.canon() for x in insts.values())))
        for slot, it in insts.items():
            if it is None: continue
            for g, first, ht in it.held:
                rows = [first] + list(g)
                if len(rows) != len(ht.rows): ctx.fail(f'an iterator over dataset {slot} yielded {len(rows)} of {len(ht.rows)} records')
                for e, r in zip(ht.rows, sorted(rows, key=lambda r: r['rid'])):
                    if not ref.same_row(ht.columns, e, r): ctx.fail(f'an iterator over dataset {slot} yielded {r}, expected {e}')
        for rnd in range(2):
            for slot, it in insts.items():
                if it is None: continue
                m = Obs.records(it.ds, it.t) or idcheck(it.ds, it.t) or vecs(it.ds, it.t)
                if m: ctx.fail(f'dataset {slot} (of {len(insts)}): {m}')
        ctx.outcome(tuple(x and x.t.canon() for x in insts.values()))
    finally:
        restore(saved)
