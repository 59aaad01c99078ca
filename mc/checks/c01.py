"""C01: every operation sequence up to a depth, real datasets against the plain-table model."""
import itertools
from .. import ref
from ..ref import Table, Obs, qtext

CASE_LIMIT_S = 200
RULE = ('a case is (backend, table, housekeeping setting, operation sequence); every sequence over the alphabet up to the depth; '
        'distinct_nontrivial counts distinct final model tables')
ASSUMPTIONS = ['order of values() is not part of the contract', 'min/max of an empty dataset are not compared']

TABLES = {
    'int': (['user', 'item', 'interaction', 'ts'],
            [(1, 10, 3.0, 5), (2, 10, 1.0, 3), (1, 20, 5.0, 5), (1, 10, 3.0, 5), (3, 30, 2.0, 1)]),
    'str': (['user', 'item', 'interaction', 'tag'],
            [('jack', 'ps4', 3, 'a'), ('john', 'hard drive', 4, ''), ('ann', 'ps4', 1, 'b'), ('jack', 'x', 5, 'a'),
             ('john', 'hard drive', 4, '')]),
}
Q = {'int': [[('user', '==', 1)], [('interaction', '>=', 2.5)], [('item', '!=', 10), ('rid', '<', 4)], [('ts', '>', 100)]],
     'str': [[('user', '==', 'jack')], [('interaction', '>=', 2.5)], [('item', '!=', 'ps4'), ('rid', '<', 4)], [('tag', '==', 'zz')]]}
IDQ = [('uid', '<=', 1)]

FULL = ['sel0', 'sel0!', 'sel1', 'sel1!', 'sel2!', 'sel3', 'selid', 'drop', 'keep!', 'uniq_user', 'uniq_pair!', 'uniq_all', 'copy', 'assign',
        'remove', 'read', 'burst', 'one', 'hold', 'abandon', 'agg']
CORE = ['sel0', 'sel1!', 'sel2!', 'drop', 'keep!', 'uniq_pair!', 'copy', 'assign', 'burst', 'hold']
BIG = ['b0', 'b1', 'b2', 'b3', 'b4']
BIGQ = {'b0': [('rid', '<', 900)], 'b1': [('user', '!=', 2)], 'b2': [('interaction', '>', 2)], 'b3': [('rid', '>=', 10)],
        'b4': [('item', '==', 3)]}
FAST = {'_opt_ratio_threshold': 1.1, '_opt_n_query_threshold': 1, '_opt_n_rows_threshold': 0, '_opt2_n_direct_interactions_threshold': 2}


DEEP = {'sel': ['select'], 'keep': ['drop'], 'uniq': ['unique'], 'all': ['select', 'drop', 'unique', 'select']}


def bounds(tier):
    return {'quick': {'full alphabet': [len(FULL), 'depth 3'], 'core alphabet': [len(CORE), 'depth 4'], 'big table': '6001 rows, 3 filters', 'long chains': '30 and 1100 operations'},
            'thorough': {'full alphabet': [len(FULL), 'depth 4'], 'core alphabet': [len(CORE), 'depth 5'], 'big table': '6001 rows, 4 filters', 'long chains': '30 and 1100 operations'}}[tier]


def cases(tier):
    fd, cd, bd = (3, 4, 3) if tier == 'quick' else (4, 5, 4)
    for d in range(0, cd + 1):
        for tb in TABLES:
            if d <= fd:
                for seq in itertools.product(FULL, repeat=d):
                    for be in ('mem', 'db'): yield [be, tb, 0, list(seq)]
                if d <= fd - 1:
                    for seq in itertools.product(FULL, repeat=d): yield ['db', tb, 1, list(seq)]
            else:
                for seq in itertools.product(CORE, repeat=d):
                    for be in ('mem', 'db'): yield [be, tb, 0, list(seq)]
            if d == fd:
                for seq in itertools.product(CORE, repeat=d): yield ['db', tb, 1, list(seq)]
    for d in range(1, bd + 1):
        for seq in itertools.product(BIG, repeat=d):
            for mode in ('copy', 'inplace'): yield ['db', 'big', mode, list(seq)]
    for kind in DEEP:
        for n in (30, 1100):
            for be in ('mem', 'db'):
                for held in (False, True): yield [be, 'deep', kind, [n, held]]


def set_thresholds(fast):
    from DRecPy.Dataset import DatabaseInteractionDataset as D
    saved = {}
    if fast:
        for k, v in FAST.items():
            if hasattr(D, k):
                saved[k] = getattr(D, k)
                setattr(D, k, v)
    return saved


def restore(saved):
    from DRecPy.Dataset import DatabaseInteractionDataset as D
    for k, v in saved.items(): setattr(D, k, v)


def apply_op(ctx, op, ds, t, tb, keepalive):
    """Returns (ds, t, derived_from) where derived_from is (old ds, old t) if a copy was made."""
    name, inplace = op.rstrip('!'), op.endswith('!')
    cols = t.columns
    if name.startswith('sel'):
        conds = IDQ if name == 'selid' else Q[tb][int(name[3])]
        if any(c not in cols for c, _, _ in conds):
            try:
                ds.select(qtext(conds))
            except Exception:
                return ds, t, None
            ctx.fail(f'select({qtext(conds)!r}) on columns {cols} did not raise')
        new, nt = ds.select(qtext(conds), copy=not inplace), t.select(conds)
    elif name == 'drop':
        new, nt = ds.drop([0, 4, 77]), t.drop([0, 4, 77])
    elif name == 'keep':
        new, nt = ds.drop([0, 1, 3], copy=False, keep=True), t.drop([0, 1, 3], keep=True)
    elif name == 'uniq_user':
        if 'user' not in cols: return ds, t, None
        new, nt = ds.unique('user'), t.unique('user')
    elif name == 'uniq_pair':
        if 'item' not in cols or 'interaction' not in cols: return ds, t, None
        arg = ['item', 'interaction']
        new, nt = ds.unique(arg, copy=False), t.unique(['item', 'interaction'])
        ctx.check(arg == ['item', 'interaction'], f'unique() changed the list it was given to {arg}')
    elif name == 'uniq_all':
        new, nt = ds.unique(), t.unique()
    elif name == 'copy':
        new, nt = ds.copy(), t.copy()
    elif name == 'assign':
        if 'user' not in cols or 'item' not in cols: return ds, t, None
        ds.assign_internal_ids()
        return ds, t.assign(), None
    elif name == 'remove':
        if t.ids and not ('uid' in cols and 'iid' in cols): return ds, t, None
        ds.remove_internal_ids()
        return ds, t.remove(), None
    elif name == 'read':
        m = Obs.records(ds, t)
        if m: ctx.fail(m)
        return ds, t, None
    elif name == 'agg':
        m = Obs.aggregates(ds, t)
        if m: ctx.fail(m)
        return ds, t, None
    elif name == 'burst':
        for _ in range(5): ds.values_list(cols[0], to_list=True)
        return ds, t, None
    elif name == 'one':
        c0 = cols[0]
        for v in (t.rows[0][c0] if t.rows else 'zz' if tb == 'str' and c0 in ('user', 'item', 'tag') else 0,):
            if c0 == 'rid': v = int(v)
            q = [(c0, '==', v)]
            exp = t.select(q).rows
            arg = list(cols)
            got = ds.select_one(qtext(q), columns=arg)
            ctx.check(arg == list(cols), f'select_one changed the list it was given to {arg}')
            if not exp: ctx.check(got is None, f'select_one({qtext(q)}) = {got}, expected None')
            else: ctx.check(got is not None and any(ref.same_row(cols, e, got) for e in exp), f'select_one({qtext(q)}) = {got}, expected one of {exp}')
            ctx.check(ds.exists(qtext(q)) is bool(exp), f'exists({qtext(q)}) wrong')
        return ds, t, None
    elif name in ('hold', 'abandon'):
        g = ds.values()
        first = next(iter(g), None) if not hasattr(g, '__next__') else next(g, None)
        if not t.rows: ctx.check(first is None, 'iterator of an empty dataset yielded')
        else: ctx.check(first is not None and any(ref.same_row(cols, e, first) for e in t.rows), f'iterator yielded {first}')
        if name == 'hold': keepalive.append(g)
        return ds, t, None
    else:
        raise ValueError(op)
    if inplace:
        ctx.check(new is ds, f'{op}: in-place operation returned another object')
        return ds, nt, None
    ctx.check(new is not ds, f'{op}: copying operation returned the same object')
    return new, nt, (ds, t)


def observe(ctx, ds, t, deep=True):
    m = Obs.records(ds, t)
    if not m and deep: m = Obs.lists(ds, t, list(reversed(t.columns))) or Obs.lists(ds, t, t.columns[0])
    if not m and deep: m = Obs.lists(ds, t, None)
    if not m and deep: m = Obs.aggregates(ds, t)
    if not m and deep:
        cs = [c for c in t.columns if c != 'rid'][:2]
        n = ds.count_unique(cs)
        exp = len(t.unique(cs).rows)
        if n != exp: m = f'count_unique({cs}) = {n}, expected {exp}'
        n, exp = ds.count_unique(), len(t.unique().rows)
        if not m and n != exp: m = f'count_unique() = {n}, expected {exp}'
    if not m and deep: m = Obs.records(ds, t, 'values after reads')
    if not m and str(len(t.rows)) not in str(ds): m = f'str() does not show the number of rows {len(t.rows)}: {ds}'
    if m: ctx.fail(m)


def one(ctx, case):
    be, tb, fast, seq = case
    if tb == 'big': return big(ctx, fast, seq)
    if tb == 'deep': return deep(ctx, be, fast, *seq)
    columns, data = TABLES[tb]
    saved = set_thresholds(fast)
    try:
        ds = ref.build(ctx, be, columns, data)
        t = Table.load(columns, data)
        chain, keep = [], []
        ctx.state(t.canon())
        for op in seq:
            ds, t, old = apply_op(ctx, op, ds, t, tb, keep)
            if old: chain.append(old)
            ctx.step()
            ctx.state((be, t.canon()))
        observe(ctx, ds, t)
        for old_ds, old_t in reversed(chain): observe(ctx, old_ds, old_t, deep=False)
        ctx.outcome(t.canon())
        del keep[:]
    finally:
        restore(saved)


def deep(ctx, be, kind, n, held):
    """Long chains of operations: n operations in turn in place and on copies, with or without a half-read iterator."""
    columns, data = TABLES['int']
    data = data * 3
    ds, t = ref.build(ctx, be, columns, data), Table.load(columns, data)
    first, t0 = ds, t.copy()
    gens = []
    ops = DEEP[kind]
    for k in range(n):
        op, copy = ops[k % len(ops)], k % 3 == 0
        if held and k % 50 == 10:
            gens.append((ds.values(), [dict(r) for r in t.rows]))
            next(gens[-1][0])
        if op == 'select':
            q = [('rid', '!=', k // 4)] if k % 100 == 0 else [('interaction', '>', 0.5)]
            ds, t = ds.select(qtext(q), copy=copy), t.select(q)
        elif op == 'drop':
            rids = [k // 50, 1000 + k]
            if len(t.rows) < 4: rids = [1000 + k]
            ds, t = ds.drop(rids, copy=copy), t.drop(rids)
        elif op == 'unique':
            cols = None if k % 2 else columns[:3]
            ds, t = ds.unique(cols, copy=copy), t.unique(cols)
        ctx.step()
        if k % 97 == 0 or k == n - 1:
            m = Obs.records(ds, t)
            if m: ctx.fail(f'after {k + 1} operations: {m}')
            ctx.state((kind, t.canon()))
    for g, rows in gens:
        left = list(g)
        ctx.check(len(left) == len(rows) - 1 and all(any(ref.same_row(list(e), e, r) for e in rows) for r in left), f'a half-read iterator yielded {len(left)} records, expected {len(rows) - 1}')
    m = Obs.records(first, t0)      # the first operation was done on a copy
    if m: ctx.fail(m)
    observe(ctx, ds, t)
    ctx.outcome(t.canon())


_big = None


def big(ctx, mode, seq):
    global _big
    columns = ['user', 'item', 'interaction']
    if _big is None:
        data = [(i % 7, i % 11, float(i % 5 + 1)) for i in range(6001)]
        path = ctx.path('big.csv')
        ref.write_csv(path, data)
        _big = (data, path)
    data, path = _big
    ds = ref.load('db', path, columns)
    rows = Table.load(columns, data).rows
    base, base_n = ds, len(rows)
    from ..ref import OPS
    for op in seq:
        ds = ds.select(qtext(BIGQ[op]), copy=(mode == 'copy'))
        rows = [r for r in rows if all(OPS[o](r[c], v) for c, o, v in BIGQ[op])]
        ctx.step()
        ctx.check(len(ds) == len(rows), f'after {op}: {len(ds)} rows, expected {len(rows)}')
    t = Table(columns + ['rid'], rows)
    m = Obs.records(ds, t) or Obs.aggregates(ds, t) or Obs.records(ds, t)
    if m: ctx.fail(m)
    if mode == 'copy':
        ctx.check(len(base) == base_n and base.count_unique('rid') == base_n, 'the original dataset changed')
    ctx.outcome((seq, len(rows)))
