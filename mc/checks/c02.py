"""C02: the query grammar, exhaustively over boundary literals, against Python predicates."""
import itertools
from .. import ref
from ..ref import Table, Obs

RULE = ('a case is (backend, table, ids assigned?, filtered before?, first condition); inside, every second condition is joined and chained; '
        'distinct_nontrivial counts distinct (table, selected record ids) results')
ASSUMPTIONS = ['comparing a text column with a number (or vice versa) is outside the property', 'columns of one value type']
CHUNK = 2

BIG = 2 ** 53
TABLES = {
    'int': (['user', 'item', 'interaction', 'ts', 'tag'],
            [(1, 10, 3.5, BIG, 'a'), (2, 10, -1.0, BIG + 1, 'b c'), (1, 20, 5.25, 0, 'a'), (-3, 30, 0.5, -7, 'B'), (10, 7, 3.5, BIG + 2, 'a,b'),
             (2, 20, 2.0, 3, 'user')]),
    'str': (['user', 'item', 'interaction', 'note'],
            [('jack', 'hard drive', 3, 'x'), ('zed', "o'neil", 4, 'it is, ok'), ('ann', 'user', 1, 'x'), ('Bob', 'a,b', 5, 'item'),
             ('jack', 'say "hi"', 4, 'note'), ('zed', 'user', 2, "'"), ('\u00e9lan', '10a', 2, 'y')]),
    'one': (['user', 'item', 'interaction'], [(5, 5, 5)]),
}
LITS = {
    'int': {'user': [-3, 0, 1, 1.5, 2, 10, 11], 'item': [6, 7, 10, 20.0, 25, 30], 'interaction': [-1.0, 0, 0.5, 3.5, 3.49, 5.25, 6, 2, 1e-05, 1e+16],
            'ts': [-7, 0, BIG, BIG + 1, BIG + 2, 3, 2.5], 'tag': ['a', 'A', 'a,b', 'b c', 'user', 'zz', ''], 'rid': [-1, 0, 3, 5, 6],
            'uid': [-1, 0, 1, 3], 'iid': [0, 2, 9]},
    'str': {'user': ['jack', 'zed', 'ann', 'Bob', 'missing', 'm', '\u00e9lan'],
            'item': ['hard drive', "o'neil", 'user', 'a,b', 'say "hi"', 'item', 'hard', '10a', 'back\\slash'],
            'interaction': [0, 1, 2, 2.5, 4, 5], 'note': ['x', 'it is, ok', 'item', 'note', "'", '"', 'it is', ''], 'rid': [0, 4], 'uid': [0, 2], 'iid': [1]},
    'one': {'user': [4, 5, 6], 'item': [5], 'interaction': [4.5, 5, 5.5], 'rid': [0, 1], 'uid': [0], 'iid': [0]},
}
OPERS = ['>', '>=', '<', '<=', '==', '!=']


def conds(tb, ids, sub=False):
    out = []
    for c, ls in LITS[tb].items():
        if c in ('uid', 'iid') and not ids: continue
        if sub: ls = ls[:: max(1, len(ls) // 2)]
        for o in OPERS:
            for v in ls: out.append((c, o, v))
    return out


def bounds(tier):
    return {'conditions': {tb: len(conds(tb, True)) for tb in TABLES}, 'second conditions': 'sub-alphabet' if tier == 'quick' else 'all',
            'longer queries': 'every triple of the core conditions, one query each of 4..12 conditions per table'}


def cases(tier):
    for tb in TABLES:
        for be in ('mem', 'db'):
            for ids in (0, 1):
                for pre in (0, 1, 2):
                    yield [be, tb, ids, pre, None]
                    if pre and tier == 'quick': continue
                    for c in conds(tb, ids, sub=tier == 'quick'): yield [be, tb, ids, pre, list(c)]


def texts(cs):
    yield ref.qtext(cs)
    if all(not isinstance(v, str) or not ('"' in v or '\\' in v) for _, _, v in cs):
        yield ','.join(f'{c} {o} "{v}"' if isinstance(v, str) else f'{c} {o} {v!r}' for c, o, v in cs)


def verify(ctx, ds, t, cs, qs, full=True):
    exp = t.select(cs)
    rids = [r['rid'] for r in exp.rows]
    for q in qs:
        ctx.step()
        got = ds.select(q)
        if len(got) != len(rids) or sorted(got.values_list('rid', to_list=True)) != rids:
            ctx.fail(f'select({q!r}) kept records {sorted(got.values_list("rid", to_list=True))} (len {len(got)}), expected {rids}')
        if full:
            m = Obs.records(got, exp)
            if m: ctx.fail(f'select({q!r}): {m}')
        one = ds.select_one(q)
        if not rids: ctx.check(one is None, f'select_one({q!r}) = {one}, expected None')
        else: ctx.check(one is not None and any(ref.same_row(t.columns, r, one) for r in exp.rows), f'select_one({q!r}) = {one}, expected one of {exp.rows}')
        e = ds.exists(q)
        ctx.check(bool(e) == bool(rids), f'exists({q!r}) = {e}, expected {bool(rids)}')
    ctx.outcome((t.columns, rids))
    return exp


BAD = ['nope == 1', 'interaction = 1', 'interaction <> 1', 'interaction => 1', 'interaction ~ 1', 'interaction in 1', 'interaction', 'interaction ==',
       'interaction > 1, nope < 2', 'interaction > 1, interaction ! 2', '']


def one(ctx, case):
    be, tb, ids, pre, first = case
    columns, data = TABLES[tb]
    ds, t = ref.build(ctx, be, columns, data), Table.load(columns, data)
    if ids: ds, t = assign(ds, t)
    if pre == 1: ds, t = ds.select('rid >= 0'), t.select([('rid', '>=', 0)])
    if pre == 2:
        ds = ds.select('rid >= 1').select('rid != 3')
        t = t.select([('rid', '>=', 1), ('rid', '!=', 3)])
    ctx.state((be, t.canon()))
    if first is None:
        for c in conds(tb, ids): verify(ctx, ds, t, [c], texts([c]))
        core = [(c, o, v) for c in columns + ['rid'] for o in ('!=', '>=', '<') for v in LITS[tb][c][1:2]]
        for cs in itertools.permutations(core, 3):
            if sum(o == '!=' for _, o, _ in cs) > 1 and len(core) > 12 and ctx.tier == 'quick': continue
            verify(ctx, ds, t, list(cs), [ref.qtext(cs)], full=False)
        some = [(c, '!=', v) for c in columns + ['rid'] for v in LITS[tb][c]]
        for n in range(4, 13):        # the last condition of each is the one that matters most
            for o in range(0, len(some), 3):
                cs = (some[o:] + some[:o])[:n]
                verify(ctx, ds, t, cs, [ref.qtext(cs)], full=False)
        for q in BAD + ([] if ids else ['uid == 0', 'iid == 0']):
            for what in ('select', 'select_one', 'exists'):
                try:
                    r = getattr(ds, what)(q)
                except Exception:
                    continue
                ctx.fail(f'{what}({q!r}) did not raise but returned {r}')
        m = Obs.records(ds, t)
        if m: ctx.fail(f'the dataset changed: {m}')
        return
    first = tuple(first)
    base = ds.select(ref.qtext([first]))
    bt = t.select([first])
    for c in conds(tb, ids, sub=ctx.tier == 'quick'):
        joined = [first, c]
        verify(ctx, ds, t, joined, [ref.qtext(joined)], full=False)
        verify(ctx, base, bt, [c], [ref.qtext([c])], full=False)
    # in place, chained
    ip = ds.copy()
    r = ip.select(ref.qtext([first]), copy=False)
    ctx.check(r is ip, 'select(copy=False) returned another object')
    m = Obs.records(ip, bt) or Obs.records(ds, t)
    if m: ctx.fail(m)


def assign(ds, t):
    ds.assign_internal_ids()
    return ds, t.assign()
