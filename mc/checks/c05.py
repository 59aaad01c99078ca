"""C05: interaction vectors after every sequence of reads and mutations."""
import itertools
from .. import ref
from ..ref import Table, Obs, qtext
from .c03 import vecs

RULE = ('a case is (backend, cache limit, table, sequence of mutations and vector reads); every vector of every live dataset is recomputed from the '
        'model table after the sequence; distinct_nontrivial counts distinct final tables')
ASSUMPTIONS = ['vectors of ids no longer present are not compared']
COLS = ['user', 'item', 'interaction']
TABLES = {
    'a': [(1, 10, 3), (1, 20, 5), (2, 10, 1), (3, 30, 2), (2, 30, 4), (1, 10, 2)],
    'single': [(4, 10, 3), (4, 20, 1), (4, 30, 2.5)],
    'oneitem': [('a', 'x', 3.0), ('b', 'x', 1.0), ('c', 'x', 0.5)],
}
OPS = ['vec', 'vec1', 'add', 'half', 'su!', 'si!', 'drop!', 'sv!', 'copy', 'su', 'assign', 'reassign', 'burst', 'uniq!', 'read']
CORE = ['vec', 'add', 'su!', 'drop!', 'copy', 'assign', 'burst']


WIDE = (1, 127, 128, 129, 257)  # the id counts at which the storage of small integers changes


def bounds(tier):
    return {'full': [len(OPS), 3 if tier == 'quick' else 4], 'core': [len(CORE), 4 if tier == 'quick' else 5], 'wide tables': 'every pair of %s users and items' % (WIDE,), 'small tables': 'all 2x3 matrices over {none, 1, 2.5} plus duplicates'}


def cases(tier):
    fd, cd = (3, 4) if tier == 'quick' else (4, 5)
    for cells in itertools.product((None, 1, 2.5), repeat=6):
        if any(c is not None for c in cells):
            for be in ('mem', 'db'): yield [be, None, ['m'] + list(cells), []]
    for nu, ni in itertools.product(WIDE, repeat=2):
        for be in ('mem', 'db'): yield [be, 100, ['w', nu, ni], ['vec', 'half', 'sw', 'assign', 'add']]
    for d in range(1, cd + 1):
        for seq in itertools.product(OPS if d <= fd else CORE, repeat=d):
            if 'vec' not in seq and 'vec1' not in seq: continue
            for tb in TABLES if d < fd else ('a',):
                for be, lim in (('mem', None), ('db', None), ('db', 0), ('db', 1)):
                    if d >= fd and lim == 0: continue
                    yield [be, lim, tb, list(seq)]


def one(ctx, case):
    be, lim, tb, seq = case
    if isinstance(tb, list) and tb[0] == 'w':
        data = [(k % tb[1] * 7919 % 10007, k % tb[2] * 104729 % 10009, 1.0 + k % 5) for k in range(max(tb[1:]) + 3)]
    elif isinstance(tb, list):
        data = [(2 - i // 3, 30 - 10 * (i % 3), v) for i, v in enumerate(tb[1:]) if v is not None]
        data += data[:1]
    else: data = TABLES[tb]
    kw = {} if lim is None else {'user_vec_cache_limit': lim, 'item_vec_cache_limit': lim}
    ds, t = ref.build(ctx, be, COLS, data, **kw), Table.load(COLS, data)
    ds.assign_internal_ids()
    t = t.assign()
    us, its = [r['user'] for r in t.rows], [r['item'] for r in t.rows]
    q = {'su': [('user', '!=', us[0])] if len(set(us)) > 1 else [('interaction', '>', 2)], 'si': [('item', '!=', its[0])] if len(set(its)) > 1 else [('rid', '>', 0)],
         'sv': [('interaction', '>=', 2)], 'sw': [('rid', '>', len(data) // 2)]}
    live = []
    for op in seq:
        name = op.rstrip('!')
        ctx.step()
        if name == 'vec':
            m = vecs(ds, t)
            if m: ctx.fail(m)
        elif name == 'vec1':
            if t.rows:
                a = ds.select_user_interaction_vec(t.rows[-1]['uid']).toarray().ravel()
                b = ds.select_item_interaction_vec(t.rows[-1]['iid']).toarray().ravel()
                ctx.check(a[t.rows[-1]['iid']] == b[t.rows[-1]['uid']], f'user and item vector disagree: {a}, {b}')
        elif name in ('add', 'half'):
            fn = (lambda v: v + 1) if name == 'add' else (lambda v: v / 4)
            if t.rows:
                ds.apply('interaction', fn)
                t = t.apply('interaction', fn)
        elif name in q:
            if not op.endswith('!'): live.append((ds, t))
            ds, t = ds.select(qtext(q[name]), copy=not op.endswith('!')), t.select(q[name])
        elif name == 'drop': ds, t = ds.drop([0, 2], copy=False), t.drop([0, 2])
        elif name == 'copy':
            live.append((ds, t))
            ds, t = ds.copy(), t.copy()
        elif name == 'assign':
            ds.assign_internal_ids()
            t = t.assign()
        elif name == 'reassign':
            ds.remove_internal_ids()
            ds.assign_internal_ids()
            t = t.remove().assign()
        elif name == 'burst':
            for _ in range(5): ds.count_unique('iid')
        elif name == 'uniq':
            c = ['uid', 'iid', 'user', 'item', 'interaction']
            ds, t = ds.unique(c, copy=False), t.unique(c)
        elif name == 'read': ds.values_list()
        ctx.state((be, t.canon()))
    for d, tt in [(ds, t)] + live[::-1]:
        m = vecs(d, tt) or vecs(d, tt) or Obs.records(d, tt)
        if m: ctx.fail(m)
    ctx.outcome(t.canon())
