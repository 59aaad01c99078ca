"""C04: internal ids on every small table and after every filter/assign/remove history."""
import itertools
from .. import ref
from ..ref import Table, Obs, qtext

RULE = ('a case is (backend, id type, list of (user, item) records) for every table up to 4 records over 3x3 ids, or (backend, id type, history) '
        'over a 6-record table; distinct_nontrivial counts distinct id assignments')
ASSUMPTIONS = ['lookups of raw ids filtered away after the assignment may give None or the assigned id']
RAW = {'int': ([7, 2, 5], [30, 10, 20]), 'str': (['zoe', 'al b', '7'], ['x,1', "d'or", 'y'])}
RAW['str'] = (['zoe', 'al b', 'q7'], ['x1', "d'or", 'y'])
HIST = [('zoe', 'x1'), ('al b', 'y'), ('zoe', 'y'), ('q7', 'x1'), ('al b', "d'or"), ('q7', 'y')]
OPS = ['su!', 'si!', 'sr!', 'drop!', 'keep', 'su', 'assign', 'remove', 'copy', 'burst', 'hold']
WIDE = (1, 127, 128, 129, 256, 257)  # the id counts at which the storage of small integers changes
OPSQ = ['su!', 'si!', 'drop!', 'su', 'assign', 'remove', 'copy', 'burst']


def bounds(tier):
    return {'tables': 'all of up to %d records over 3 users x 3 items' % (4 if tier == 'quick' else 5), 'histories': 'depth %d' % (4 if tier == 'quick' else 5),
            'wide tables': 'every pair of %s users and items' % (WIDE,)}


def cases(tier):
    for nu, ni in itertools.product(WIDE, repeat=2):
        for be in ('mem', 'db'): yield ['w', be, 'int' if (nu + ni) % 2 else 'str', [nu, ni]]
    nmax, hd = (4, 4) if tier == 'quick' else (5, 5)
    for n in range(1, nmax + 1):
        for rows in itertools.product(range(9), repeat=n):
            if n == nmax and tier == 'quick' and len(set(rows)) < n - 1: continue   # at most one duplicate at the top size
            for be in ('mem', 'db'):
                for ty in ('int', 'str') if n < nmax else (('int',) if sum(rows) % 2 else ('str',)):
                    yield ['t', be, ty, list(rows)]
    for d in range(1, hd + 1):
        for seq in itertools.product(OPS if d < hd else OPSQ, repeat=d):
            if 'assign' not in seq: continue
            for be in ('mem', 'db'):
                for ty in ('int', 'str') if d < hd else ('int',): yield ['h', be, ty, list(seq)]


def check_ids(ctx, ds, t, exact):
    ctx.check(bool(ds.has_internal_ids) == t.ids, f'has_internal_ids = {ds.has_internal_ids}, expected {t.ids}')
    m = Obs.records(ds, t)
    if m: ctx.fail(m)
    fns = ((ds.user_to_uid, ds.uid_to_user, 'user', 'uid', t.umap), (ds.item_to_iid, ds.iid_to_item, 'item', 'iid', t.imap))
    if not t.ids:
        for to, back, raw, key, _ in fns:
            for f, a in ((to, t.rows[0][raw] if t.rows else 1), (back, 0)):
                try: r = f(a)
                except Exception: continue
                ctx.fail(f'{f.__name__}({a!r}) without internal ids returned {r!r} instead of raising')
        return
    for to, back, raw, key, mp in fns:
        present = {r[raw]: r[key] for r in t.rows}
        for v, k in present.items():
            g = to(v)
            if not ref.same(k, g, True): ctx.fail(f'{to.__name__}({v!r}) = {g!r}, expected {k}')
            g = back(k)
            if not ref.same(v, g, True): ctx.fail(f'{back.__name__}({k}) = {g!r}, expected {v!r}')
        unknown = ['nobody', ''] if any(isinstance(v, str) for v in mp) else [-1, 999, 0]
        for v in unknown:
            g = to(v)
            if g is not None: ctx.fail(f'{to.__name__}({v!r}) = {g!r} for an unknown id, expected None')
        for k in (-1, len(mp), len(mp) + 5):
            g = back(k)
            if g is not None: ctx.fail(f'{back.__name__}({k}) = {g!r} for an unknown id, expected None')
        inv = {k: v for v, k in mp.items()}
        for v, k in mp.items():
            if v in present: continue
            g, b = to(v), back(k)
            if g is not None and g != k or b is not None and b != v: ctx.fail(f'lookups of filtered id {v!r}: {g!r}, {b!r}')
            if exact: ctx.fail('model error')


def one(ctx, case):
    kind, be, ty, arg = case
    us, its = RAW[ty]
    if kind == 't':
        data = [(us[c // 3], its[c % 3], 1.0 + i) for i, c in enumerate(arg)]
        ds, t = ref.build(ctx, be, ['user', 'item', 'interaction'], data), Table.load(['user', 'item', 'interaction'], data)
        check_ids(ctx, ds, t, True)
        ds.assign_internal_ids()
        t = t.assign()
        check_ids(ctx, ds, t, True)
        ctx.step(2)
        ctx.state(t.canon())
        ctx.outcome((tuple((r['uid'], r['iid']) for r in t.rows)))
        return
    if kind == 'w': return wide(ctx, be, ty, *arg)
    conv_u, conv_i = dict(zip(RAW['str'][0], us)), dict(zip(RAW['str'][1], its))
    data = [(conv_u[u], conv_i[i], 1.0 + n) for n, (u, i) in enumerate(HIST)]
    q = {'su': [('user', '!=', us[0])], 'si': [('item', '==', its[2])], 'sr': [('rid', '>', 0), ('interaction', '<', 6)]}
    ds, t = ref.build(ctx, be, ['user', 'item', 'interaction'], data), Table.load(['user', 'item', 'interaction'], data)
    keep = []
    for op in arg:
        name = op.rstrip('!')
        ctx.step()
        if name in q:
            old = (ds, t)
            ds, t = ds.select(qtext(q[name]), copy=not op.endswith('!')), t.select(q[name])
            if not op.endswith('!'): keep.append(old)
        elif name == 'drop': ds, t = ds.drop([1, 2], copy=False), t.drop([1, 2])
        elif name == 'keep':
            keep.append((ds, t))
            ds, t = ds.drop([0, 3, 5], keep=True), t.drop([0, 3, 5], keep=True)
        elif name == 'assign':
            ds.assign_internal_ids()
            t = t.assign()
        elif name == 'remove':
            ds.remove_internal_ids()
            t = t.remove()
        elif name == 'copy':
            keep.append((ds, t))
            ds, t = ds.copy(), t.copy()
        elif name == 'burst':
            for _ in range(5): ds.count_unique('user')
        elif name == 'hold':
            g = ds.values()
            next(g, None)
            keep.append(g)
        ctx.state((be, t.canon()))
    check_ids(ctx, ds, t, False)
    for k in keep:
        if isinstance(k, tuple): check_ids(ctx, k[0], k[1], False)
    ctx.outcome((tuple((r.get('uid'), r.get('iid')) for r in t.rows)))


def wide(ctx, be, ty, nu, ni):
    """Each user and item appears (several times if there are more of the others), in no particular order of raw ids."""
    name = (lambda v: v) if ty == 'int' else (lambda v: f'n{v}')
    data = [(name(1000 + k % nu * 7919 % 10007), name(1000 + k % ni * 104729 % 10009), 1.0 + k % 5) for k in range(max(nu, ni) + 3)]
    cols = ['user', 'item', 'interaction']
    ds, t = ref.build(ctx, be, cols, data), Table.load(cols, data)
    for step in ('assign', 'half', 'assign'):
        ctx.step()
        if step == 'assign':
            ds.assign_internal_ids()
            t = t.assign()
        else:
            q = [('rid', '>=', len(data) // 2)]
            ds, t = ds.select(qtext(q)), t.select(q)
        check_ids(ctx, ds, t, False)
        for col, n in (('uid', nu), ('iid', ni)):
            for op, v in (('==', n - 1), ('>=', n // 2), ('<', n - 1), ('!=', 0), ('<=', n + 300), ('>', 126)):
                q = [(col, op, v)]
                a, b = [r['rid'] for r in ds.select(qtext(q)).values_list()], [r['rid'] for r in t.select(q).rows]
                ctx.check(sorted(a) == sorted(b), f'{nu} users, {ni} items: {qtext(q)} keeps the records {a}, expected {b}')
            got = ds.max(col), ds.min(col), ds.count_unique(col)
            ids = [r[col] for r in t.rows]
            ctx.check(got == (max(ids), min(ids), len(set(ids))), f'{nu} users, {ni} items: max, min and count_unique of {col} are {got}')
        ctx.state((be, step, nu, ni))
    ctx.outcome((nu, ni))
