"""C06: every save/load history up to a depth against the plain-table model."""
import csv
import gc
import itertools
import os
import sqlite3
import zlib
from .. import ref
from ..ref import Table, Obs, qtext

RULE = ('a case is (backend, table, operations before, format, column selection, header, loader, operations after, second generation, chunk size); '
        'distinct_nontrivial counts distinct (saved content, format) pairs')
ASSUMPTIONS = ['text values without line breaks, text columns whose values do not look like numbers', 'an empty dataset is only saved to sqlite']
T = {
    'int': (['user', 'item', 'interaction', 'ts', 'tag'],
            [(1, 10, 3.0, 5, 'a'), (2, 10, 1.5, 3, 'b, c'), (1, 20, 5.0, 9, 'say "x"'), (3, 30, 2.0, 1, "it's"), (2, 20, 0.1, 7, ' sp ')]),
    'str': (['user', 'item', 'interaction', 'tag'],
            [('jack', 'hard drive', 3, 'x'), ('o\'neil', 'a,b', 4, ''), ('ann', 'say "hi"', 1, 'y z'), ('jack', 'x', 5, 'x'), ('z\u00e9', 'a,b', 2, '')]),
}
Q = {'int': {'su': [('user', '==', 1)], 'sr': [('interaction', '>', 1), ('rid', '!=', 2)], 'si': [('item', '>', 10)]},
     'str': {'su': [('user', '==', 'jack')], 'sr': [('interaction', '>', 1), ('rid', '!=', 2)], 'si': [('item', '!=', 'x')]}}
PRE = ['su!', 'si!', 'sr', 'drop', 'uniq', 'assign', 'idfilter', 'remove', 'add', 'tx', 'copy', 'burst', 'hold']
POST = [[], ['su!'], ['assign'], ['add'], ['drop', 'add'], ['burst', 'sr'], ['tx', 'si!']]
COLSEL = ['all', 'main', 'rev', 'one', 'ids']


def bounds(tier):
    return {'operations before': [len(PRE), 'depth %d' % (2 if tier == 'quick' else 3)], 'column selections': COLSEL, 'formats': ['csv', 'csv with header', 'sqlite'],
            'operations after': POST, 'chunk sizes': CHUNKS, 'large table': '200003 rows (default chunk size 100000)'}


CHUNKS = [None, 2, 1, 3, 4, 5]


def cases(tier):
    """Chunk sizes: every one for the shallow sqlite histories, else one chosen by a fixed hash of the case."""
    yield ['db', 'big', 200003]
    for c in _cases(tier):
        if c[0] == 'db' and c[3] == 'sqlite' and len(c[2]) == 0:
            for ch in CHUNKS: yield c + [ch]
        else:
            yield c + [CHUNKS[zlib.crc32(repr(c).encode()) % len(CHUNKS)] if c[0] == 'db' else None]


def big(ctx, n):
    """More rows than the default chunk size, not a multiple of it."""
    data = [(i % 1000, i, i % 7) for i in range(n)]
    cols = ['user', 'item', 'interaction']
    ds = ref.build(ctx, 'db', cols, data)
    path = ctx.path('big.sqlite')
    ds.save(path)
    ctx.step()
    l = load_back(path, 'sqlite', cols, 'db')
    ctx.step()
    ctx.check(len(l) == n, f'saved {n} records, loaded {len(l)}')
    got = l.values_list(['user', 'item', 'interaction', 'rid'], to_list=True)
    for i, (g, e) in enumerate(zip(got, data)):
        if tuple(g) != e + (i,): ctx.fail(f'record {i} is {g}, expected {e + (i,)}')
    l.save(path + '.csv')
    with open(path + '.csv') as f: lines = sum(1 for _ in f)
    ctx.check(lines == n, f'saved {n} records, the csv file has {lines} lines')
    ctx.state(('big', n))
    l.close()


def _cases(tier):
    depth = 2 if tier == 'quick' else 3
    for d in range(0, depth + 1):
        for pre in itertools.product(PRE, repeat=d):
            for tb in T:
                for be in ('db', 'mem'):
                    fmts = ['csv', 'csvh'] + (['sqlite'] if be == 'db' else [])
                    for f in fmts:
                        for cs in COLSEL if d <= 1 else ('all',) + ((COLSEL[1 + hash_(pre) % 4],) if f != 'csvh' else ()):
                            posts = POST if d <= 1 and cs == 'all' else [POST[hash_(pre) % len(POST)]]
                            for post in posts:
                                for gen2 in (0, 1, 2) if cs == 'all' and d <= 1 else ((hash_(pre) % 3),):
                                    yield [be, tb, list(pre), f, cs, post, gen2]


def hash_(pre):
    return sum((i + 1) * PRE.index(p) for i, p in enumerate(pre))


def run_op(ds, t, op, tb, keep):
    name = op.rstrip('!')
    cols = set(t.columns)
    q = Q[tb]
    if name in q:
        if any(c not in cols or c == 'interaction' and any(isinstance(r['interaction'], str) for r in t.rows) for c, _, _ in q[name]): return ds, t
        if not op.endswith('!'): keep.append((ds, t))
        return ds.select(qtext(q[name]), copy=not op.endswith('!')), t.select(q[name])
    if name == 'drop':
        keep.append((ds, t))
        return ds.drop([1]), t.drop([1])
    if name == 'uniq':
        keep.append((ds, t))
        c = ['item', 'user', 'interaction']
        return ds.unique(c), t.unique(c)
    if name == 'assign':
        ds.assign_internal_ids()
        return ds, t.assign()
    if name == 'idfilter':
        ds.assign_internal_ids()
        t = t.assign()
        return ds.select('iid >= 1'), t.select([('iid', '>=', 1)])
    if name == 'remove':
        if 'uid' in cols:
            ds.remove_internal_ids()
            t = t.remove()
        return ds, t
    if name in ('add', 'tx'):
        col, fn = ('interaction', lambda v: v + 1) if name == 'add' else ('tag', lambda v: v + '!,"')
        if col not in cols or not t.rows: return ds, t
        ds.apply(col, fn)
        return ds, t.apply(col, fn)
    if name == 'copy':
        keep.append((ds, t))
        return ds.copy(), t.copy()
    if name == 'burst':
        for _ in range(5): ds.count_unique('rid')
        return ds, t
    if name == 'hold':
        g = ds.values()
        next(g, None)
        keep.append(g)
        return ds, t
    raise ValueError(op)


def saved_table(t, cols):
    rows = [dict({c: r[c] for c in cols}, rid=i) for i, r in enumerate(t.rows)]
    return Table(list(cols) + ['rid'], rows)


def parsed(v):
    try: return int(v)
    except ValueError: pass
    try: return float(v)
    except ValueError: return v


def check_file(ctx, path, st, cols, fmt):
    if fmt == 'sqlite':
        con = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
        try:
            info = [c[1] for c in con.execute('PRAGMA table_info(interactions)')]
            ctx.check(set(cols) <= set(info) and set(info) <= set(cols) | {'rid', 'uid', 'iid'}, f'saved table has columns {info}, requested {cols}')
            for c in ('uid', 'iid'):
                if c in info: ctx.check(con.execute(f'SELECT COUNT({c}) FROM interactions').fetchone()[0] == 0, f'internal ids ({c}) were persisted')
            got = con.execute(f'SELECT {",".join(cols)}, rid FROM interactions ORDER BY rid').fetchall()
        finally:
            con.close()
        exp = [tuple(r[c] for c in list(cols) + ['rid']) for r in st.rows]
        ok = len(got) == len(exp) and all(ref.same(a, b) for e, g in zip(exp, got) for a, b in zip(e, g))
        ctx.check(ok, f'saved sqlite rows {got}, expected {exp}')
        return
    with open(path, newline='', encoding='utf8') as f: rows = list(csv.reader(f))
    if fmt == 'csvh':
        ctx.check(rows and rows[0] == list(cols), f'header {rows[:1]}, expected {cols}')
        rows = rows[1:]
    ctx.check(len(rows) == len(st.rows), f'saved {len(rows)} lines, expected {len(st.rows)}: {rows}')
    for r, e in zip(rows, st.rows):
        ctx.check(len(r) == len(cols), f'saved line {r} does not have the columns {cols}')
        for v, c in zip(r, cols):
            ctx.check(ref.same(e[c], v if isinstance(e[c], str) else parsed(v)), f'saved {c} = {v!r}, expected {e[c]!r}')


def load_back(path, fmt, cols, loader, **kw):
    from DRecPy.Dataset import InteractionDataset
    if fmt == 'sqlite': return InteractionDataset(path, verbose=False, in_memory=False, **kw)
    return InteractionDataset(path, columns=list(cols), in_memory=loader == 'mem', has_header=fmt == 'csvh', verbose=False, **(kw if loader == 'db' else {}))


def one(ctx, case):
    if case[1] == 'big': return big(ctx, case[2])
    be, tb, pre, fmt, cs, post, gen2, ch = case
    columns, data = T[tb]
    ckw = {} if ch is None else {'chunksize': ch}
    ds, t = ref.build(ctx, be, columns, data, **ckw), Table.load(columns, data)
    keep = []
    for op in pre:
        if op == 'uniq' and not {'item', 'user', 'interaction'} <= set(t.columns): continue
        ds, t = run_op(ds, t, op, tb, keep)
        ctx.step()
    if not t.rows and fmt != 'sqlite': return
    path = ctx.path('out.' + ('sqlite' if fmt == 'sqlite' else 'csv'))
    allc = [c for c in ds.columns if c not in ('rid', 'uid', 'iid')]
    if cs == 'all': arg, cols = None, allc
    elif cs == 'main': arg = cols = ['user', 'item', 'interaction']
    elif cs == 'rev': arg = cols = list(reversed(allc))
    elif cs == 'one': arg = cols = [allc[-1]]
    else:
        arg = ['rid'] + [c for c in ('uid', 'iid') if c in t.columns] + ['item', 'user', 'interaction']
        cols = ['item', 'user', 'interaction']
    if gen2 == 1:                       # something is there already
        with open(path, 'w') as f: f.write('old content,"\n' * 400)
    given = None if arg is None else list(arg)
    kw = {} if given is None else {'columns': given}
    ds.save(path, write_header=(fmt == 'csvh'), **kw)
    ctx.step()
    ctx.check(given is None or given == arg, f'save changed the column list to {given}')
    ctx.check(not os.path.exists(path + '.tmp'), 'a temporary file was left beside the saved file')
    m = Obs.records(ds, t)
    if m: ctx.fail(f'saving changed the dataset: {m}')
    st = saved_table(t, cols)
    ctx.state((fmt, st.canon()))
    ctx.outcome((fmt, st.canon()))
    check_file(ctx, path, st, cols, fmt)
    if not {'user', 'item', 'interaction'} <= set(cols): return
    loaders = ['db'] if fmt == 'sqlite' else ['db', 'mem']
    for loader in loaders:
        blank = lambda tt: any(all(r[c] == '' for r in tt.rows) for c in tt.columns)
        if loader == 'mem' and blank(st): continue               # the type of an all-empty column is unknown
        before = open(path, 'rb').read()
        l, lt = load_back(path, fmt, cols, loader, **ckw), st.copy()
        m = Obs.records(l, lt) or (Obs.aggregates(l, lt) if lt.rows else None)
        if m: ctx.fail(f'loaded by {loader}: {m}')
        for op in post:
            l, lt = run_op(l, lt, op, tb, keep)
            ctx.step()
            m = Obs.records(l, lt)
            if m: ctx.fail(f'loaded by {loader}, after {op}: {m}')
        ctx.check(open(path, 'rb').read() == before, 'working on a loaded dataset changed the file it was loaded from')
        if gen2 == 2 and not (loader == 'mem' and blank(lt)) and (lt.rows or fmt == 'sqlite') and (fmt != 'csvh'):
            other = load_back(path, fmt, cols, loader)           # a live dataset loaded from the same file
            own = fmt == 'sqlite' or loader == 'mem'
            if own: l.save()
            else: l.save(path)
            ctx.step()
            c2 = [c for c in l.columns if c not in ('rid', 'uid', 'iid')]
            st2 = saved_table(lt, c2)
            check_file(ctx, path, st2, c2, fmt)
            m = Obs.records(l, lt) or Obs.records(other, st)
            if m: ctx.fail(f'after saving over the file it was loaded from: {m}')
            l2 = load_back(path, fmt, c2, loader)
            m = Obs.records(l2, st2)
            if m: ctx.fail(f'second generation: {m}')
            for x in (l2, other):
                if hasattr(x, 'close'): x.close()
            check_file(ctx, path, st2, c2, fmt)
            with open(path, 'wb') as f: f.write(before)
        if hasattr(l, 'close'): l.close()
        ctx.check(open(path, 'rb').read() == before, 'closing a loaded dataset changed the file it was loaded from')
    del keep[:]
    os.remove(path)
