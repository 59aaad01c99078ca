"""C28: every combination of file shape and import option of a small grammar, both backends."""
import itertools
import os
from .. import ref
from ..ref import Table, Obs

RULE = ('a case is (backend, delimiter, header, encoding, line end, trailing newline, blank lines, column layout, number of rows, chunk size, value set); '
        'distinct_nontrivial counts distinct (expected table, file bytes)')
ASSUMPTIONS = ['columns of one type (numbers, or text of which at least one value is not number-like, and not all values boolean-like)', 'multi-character delimiters are taken literally and contain no regular-expression characters',
               'no quoting together with multi-character delimiters']
CHUNK = 8
ROWS = {
    'int': {'user': [7, 3, 7, -2, 12345678901, 3, 0], 'item': [10, 20, 20, 30, 5, 5, 6], 'interaction': [3, 1, 5, 2, 4, 0, 1], 'ts': [5, 4, 3, 2, 1, 2 ** 53 + 1, 0],
            'tag': ['a', 'b', 'c', '', 'NA', 'e f', 'null']},
    'mix': {'user': ['ann', 'bob', 'ann', 'zo\u00eb', 'NA', 'None', 'x'], 'item': ['p1', 'q2', 'r 3', 's', 't', 'nan', 'v'],
            'interaction': [3.5, 0.1, 1234567.891, 0.30000000000000004, 1e-7, -2.25, 100.0], 'ts': [1.5, 2.25, 1 / 3, 0.7, 5.0, 6.5, 7.5], 'tag': ['x', '', 'caf\u00e9', 'y', 'z', 'w', 'u']},
    'late': {'user': ['7', '03', 'x1', '7', '-2', '1e5', '0'], 'item': ['0155', '12', '034X', '5', '0155', '6.50', '9'], 'interaction': [3, 1, 2.5, 2, 4, 0, 1], 'ts': [5, 4, 2.5, 2, 1, 7, 0],
             'tag': ['1', '2', 'c', '007', '+4', 'e', '8']},
    'digits': {'user': ['1_0', '12', '3_4', '1_0', '7', '1_000', '0'], 'item': ['\u0661', '5', '\u0662\u0663', '12', '5', '\u0661', '1'], 'interaction': [3, 1, 2, 2, 4, 0, 1],
               'ts': [5, 4, 3, 2, 1, 7, 0], 'tag': ['1_0.5', '2', '1_000', '3', '0x10', '1e3', '8']},
    'quoted': {'user': ['o"neil', 'b,c', 'd;e', "f'g", 'h\ti', 'j', 'k'], 'item': ['a, b', 'c', '"', "''", 'x"y"z', 'n', 'm'], 'interaction': [1, 2, 3, 4, 5, 6, 7],
               'ts': [1, 2, 3, 4, 5, 6, 7], 'tag': ['say "hi", ok', 'q', ',', ';', '\t|', '|', 'z']},
}
LAYOUTS = [['user', 'item', 'interaction'], ['item', 'interaction', 'user', 'ts', 'tag'], ['user', None, 'item', 'interaction'], [None, 'tag', 'user', None, 'interaction', 'item'],
           ['user', 'item', None, None, 'interaction', None]]
DELIMS = [',', ';', '\t', '|', '::', '<>']


NAMES = ['date', 'desc', 'max', 'rowid', '\u00e9', '_x', 'user_id', 'user2', 'timestamp', 'session', 'location', 'key', 'abs', 'interactions', 'a1', 'rid2', 'no', 'NAME']
SQL_NAMES = ['order', 'group', 'index', 'from', 'my col', 'rating-value', 'a.b', '1st']     # not usable unquoted in SQL


def bounds(tier):
    return {'rows': '1..7', 'delimiters': DELIMS, 'layouts': len(LAYOUTS), 'chunk sizes': '1, 2, 3, rows-1, rows, rows+1, default'}


def cases(tier):
    full = tier == 'thorough'
    for vs in ROWS:
        for delim in DELIMS:
            if vs == 'quoted' and len(delim) > 1: continue
            for li in range(len(LAYOUTS)):
                for header in (0, 1):
                    for shape in ('lf', 'nolast', 'crlf', 'blankmid', 'blankend', 'blankstart'):
                        for enc in (None, 'latin-1') if vs == 'mix' else (None,):
                            for n in (3, 7) if vs == 'late' else (1, 2, 3, 7) if full or (delim in (',', '::') and li in (0, 3)) else (3, 7):
                                chunks = (None, 1, 2, 3, 6, 7, 8) if full or shape in ('lf', 'blankmid') else (None, 2)
                                for ch in chunks:
                                    yield ['db', vs, delim, li, header, shape, enc, n, ch]
                                yield ['mem', vs, delim, li, header, shape, enc, n, None]
    for be in ('mem', 'db'):
        for name in NAMES + SQL_NAMES: yield [be, 'name', name]
        for n in (300000,): yield [be, 'big', n]
        for bad in ('missing user', 'missing item', 'missing interaction', 'uid', 'iid', 'none'):
            for header in (0, 1): yield [be, 'bad', bad, header]
    for lab in itertools.product(('user', 'u'), ('item', 'thing'), ('interaction', 'score')):
        for idx in ('range', 'shuffled', 'dup', 'text'):
            for extra in (0, 1): yield ['df', list(lab), idx, extra]


def one(ctx, case):
    from DRecPy.Dataset import InteractionDataset
    if case[0] == 'df': return frame(ctx, case)
    if case[1] == 'bad': return bad(ctx, case)
    if case[1] == 'name': return named(ctx, case)
    if case[1] == 'big': return big(ctx, case)
    be, vs, delim, li, header, shape, enc, n, ch = case
    layout = LAYOUTS[li]
    V = ROWS[vs]
    rows, data = [], []
    for i in range(n):
        rows.append([V[c][i] if c is not None else ('skip me' if vs == 'mix' else 40 + i) for c in layout])
    lines = [delim.join(ref.quote(v, delim) if vs != 'mix' else num(v) for v in r) for r in rows]
    names = [c or 'unused' for c in layout]
    if header: lines.insert(0, delim.join(names))
    nl = '\r\n' if shape == 'crlf' else '\n'
    h = 1 if header else 0
    if shape == 'blankmid': lines.insert(h + min(1, n), '')
    if shape == 'blankstart': lines.insert(h, '')
    if shape == 'blankend': lines += ['', '']
    text = nl.join(lines) + ('' if shape == 'nolast' else nl)
    path = ctx.path('f.csv')
    with open(path, 'wb') as f: f.write(text.encode(enc or 'utf-8'))
    kw = {}
    if ch is not None: kw['chunksize'] = ch
    if enc is not None: kw['encoding'] = enc
    cols = list(layout)
    ds = InteractionDataset(path, columns=cols, delimiter=delim, has_header=bool(header), in_memory=be == 'mem', verbose=False, **kw)
    ctx.step()
    ctx.check(cols == layout, f'the column list given was changed to {cols}')
    t = Table.load(layout, [tuple(r) for r in rows])
    if be == 'mem' and len(delim) > 1: t = snap(t, ds)
    if any(all(r[c] == '' for r in t.rows) for c in t.columns): return
    m = Obs.records(ds, t) or Obs.aggregates(ds, t)
    if m: ctx.fail(f'{m}\nfile: {text!r}')
    # imported columns are usable right away
    for c in t.columns:
        v = t.rows[-1][c]
        q = [(c, '==', v)]
        m = Obs.records(ds.select(ref.qtext(q)), t.select(q))
        if m: ctx.fail(f'select({ref.qtext(q)}): {m}')
    ctx.state(t.canon())
    ctx.outcome((t.canon(), text))
    os.remove(path)


def named(ctx, case):
    """A fourth column of any name is a column like any other."""
    import sqlite3
    from DRecPy.Dataset import InteractionDataset
    be, _, name = case
    cols = ['user', name, 'item', 'interaction']
    rows = [(1, 7, 10, 3), (2, 5, 10, 1), (1, 9, 20, 2), (3, 5, 20, 4)]
    path = ctx.path('n.csv')
    ref.write_csv(path, rows)
    try:
        ds = InteractionDataset(path, columns=list(cols), in_memory=be == 'mem', verbose=False)
    except sqlite3.OperationalError as e:
        if be == 'db' and name in SQL_NAMES: return ctx.finding('sql-column-names', f'{case}: {e}')
        raise
    ctx.step()
    t = Table.load(cols, rows)
    for k in range(2):
        m = Obs.records(ds, t) or Obs.aggregates(ds, t) or Obs.lists(ds, t, [name, 'user'])
        if m: ctx.fail(f'{case}: {m}')
        if ' ' not in name:
            for q in ([(name, '>', 5)], [(name, '==', 5), ('user', '!=', 3)]):
                m = Obs.records(ds.select(ref.qtext(q)), t.select(q))
                if m: ctx.fail(f'{case}: select({ref.qtext(q)}): {m}')
        m = Obs.records(ds.unique([name]), t.unique([name])) or Obs.records(ds.drop([1]), t.drop([1]))
        if m: ctx.fail(f'{case}: unique or drop: {m}')
        if k == 0:
            ds.assign_internal_ids()
            t = t.assign()
            ds.apply(name, lambda v: v - 1)
            t = t.apply(name, lambda v: v - 1)
    ctx.outcome((be, name))


def snap(t, ds):
    """pandas' multi-character delimiter parser may round a float in the last place: accept that (relative 1e-15 x 4)."""
    got = sorted(ds.values_list(), key=lambda r: r['rid'])
    for e, g in zip(t.rows, got):
        for c in t.columns:
            x, y = e[c], g.get(c)
            if isinstance(x, float) and isinstance(y, float) and x != y and abs(x - y) <= 4e-15 * abs(x): e[c] = float(y)
    return t


def num(v):
    return v if isinstance(v, str) else repr(v)


def big(ctx, case):
    """A file larger than any read buffer whose text columns start with number-like values."""
    from DRecPy.Dataset import InteractionDataset
    be, _, n = case
    path = ctx.path('big.csv')
    rows = [('%05d' % (i % 977) if i < n - 3 else f'u{i}', '%d' % (i % 10) if i < n - 1 else 'last', i % 5) for i in range(n)]
    with open(path, 'w') as f: f.writelines(f'{u},{i},{x}\n' for u, i, x in rows)
    ds = InteractionDataset(path, columns=['user', 'item', 'interaction'], in_memory=be == 'mem', verbose=False)
    got = [(r[0], r[1], float(r[2])) for r in ds.values(['user', 'item', 'interaction'], to_list=True)]
    ctx.step(n)
    ctx.check(len(got) == n, f'{n} lines, {len(got)} records')
    for k, (g, e) in enumerate(zip(got, rows)):
        if g != (e[0], e[1], float(e[2])): ctx.fail(f'line {k} of a file with {n} lines is {e}, the record is {g}')
    ctx.outcome(('big', n))
    if be == 'db': ds.close()
    os.remove(path)


def bad(ctx, case):
    from DRecPy.Dataset import InteractionDataset
    be, _, what, header = case
    path = ctx.path('f.csv')
    with open(path, 'w') as f: f.write(('a,b,c,d\n' if header else '') + '1,2,3,4\n5,6,7,8\n')
    cols = ['user', 'item', 'interaction', 'x']
    if what.startswith('missing'): cols[cols.index(what.split()[1])] = 'other'
    elif what in ('uid', 'iid'): cols[3] = what
    else: cols = None
    try:
        ds = InteractionDataset(path, columns=cols, has_header=bool(header), in_memory=be == 'mem', verbose=False)
    except Exception as e:
        e.__traceback__ = None
        ctx.outcome((what, 'raised'))
        return
    ctx.fail(f'importing with columns {cols} did not raise but gave {ds}')


def frame(ctx, case):
    import pandas as pd
    from DRecPy.Dataset import InteractionDataset
    _, (u, i, s), idx, extra = case
    n = 4
    d = {u: [7, 3, 7, 5], i: ['p', 'q', 'r', 'p'], s: [3.0, 1.0, 0.5, 2.0]}
    if extra: d['ts'] = [4, 3, 2, 1]
    index = {'range': None, 'shuffled': [3, 1, 0, 2], 'dup': [0, 0, 1, 1], 'text': ['a', 'b', 'c', 'd']}[idx]
    df = pd.DataFrame(d, index=index)
    keep = df.copy()
    ds = InteractionDataset.read_df(df, user_label=u, item_label=i, interaction_label=s, verbose=False)
    ctx.check(df.equals(keep) and list(df.columns) == list(keep.columns), 'the data frame given was changed')
    cols = ['user', 'item', 'interaction'] + (['ts'] if extra else [])
    t = Table.load(cols, [tuple(d[c][k] for c in (u, i, s) + (('ts',) if extra else ())) for k in range(n)])
    m = Obs.records(ds, t)
    if m: ctx.fail(m)
    ds.assign_internal_ids()
    t = t.assign()
    m = Obs.records(ds, t) or Obs.records(ds.drop([0, 2]), t.drop([0, 2])) or Obs.records(ds.select('interaction >= 1'), t.select([('interaction', '>=', 1)]))
    if m: ctx.fail(m)
    df[u] = -1
    m = Obs.records(ds, t)
    if m: ctx.fail(f'changing the data frame afterwards changed the dataset: {m}')
    ctx.outcome(t.canon())
