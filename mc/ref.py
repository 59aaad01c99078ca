"""Reference model: an interaction dataset is a list of plain dict rows.  Kept deliberately boring."""
import numbers
import operator
import numpy as np

OPS = {'>': operator.gt, '>=': operator.ge, '<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne}
ID_COLS = ('rid', 'uid', 'iid')


class Table:
    def __init__(self, columns, rows, ids=False, umap=None, imap=None):
        self.columns = list(columns)          # as a set: order of columns is not part of the contract, rid included
        self.rows = rows                      # in record id order
        self.ids = ids
        self.umap = umap                      # raw -> internal, as of the last assignment
        self.imap = imap

    @staticmethod
    def load(columns, data):
        """data: list of tuples in column order (None columns are skipped)."""
        rows = []
        for rid, t in enumerate(data):
            r = {c: v for c, v in zip(columns, t) if c is not None}
            r['rid'] = rid
            rows.append(r)
        return Table([c for c in columns if c is not None] + ['rid'], rows)

    def copy(self):
        return Table(self.columns, [dict(r) for r in self.rows], self.ids, self.umap, self.imap)

    def select(self, conds):
        t = self.copy()
        t.rows = [r for r in t.rows if all(OPS[o](r[c], v) for c, o, v in conds)]
        return t

    def drop(self, rids, keep=False):
        t = self.copy()
        s = set(rids)
        t.rows = [r for r in t.rows if (r['rid'] in s) == bool(keep)]
        return t

    def unique(self, columns=None):
        cols = [c for c in (self.columns if columns is None else ([columns] if isinstance(columns, str) else columns)) if c != 'rid']
        t = self.copy()
        seen, rows = set(), []
        for r in t.rows:
            k = tuple(r[c] for c in cols)
            if k in seen: continue
            seen.add(k)
            rows.append({c: r[c] for c in cols + ['rid']})
        t.rows, t.columns = rows, cols + ['rid']
        return t

    def apply(self, column, fn):
        t = self.copy()
        for r in t.rows: r[column] = fn(r[column])
        return t

    def assign(self):
        t = self.copy()
        t.umap, t.imap = {}, {}
        for r in t.rows:
            r['uid'] = t.umap.setdefault(r['user'], len(t.umap))
            r['iid'] = t.imap.setdefault(r['item'], len(t.imap))
        t.columns = [c for c in t.columns if c not in ('uid', 'iid')] + ['uid', 'iid']
        t.ids = True
        return t

    def remove(self):
        t = self.copy()
        t.ids = False
        t.columns = [c for c in t.columns if c not in ('uid', 'iid')]
        for r in t.rows:
            r.pop('uid', None)
            r.pop('iid', None)
        return t

    def canon(self):
        return (tuple(sorted(self.columns)), self.ids,
                tuple(tuple((c, r[c]) for c in sorted(self.columns)) for r in self.rows))


def is_int(v):
    return isinstance(v, numbers.Integral) and not isinstance(v, (bool, np.bool_))


def is_num(v):
    return isinstance(v, numbers.Real) and not isinstance(v, (bool, np.bool_))


def same(exp, got, ident=False):
    """Value equality as a user sees it: text is text, numbers compare numerically; identifiers (ident) that are whole
    numbers must come back as whole numbers, because they are printed, hashed and compared as ids."""
    if exp is None: return got is None
    if isinstance(exp, str): return isinstance(got, str) and got == exp
    if not is_num(got): return False
    if ident and is_int(exp) and not is_int(got): return False
    return float(exp) == float(got) if not (is_int(exp) and is_int(got)) else int(exp) == int(got)


def same_row(cols, exp, got):
    return len(got) == len(cols) and all(c in got and same(exp[c], got[c], c in ('user', 'item') + ID_COLS) for c in cols)


def plain(v):
    if isinstance(v, np.generic): v = v.item()
    return v


def show(ds_rows):
    return [{k: plain(v) for k, v in r.items()} for r in ds_rows]


class Obs:
    """Observation helpers: each returns None or a message describing the disagreement."""

    @staticmethod
    def records(ds, t, what='values'):
        if set(ds.columns) != set(t.columns) or len(ds.columns) != len(t.columns):
            return f'columns: expected {sorted(t.columns)}, got {ds.columns}'
        if len(ds) != len(t.rows): return f'len: expected {len(t.rows)}, got {len(ds)}'
        got = ds.values_list()
        if len(got) != len(t.rows): return f'{what}: expected {len(t.rows)} records, got {len(got)}: {show(got)}, expected {t.rows}'
        got = sorted(got, key=lambda r: r['rid'])
        for e, g in zip(t.rows, got):
            if not same_row(t.columns, e, g): return f'{what}: expected record {e}, got {show([g])[0]}'
        return None

    @staticmethod
    def lists(ds, t, cols):
        got = list(ds.values(columns=cols, to_list=True))
        if cols is None: cols = ds.columns      # the values come in the order of the columns
        c = [cols] if isinstance(cols, str) else list(cols)
        exp = [[r[x] for x in c] for r in t.rows]
        if len(got) != len(exp): return f'values({cols}): expected {len(exp)} rows, got {len(got)}'
        rem = []
        for g in got:
            g = [g] if len(c) == 1 else g
            if not isinstance(g, (list, tuple)) or len(g) != len(c): return f'values({cols}, to_list=True): bad row shape {g!r}'
            rem.append(list(g))
        for e in exp:
            for g in rem:
                if all(same(x, y, n in ('user', 'item') + ID_COLS) for x, y, n in zip(e, g, c)):
                    rem.remove(g)
                    break
            else:
                return f'values({cols}, to_list=True): row {e} missing, left {rem}'
        return None

    @staticmethod
    def aggregates(ds, t):
        for c in t.columns:
            vals = [r[c] for r in t.rows]
            if vals:
                mn, mx = ds.min(c), ds.max(c)
                if not same(min(vals), mn): return f'min({c}): expected {min(vals)!r}, got {mn!r}'
                if not same(max(vals), mx): return f'max({c}): expected {max(vals)!r}, got {mx!r}'
            n = ds.count_unique(c)
            if n != len(set(vals)): return f'count_unique({c}): expected {len(set(vals))}, got {n}'
        return None

    @staticmethod
    def ids(ds, t, users, items):
        if not t.ids: return None
        for u in users:
            g = ds.user_to_uid(u)
            if not same(t.umap.get(u), g, True): return f'user_to_uid({u!r}): expected {t.umap.get(u)}, got {g!r}'
        for i in items:
            g = ds.item_to_iid(i)
            if not same(t.imap.get(i), g, True): return f'item_to_iid({i!r}): expected {t.imap.get(i)}, got {g!r}'
        inv = {v: k for k, v in t.umap.items()}
        for k in range(-1, len(users) + 2):
            g = ds.uid_to_user(k)
            if not same(inv.get(k), g, True): return f'uid_to_user({k}): expected {inv.get(k)!r}, got {g!r}'
        inv = {v: k for k, v in t.imap.items()}
        for k in range(-1, len(items) + 2):
            g = ds.iid_to_item(k)
            if not same(inv.get(k), g, True): return f'iid_to_item({k}): expected {inv.get(k)!r}, got {g!r}'
        return None


def qtext(conds):
    return ', '.join(f'{c} {o} {v!r}' for c, o, v in conds)


def write_csv(path, data, delimiter=',', header=None, encoding='utf8', newline='\n'):
    with open(path, 'w', encoding=encoding, newline='') as f:
        if header is not None: f.write(delimiter.join(header) + newline)
        for row in data:
            f.write(delimiter.join(quote(v, delimiter) for v in row) + newline)


def quote(v, delimiter=','):
    if isinstance(v, str) and any(ch in v for ch in (delimiter, '"', '\n')):
        return '"' + v.replace('"', '""') + '"'
    return str(v)


def load(backend, path, columns, **kw):
    from DRecPy.Dataset import InteractionDataset
    kw.setdefault('verbose', False)
    return InteractionDataset(path, columns=list(columns), in_memory=(backend == 'mem'), **kw)


def build(ctx, backend, columns, data, **kw):
    path = ctx.path('in.csv')
    write_csv(path, data)
    ds = load(backend, path, columns, **kw)
    import os
    os.remove(path)
    return ds
