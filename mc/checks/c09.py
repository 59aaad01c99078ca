"""C09: apply histories and failures at every record position."""
import itertools
import zlib
from .. import ref
from ..ref import Table, Obs, qtext

RULE = ('a case is (backend, history of operations incl. applications, failure position or none, chunk size); all live datasets compared with their models; '
        'distinct_nontrivial counts distinct final tables')
ASSUMPTIONS = ['functions return values of one kind (numbers or text) per application', 'apply on an empty dataset may raise']
COLS = ['user', 'item', 'interaction', 'ts', 'tag']
DATA = [(1, 10, 3, 5, 'a'), (2, 10, 1, 3, 'bb'), (1, 20, 5, 9, 'c'), (3, 30, 2, 1, ''), (2, 20, 4, 7, "d'e")]
FN = {
    'inc': lambda v: v + 1 if not isinstance(v, str) else v + '+',
    'half': lambda v: v / 4 if not isinstance(v, str) else len(v) / 4,
    'mixed': lambda v: (v if v < 3 else v + 0.5) if not isinstance(v, str) else len(v),
    'text': lambda v: f'<{v}>' if isinstance(v, str) else f'<{float(v):g}>',
    'num': lambda v: int(v) if not isinstance(v, str) else len(v),
    'const': lambda v: 7,
    'neg': lambda v: -v if not isinstance(v, str) else v[::-1],
}
BADV = [None, [1], (1,), {'a': 1}, object()]
RO = ['rid', 'uid', 'iid', 'user', 'item']
OTHER = ['su!', 'sr', 'drop!', 'uniq', 'assign', 'copy', 'burst', 'hold', 'orig']


def A(tier):
    return [f'{f}:{c}' for f in FN for c in ('interaction', 'ts', 'tag')]


def bounds(tier):
    return {'applications': len(A(tier)), 'other operations': len(OTHER), 'depth': 2 if tier == 'quick' else 3, 'core depth': 4 if tier == 'quick' else 5,
            'failures': 'raise / unsupported value at every position, after every history of the depth above', 'chunk sizes': CHUNKS, 'large table': '200003 rows (default chunk size 100000)'}


CHUNKS = [None, 2, 1, 3, 4, 5]


def cases(tier):
    """Chunk sizes of out-of-memory datasets: every one for single operations, else one chosen by a fixed hash of the case."""
    yield ['db', 'big', 200003]
    for c in _cases(tier):
        if c[0] == 'db' and len(c[1]) <= 1 and c[2] is None:
            for ch in CHUNKS: yield c + [ch]
        else:
            yield c + [CHUNKS[zlib.crc32(repr(c).encode()) % len(CHUNKS)] if c[0] == 'db' else None]


def big(ctx, n):
    """More rows than the default chunk size, not a multiple of it."""
    ds = ref.build(ctx, 'db', ['user', 'item', 'interaction'], [(i % 1000, i, i % 7) for i in range(n)])
    ds.apply('interaction', lambda v: v + 1)
    ctx.step()
    got = ds.values_list(['item', 'interaction', 'rid'], to_list=True)
    ctx.check(len(ds) == n and len(got) == n, f'{len(got)} records after apply, expected {n}')
    for i, g in enumerate(sorted(got)):
        if tuple(g) != (i, i % 7 + 1, i): ctx.fail(f'record {i} is {g} after apply')
    ctx.state(('big', n))


def _cases(tier):
    dep = 2 if tier == 'quick' else 3
    core = ['inc:interaction', 'text:ts', 'half:interaction', 'num:ts', 'su!', 'copy', 'orig', 'burst']
    for d in range(1, dep + 1):
        for seq in itertools.product(A(tier) + OTHER, repeat=d):
            if ':' not in ''.join(seq): continue
            for be in ('mem', 'db'): yield [be, list(seq), None]
    for d in range(dep + 1, (5 if tier == 'quick' else 6)):
        for seq in itertools.product(core, repeat=d):
            for be in ('mem', 'db'): yield [be, list(seq), None]
    for d in range(0, dep + (1 if tier == 'thorough' else 0)):
        for seq in itertools.product(OTHER + ['inc:interaction', 'text:interaction', 'half:ts'], repeat=d):
            for be in ('mem', 'db'):
                for col in ('interaction', 'ts', 'tag'):
                    for pos in range(5):
                        for how in ['raise'] + list(range(len(BADV) - (2 if d else 0))): yield [be, list(seq), [col, pos, how]]
                for col in RO + ['nope', None, 3]: yield [be, list(seq), [col, 0, 'ro']]


class Boom(Exception):
    pass


def one(ctx, case):
    if case[1] == 'big': return big(ctx, case[2])
    be, seq, failing, ch = case
    ds, t = ref.build(ctx, be, COLS, DATA, **({} if ch is None else {'chunksize': ch})), Table.load(COLS, DATA)
    orig = None
    live, keep = [], []
    for op in seq:
        ctx.step()
        if ':' in op:
            f, c = op.split(':')
            if c not in t.columns or not t.rows: continue
            ds.apply(c, FN[f])
            t = t.apply(c, FN[f])
        else:
            name = op.rstrip('!')
            if name == 'su':
                ds = ds.select('user != 2', copy=False)
                t = t.select([('user', '!=', 2)])
            elif name == 'sr':
                live.append((ds, t))
                ds, t = ds.select('rid > 0'), t.select([('rid', '>', 0)])
            elif name == 'drop': ds, t = ds.drop([2], copy=False), t.drop([2])
            elif name == 'uniq':
                if not {'user', 'interaction', 'ts'} <= set(t.columns): continue
                live.append((ds, t))
                c = ['user', 'interaction', 'ts']
                ds, t = ds.unique(c), t.unique(c)
            elif name == 'assign':
                if 'item' not in t.columns: continue
                ds.assign_internal_ids()
                t = t.assign()
            elif name == 'copy':
                live.append((ds, t))
                ds, t = ds.copy(), t.copy()
            elif name == 'burst':
                for _ in range(5): ds.count_unique('rid')
            elif name == 'hold':
                g = ds.values()
                next(g, None)
                keep.append(g)
            elif name == 'orig' and live:           # continue on the dataset it was derived from
                (ds, t), live[-1] = live[-1], (ds, t)
        ctx.state((be, t.canon()))
    if failing is not None:
        col, pos, how = failing
        if how == 'ro':
            if col in t.columns and col not in RO: return
            fn = lambda v: v
        else:
            if col not in t.columns or pos >= len(t.rows): return
            target = t.rows[pos][col]

            def fn(v):
                if v == target:
                    if how == 'raise': raise Boom()
                    return BADV[how]
                return FN['text'](v)
        try:
            ds.apply(col, fn)
        except Exception:
            pass
        else:
            ctx.fail(f'apply({col!r}) with {how} at record {pos} did not raise')
        ctx.step()
        m = Obs.records(ds, t) or Obs.records(ds, t)
        if m: ctx.fail(f'a failed application changed the dataset: {m}')
        if 'interaction' in t.columns and t.rows and not isinstance(t.rows[0]['interaction'], str):
            m = Obs.records(ds.select('interaction >= 3'), t.select([('interaction', '>=', 3)]))
            if m: ctx.fail(f'querying after a failed application: {m}')
        if 'ts' in t.columns and t.rows:
            ds.apply('ts', FN['inc'])
            t = t.apply('ts', FN['inc'])
    for d, tt in [(ds, t)] + live[::-1]:
        m = Obs.records(d, tt) or Obs.records(d, tt)
        if m: ctx.fail(m)
    for d, tt in [(ds, t)] + live[:1]:
        for c in ('interaction', 'ts', 'tag'):
            if c not in tt.columns or not tt.rows: continue
            v = tt.rows[-1][c]
            q = [(c, '>=' if not isinstance(v, str) else '==', v)]
            m = Obs.records(d.select(qtext(q)), tt.select(q))
            if m: ctx.fail(f'select({qtext(q)}) after apply: {m}')
    ctx.outcome(t.canon())
