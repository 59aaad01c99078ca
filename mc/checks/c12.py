"""C12: random_split over every table size, ratio, history and every outcome of the random source."""
import itertools
import math
from .. import ref, choice
from ..ref import Table, Obs

NEEDS = ('all',)
CASE_LIMIT_S = 200
RULE = ('a case is (backend, rows, ratio, history); all outcomes of the random source are enumerated, then seeds; distinct_nontrivial counts distinct (input, test set)')
CHUNK = 2
COLS = ['user', 'item', 'interaction']
RATIOS = [0.01, 0.1, 0.15, 0.25, 0.3, 0.34, 0.5, 0.6, 0.7, 0.75, 0.9, 0.99]
HIST = ['none', 'filter', 'drop', 'ids', 'ids-filter', 'proj', 'reads', 'shuffled']


def before_import():
    choice.install()


def bounds(tier):
    return {'large': '129..33000 rows, seeds only', 'rows': '1..6' if tier == 'quick' else '1..8', 'ratios': RATIOS, 'random outcomes': 'all (choice tree)'}


def cases(tier):
    for n in range(1, 7 if tier == 'quick' else 9):
        for h in HIST:
            for ratio in RATIOS:
                for be in ('mem', 'db'): yield [be, n, ratio, h]
    for n in (129, 257, 1001, 4099, 33000):
        for h in ('none', 'filter'):
            for ratio in (0.01, 0.34, 0.9) if n < 9999 else (0.34,) if h == 'none' else ():
                for be in ('mem', 'db'): yield [be, n, ratio, h]


def prepare(ctx, be, n, h):
    data = [(10 + (j * 2) % 3, 100 + j, 1 + j % 4) for j in range(n)]
    if h in ('filter', 'drop', 'ids-filter'): data = [(1, 5, 0)] + data + [(2, 6, 0)]
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    if h.startswith('ids'):
        ds.assign_internal_ids()
        t = t.assign()
    if h in ('filter', 'ids-filter'): ds, t = ds.select('interaction > 0'), t.select([('interaction', '>', 0)])
    if h == 'drop': ds, t = ds.drop([0, n + 1]), t.drop([0, n + 1])
    if h == 'proj': ds, t = ds.unique(['user', 'item']), t.unique(['user', 'item'])
    if h == 'reads':
        for _ in range(5): ds.count_unique('user')
    if h == 'shuffled':
        ds.apply('interaction', lambda x: x + 1)
        t = t.apply('interaction', lambda x: x + 1)
    return ds, t


def judge(ctx, t, train, test, size, what):
    tr, te = [x['rid'] for x in train.values_list('rid')], [x['rid'] for x in test.values_list('rid')]
    ctx.check(len(te) == size, f'{what}: expected {size} test records, got {len(te)}')
    ctx.check(sorted(tr + te) == sorted(r['rid'] for r in t.rows), f'{what}: train {sorted(tr)} and test {sorted(te)} are not a partition of the input')
    return tuple(sorted(te))


def full(ctx, t, train, test, te, what):
    for ds, rids, name in ((train, [r['rid'] for r in t.rows if r['rid'] not in te], 'train'), (test, te, 'test')):
        m = Obs.records(ds, t.drop(rids, keep=True))
        if m: ctx.fail(f'{what}: {name} set: {m}')
        ctx.check(bool(ds.has_internal_ids) == t.ids, f'{what}: {name} set has_internal_ids = {ds.has_internal_ids}')


def one(ctx, case):
    from DRecPy.Evaluation.Splits import random_split
    be, n, ratio, h = case
    ds, t = prepare(ctx, be, n, h)
    size = math.floor(len(t.rows) * ratio)

    def split(seed=0):
        return random_split(ds, test_ratio=ratio, seed=seed, verbose=False)
    if size == 0:
        try:
            r = split()
        except Exception as e:
            e.__traceback__ = None
            ctx.outcome('refused')
            return
        ctx.fail(f'random_split(test_ratio={ratio}) of {n} records did not raise')
    if n > 100:
        got = set()
        for seed in (0, 1, 2, 1):
            train, test = split(seed)
            te = judge(ctx, t, train, test, size, f'{n} records, seed {seed}')
            if seed != 2: full(ctx, t, train, test, te, f'{n} records, seed {seed}')
            got.add(te)
            ctx.step()
        ctx.check(len(got) == 3, f'{n} records: seeds 0, 1, 2, 1 give {len(got)} different test sets')
        return
    subsets = set(itertools.combinations(sorted(r['rid'] for r in t.rows), size))
    left = set(subsets)
    ex = choice.Explorer(horizon=40, limit=4000)
    for (train, test), path in ex.run(split):
        te = judge(ctx, t, train, test, size, f'random outcome {path.taken}')
        if te in left:
            left.discard(te)
            full(ctx, t, train, test, te, f'random outcome {path.taken}')
        ctx.step()
        ctx.state((be, h, n, tuple(path.taken)))
        ctx.outcome((t.canon(), te))
    ctx.count('random paths', ex.paths)
    for seed in list(range(4)) + (list(range(4, 3000)) if left else []):  # real generator; a different use of it is covered by seeds
        a, b = split(seed), split(seed) if seed < 2 else None
        te = judge(ctx, t, a[0], a[1], size, f'seed {seed}')
        if b: ctx.check(te == judge(ctx, t, b[0], b[1], size, f'seed {seed}, again'), f'seed {seed} gives different splits')
        left.discard(te)
        if not left and seed > 3: break
    ctx.check(not left, f'test sets {sorted(left)[:5]} are unreachable')
    m = Obs.records(ds, t)
    if m: ctx.fail(f'the input dataset changed: {m}')
