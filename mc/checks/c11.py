"""C11: matrix_split over every small interaction matrix, ratio, minimum and seed; the sampled block is solved for."""
import itertools
import math
from .. import ref
from ..ref import Table, Obs

NEEDS = ('all',)
CASE_LIMIT_S = 200
RULE = ('a case is (backend, id kind, interaction matrix, user ratio, item ratio, minimum, history); each is run for several seeds and thread counts; '
        'distinct_nontrivial counts distinct (input, train, test)')
ASSUMPTIONS = ['worker threads are scheduled by the operating system here (C13 explores schedules)']
CHUNK = 4
COLS = ['user', 'item', 'interaction', 'ts']
USERS = {'int': [30, 10, 20], 'text': ["o'neil", 'a,b', 'c d']}
ITEMS = {'int': [7, 5, 6], 'text': ['x"y', 'p q', 'r']}
RATIOS = [0.34, 0.5, 0.67, 1.0, 0.2]


def bounds(tier):
    return {'matrices': 'all 0/1 matrices 2x2, 2x3, 3x2, 3x3, plus repeated pairs; full matrices of up to 1030 users or items', 'ratios': RATIOS, 'minimum': [0, 2, 3], 'seeds': 2}


def cases(tier):
    full = tier == 'thorough'
    for be in ('mem', 'db'):
        for ur, ir in ((0.34, 0.34), (0.67, 0.34), (0.34, 0.67)): yield ['reach', be, ur, ir]
    i = 0
    for shape in ((2, 2), (2, 3), (3, 2), (3, 3)):
        for bits in itertools.product((0, 1), repeat=shape[0] * shape[1]):
            if not any(bits): continue
            for ur in RATIOS:
                for ir in RATIOS:
                    for mn in (0, 2, 3):
                        i += 1
                        for be in ('mem', 'db'):
                            if not full and (shape == (3, 3) and i % 4 or be == 'db' and i % 3): continue
                            yield ['split', be, ('int', 'text')[i % 2], list(shape), list(bits), ur, ir, mn, i % 4 == 0]
    for nu, ni in ((1030, 3), (3, 1030), (130, 20), (33, 65)):
        for ur, ir in ((0.34, 0.67), (0.9, 0.5)):
            for mn in (0, 3):
                for be in ('mem', 'db'): yield ['large', be, nu, ni, ur, ir, mn]
    for h in ('filter', 'drop', 'ids', 'ids-filter', 'reads'):
        for be in ('mem', 'db'):
            for bits in ((1,) * 9, (1, 1, 0, 1, 0, 1, 0, 1, 1)):
                for ur in (0.67, 1.0):
                    for ir in (0.34, 0.67):
                        for mn in (0, 2): yield ['hist', be, h, list(bits), ur, ir, mn]


def rows(kind, shape, bits, dup):
    out = []
    for a in range(shape[0]):
        for b in range(shape[1]):
            if bits[a * shape[1] + b]: out.append((USERS[kind][a], ITEMS[kind][b], 1 + (a + 2 * b) % 4, len(out)))
    if dup: out += [(u, i, 2, 50) for u, i, _, _ in out[:2]]
    return out


def judge(ctx, t, train, test, ur, ir, mn, what):
    tr, te = [x['rid'] for x in train.values_list()], [x['rid'] for x in test.values_list()]
    ctx.check(len(set(tr)) == len(tr) and len(set(te)) == len(te), f'{what}: repeated records: train {tr}, test {te}')
    users, items = list(dict.fromkeys(r['user'] for r in t.rows)), list(dict.fromkeys(r['item'] for r in t.rows))
    nu, ni = math.floor(len(users) * ur), math.floor(len(items) * ir)
    by = {}
    for r in t.rows: by.setdefault(r['user'], []).append(r)
    ok = False
    for U in itertools.combinations(users, nu):
        for I in itertools.combinations(items, ni):
            etr, ete = set(), set()
            for u, rs in by.items():
                if len(rs) < mn: continue
                b = {r['rid'] for r in rs if r['item'] in I} if u in U else set()
                if len(b) == len(rs): b = set()
                ete |= b
                etr |= {r['rid'] for r in rs} - b
            if etr == set(tr) and ete == set(te): ok = True
    if not ok:
        ctx.fail(f'{what}: train rids {sorted(tr)}, test rids {sorted(te)} match no choice of {nu} of {len(users)} users and {ni} of {len(items)} items; input {t.rows}')
    for ds, rids, name in ((train, tr, 'train'), (test, te, 'test')):
        m = Obs.records(ds, t.drop(rids, keep=True))
        if m: ctx.fail(f'{what}: {name} set: {m}')
        ctx.check(bool(ds.has_internal_ids) == t.ids, f'{what}: {name} set has_internal_ids = {ds.has_internal_ids}')
    return tuple(sorted(tr)), tuple(sorted(te))


def run(ctx, ds, t, ur, ir, mn, seeds=2):
    from DRecPy.Evaluation.Splits import matrix_split
    for seed in range(seeds):
        res = []
        for threads in ((1, 4) if seed == 0 else (4,)):
            train, test = matrix_split(ds, user_test_ratio=ur, item_test_ratio=ir, min_user_interactions=mn, seed=seed, max_concurrent_threads=threads, verbose=False)
            ctx.step()
            res.append(judge(ctx, t, train, test, ur, ir, mn, f'matrix_split({ur}, {ir}, min={mn}, seed={seed}, threads={threads})'))
            ctx.outcome((t.canon(), res[-1]))
            ctx.state((t.canon(), res[-1]))
        ctx.check(res[0] == res[-1], f'the split depends on the number of threads: {res}')
    m = Obs.records(ds, t)
    if m: ctx.fail(f'the input dataset changed: {m}')


def one(ctx, case):
    if case[0] == 'reach': return reach(ctx, case)
    if case[0] == 'hist': return hist(ctx, case)
    if case[0] == 'large': return large(ctx, case)
    _, be, kind, shape, bits, ur, ir, mn, dup = case
    data = rows(kind, shape, bits, dup)
    t = Table.load(COLS, data)
    run(ctx, ref.build(ctx, be, COLS, data), t, ur, ir, mn)


def hist(ctx, case):
    _, be, h, bits, ur, ir, mn = case
    data = rows('int', (3, 3), bits, True)
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    if h == 'filter': ds, t = ds.select('interaction >= 2'), t.select([('interaction', '>=', 2)])
    elif h == 'drop': ds, t = ds.drop([0, 2]), t.drop([0, 2])
    elif h in ('ids', 'ids-filter'):
        ds.assign_internal_ids()
        t = t.assign()
        if h == 'ids-filter': ds, t = ds.select('iid != 1'), t.select([('iid', '!=', 1)])
    elif h == 'reads':
        for _ in range(5): ds.max('item')
    run(ctx, ds, t, ur, ir, mn)


def large(ctx, case):
    """Full matrices (and a user of two records): there the block can be read off the test set."""
    from DRecPy.Evaluation.Splits import matrix_split
    _, be, nu, ni, ur, ir, mn = case
    data = [(5 * u + 1, 3 * i + 2, 1 + (u + i) % 5, u) for i in range(ni) for u in range(nu)] + [(5 * nu + 1, 2, 1, 9), (5 * nu + 1, 5, 2, 9)]
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    res = []
    for threads in (1, 4):
        train, test = matrix_split(ds, user_test_ratio=ur, item_test_ratio=ir, min_user_interactions=mn, seed=3, max_concurrent_threads=threads, verbose=False)
        ctx.step()
        tr, te = [x['rid'] for x in train.values_list()], [x['rid'] for x in test.values_list()]
        by = {r['rid']: r for r in t.rows}
        keep = {r['rid'] for r in t.rows if r['user'] != 5 * nu + 1 or mn <= 2}
        what = f'{case}, threads={threads}: '
        ctx.check(len(tr) == len(set(tr)) and len(te) == len(set(te)) and not set(tr) & set(te) and set(tr) | set(te) == keep, what + f'{len(tr)} train and {len(te)} test records, {len(keep)} expected')
        block = {(by[r]['user'], by[r]['item']) for r in te}
        full = {x for x in block if x[0] != 5 * nu + 1}
        U, I = {u for u, _ in full}, {i for _, i in full}
        ku, ki = math.floor((nu + 1) * ur), math.floor(ni * ir)
        ctx.check(len(full) == len(U) * len(I) and len(I) == ki and len(U) in (ku, ku - 1), what + f'{len(full)} test records of {len(U)} users and {len(I)} items, expected the block of {ku} users and {ki} items')
        small = {i for u, i in block if u == 5 * nu + 1}
        if mn > 2 or len(U) == ku: ctx.check(not small, what + f'the user of two records has test records {small}')
        else: ctx.check(small == ({2, 5} & I if {2, 5} & I != {2, 5} else set()), what + f'the user of two records has test records {small}, sampled items include {({2, 5} & I)}')
        for d, rids, name in ((train, tr, 'train'), (test, te, 'test')):
            m = Obs.records(d, t.drop(rids, keep=True))
            if m: ctx.fail(what + f'{name} set: {m}')
        res.append((sorted(tr), sorted(te)))
    ctx.check(res[0] == res[1], f'{case}: the split depends on the number of threads')
    ctx.outcome((str(case), len(res[0][1])))


def reach(ctx, case):
    from DRecPy.Evaluation.Splits import matrix_split
    _, be, ur, ir = case
    data = rows('int', (3, 3), (1,) * 9, False)
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    nu, ni = math.floor(3 * ur), math.floor(3 * ir)
    want = {tuple(sorted(a * 3 + b for a in U for b in I)) for U in itertools.combinations(range(3), nu) for I in itertools.combinations(range(3), ni)}
    for seed in range(600):
        train, test = matrix_split(ds, user_test_ratio=ur, item_test_ratio=ir, seed=seed, verbose=False, max_concurrent_threads=1)
        want.discard(judge(ctx, t, train, test, ur, ir, 0, f'seed {seed}')[1])
        ctx.step()
        if not want: return
    ctx.fail(f'no seed of 0..599 selects the blocks {sorted(want)}')
