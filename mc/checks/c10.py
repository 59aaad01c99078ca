"""C10: leave_k_out over every small per-user profile, timestamp order, parameter setting and seed."""
import itertools
import math
from .. import ref
from ..ref import Table, Obs

NEEDS = ('all',)
CASE_LIMIT_S = 120
RULE = ('a case is (backend, id kind, per-user record counts or timestamps, arrangement, k, minimum, last_timestamps, threads, history); each is run for several '
        'seeds and thread counts; distinct_nontrivial counts distinct (train, test) pairs')
ASSUMPTIONS = ['worker threads are scheduled by the operating system here (C13 explores schedules)', 'at least one record']
CHUNK = 4
COLS = ['user', 'item', 'interaction', 'timestamp']
USERS = {'int': [30, 10, 20], 'text': ["o'neil", 'a,b', 'c d']}


def bounds(tier):
    return {'users': 3, 'records per user': '0..4 (and 513 users of 1..3; 8 users of up to 1030)', 'k': '1..4 and ratios 0.25, 0.34, 0.5, 0.75, 0.99', 'minimum': '0..3', 'items': 'distinct / repeated / one item per user', 'timestamps': 'all orders of up to 4 records incl. ties'}


KS = [1, 2, 3, 4, 0.25, 0.34, 0.5, 0.75, 0.99]


def cases(tier):
    full = tier == 'thorough'
    # reachability of every subset over seeds
    for be in ('mem', 'db'):
        for n, k in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 1)): yield ['reach', be, n, k]
    # all count profiles
    for prof in sorted(itertools.product(range(5 if full else 4), repeat=3), key=sum):
        if sum(prof) == 0: continue
        for ki, k in enumerate(KS):
            for mn in (0, 1, 2, 3):
                for be in ('mem', 'db'):
                    if not full and be == 'db' and (sum(prof) % 2 or mn == 1): continue
                    yield ['split', be, 'int' if (sum(prof) + mn) % 2 else 'text', list(prof), (sum(prof) + mn) % 3 + 3 * ((sum(prof) + 2 * mn + ki + (be == 'db')) % 3), k, mn, None, 0]
    # timestamps: every order (with ties) of one user's records, plus a second user
    for n in (2, 3, 4):
        seen = set()
        for ts in itertools.product(range(n), repeat=n):
            canon = tuple(sorted(set(ts)).index(t) for t in ts)
            if canon in seen: continue
            seen.add(canon)
            for k in (1, 2, 3, 0.5, 0.75):
                for be in ('mem', 'db'):
                    if not full and be == 'db' and n == 4 and k in (3, 0.5): continue
                    for float_ts in (0, 1) if full or n < 4 else (0,):
                        yield ['split', be, 'int', [n, 2, 0], 3 * (sum(canon) % 3), k, 0, list(canon), float_ts]
    for prof in ('wide', 'deep'):
        for be in ('mem', 'db'):
            for k in (1, 100, 0.5) if prof == 'deep' else (1, 0.67):
                for mn in (0, 3):
                    for last in (False, True): yield ['large', be, prof, k, mn, last]
    # datasets that were worked on before
    for hist in ('filter', 'drop', 'ids', 'ids-filter', 'proj', 'reads'):
        for be in ('mem', 'db'):
            for prof in ((1, 2, 3), (4, 4, 1), (2, 0, 3)):
                for k in (1, 2, 0.5):
                    for mn in (0, 2):
                        for ts in (None, [2, 0, 1, 3]):
                            yield ['hist', be, hist, list(prof), k, mn, ts]


def table(kind, prof, arrangement, ts, float_ts):
    us = USERS[kind]
    rows = []
    for u, n in zip(us, prof):
        for j in range(n):
            t = (ts[j] if ts is not None and j < len(ts) and u == us[0] else j)
            dup = arrangement // 3          # 0: distinct items, 1: two items, 2: one item, equal interactions
            item = 100 + (j, j % 2, 0)[dup]
            rows.append((u, item, 1 + (j + n) % 5 if dup < 2 else 3, (t + 0.5 if float_ts else t), j))
    arrangement %= 3
    if arrangement == 1: rows.sort(key=lambda r: r[4])
    if arrangement == 2: rows = rows[::-1]
    return [r[:4] for r in rows]


def judge(ctx, t, train, test, k, mn, last, what):
    """train/test datasets against the contract, t is the model of the input."""
    tr, te = train.values_list(), test.values_list()
    by = {}
    for r in t.rows: by.setdefault(r['user'], []).append(r)
    tr_r, te_r = [x['rid'] for x in tr], [x['rid'] for x in te]
    ctx.check(len(set(tr_r)) == len(tr_r) and len(set(te_r)) == len(te_r), f'{what}: repeated records: train {tr_r}, test {te_r}')
    ctx.check(not set(tr_r) & set(te_r), f'{what}: records in both sets: {sorted(set(tr_r) & set(te_r))}')
    kept = set(tr_r) | set(te_r)
    for u, rs in by.items():
        rids = {r['rid'] for r in rs}
        n = len(rs)
        if n < mn:
            ctx.check(not rids & kept, f'{what}: user {u!r} has {n} < {mn} records but some are kept')
            continue
        ctx.check(rids <= kept, f'{what}: user {u!r}: records {sorted(rids - kept)} are lost')
        ku = math.floor(n * k) if isinstance(k, float) else k
        exp = ku if n > ku else 0
        got = rids & set(te_r)
        ctx.check(len(got) == exp, f'{what}: user {u!r} with {n} records: expected {exp} test records, got {len(got)}')
        if last and exp:
            a = sorted((r['timestamp'] for r in rs), reverse=True)[:exp]
            b = sorted((r['timestamp'] for r in rs if r['rid'] in got), reverse=True)
            if a != b and b == replaced(rs, exp):
                ctx.finding('last-timestamps-unsorted', f'{what}: user {u!r}: expected test timestamps {a}, got {b} of {[r["timestamp"] for r in rs]}')
                continue
            ctx.check(a == b, f'{what}: user {u!r}: expected test timestamps {a}, got {b} of {[r["timestamp"] for r in rs]}')
    extra = kept - {r['rid'] for r in t.rows}
    ctx.check(not extra, f'{what}: records {sorted(extra)} are not in the input')
    for ds, rids, name in ((train, set(tr_r), 'train'), (test, set(te_r), 'test')):
        m = Obs.records(ds, t.drop(rids, keep=True))
        if m: ctx.fail(f'{what}: {name} set: {m}')
        ctx.check(bool(ds.has_internal_ids) == t.ids, f'{what}: {name} set has_internal_ids = {ds.has_internal_ids}')
    return tuple(sorted(tr_r)), tuple(sorted(te_r))


def replaced(rs, k):
    """The known defect: once k records are held, each further one replaces the earliest held, even if it is older itself."""
    held = []
    for r in rs:
        held.sort()
        if len(held) == k: held = held[1:]
        held.append((r['timestamp'], r['rid']))
    return sorted((ts for ts, _ in held), reverse=True)


def one(ctx, case):
    from DRecPy.Evaluation.Splits import leave_k_out
    if case[0] == 'reach': return reach(ctx, case)
    if case[0] == 'hist': return hist(ctx, case)
    if case[0] == 'large': return large(ctx, case)
    _, be, kind, prof, arr, k, mn, ts, fts = case
    data = table(kind, prof, arr, ts, fts)
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    run(ctx, ds, t, k, mn, ts is not None, 2 if be == 'db' else 3)


def run(ctx, ds, t, k, mn, last, n_seeds):
    from DRecPy.Evaluation.Splits import leave_k_out
    for seed in range(n_seeds):
        res = []
        for threads in ((1, 4) if seed == 0 else (4,)):
            train, test = leave_k_out(ds, k=k, min_user_interactions=mn, last_timestamps=last, seed=seed, max_concurrent_threads=threads, verbose=False)
            ctx.step()
            res.append(judge(ctx, t, train, test, k, mn, last, f'leave_k_out(k={k}, min_user_interactions={mn}, last_timestamps={last}, seed={seed}, max_concurrent_threads={threads})'))
            ctx.outcome(res[-1])
            ctx.state((t.canon(), res[-1]))
        ctx.check(res[0] == res[-1], f'the split depends on the number of threads: {res}')
    m = Obs.records(ds, t)
    if m: ctx.fail(f'the input dataset changed: {m}')


def hist(ctx, case):
    _, be, h, prof, k, mn, ts = case
    data = table('int', prof, 0, ts, 0)
    t = Table.load(COLS, data)
    ds = ref.build(ctx, be, COLS, data)
    if h == 'filter': ds, t = ds.select('interaction >= 2'), t.select([('interaction', '>=', 2)])
    elif h == 'drop': ds, t = ds.drop([0, 2]), t.drop([0, 2])
    elif h == 'ids':
        ds.assign_internal_ids()
        t = t.assign()
    elif h == 'ids-filter':
        ds.assign_internal_ids()
        t = t.assign()
        ds, t = ds.select('iid != 1'), t.select([('iid', '!=', 1)])
    elif h == 'proj':
        ds, t = ds.unique(['user', 'item', 'timestamp']), t.unique(['user', 'item', 'timestamp'])
    elif h == 'reads':
        for _ in range(5): ds.max('item')
    if not t.rows: return
    run(ctx, ds, t, k, mn, ts is not None, 2)


def large(ctx, case):
    """More users, or more records per user, than any small count."""
    _, be, prof, k, mn, last = case
    counts = [(2, 3, 1)[u % 3] for u in range(513)] if prof == 'wide' else [1, 1030, 257, 2, 128, 101, 100, 33]
    rows = [(7 * u + 3, 10 * j + u % 2, 1 + (u + j) % 5, 50 * j + u) for u, n in enumerate(counts) for j in range(n)]
    rows.sort(key=lambda r: r[3])
    t = Table.load(COLS, rows)
    run(ctx, ref.build(ctx, be, COLS, rows), t, k, mn, last, 1)


def reach(ctx, case):
    from DRecPy.Evaluation.Splits import leave_k_out
    _, be, n, k = case
    data = table('int', [n, 0, 0], 0, None, 0)
    ds = ref.build(ctx, be, COLS, data)
    t = Table.load(COLS, data)
    want = set(itertools.combinations(range(n), k))
    for seed in range(400):
        train, test = leave_k_out(ds, k=k, seed=seed, verbose=False, max_concurrent_threads=1)
        want.discard(judge(ctx, t, train, test, k, 0, False, f'seed {seed}')[1])
        ctx.step()
        if not want: return
    ctx.fail(f'no seed of 0..399 selects the test records {sorted(want)}')
