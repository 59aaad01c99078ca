"""C22: every small rating matrix (up to renaming) x a rotating grid of KNN settings against an independent KNN."""
import itertools
from .. import ref, simref

NEEDS = ('all',)
CASE_LIMIT_S = 200
RULE = ('a case is (backend, id kind, rating matrix, block of settings); every (user, item) prediction, a ranking and a recommendation per user are compared inside; '
        'distinct_nontrivial counts distinct (setting, predictions)')
ASSUMPTIONS = ['one record per (user, item), no zero ratings', 'neighbour ties and similarities within 1e-9 of 0 admit every consistent outcome',
               'similarity definitions as in C23']
CHUNK = 2
USERS = {'int': [30, 10, 20, 5], 'text': ["o'neil", 'a,b', 'c d', 'e']}
ITEMS = {'int': [7, 5, 900, 1], 'text': ['x', "i'1", 'a b', 'v5']}
SIMS = sorted(simref.ALL)
GRID = list(itertools.product(('user', 'item'), SIMS, ('mean', 'weighted_mean'), (1, 2, 20), (0, 1, 2), (None, 0, 1, 100, 20000), (False, True)))
EPS = 1e-9


def bounds(tier):
    return {'matrices': 'all 1x2, 2x2, 2x3, 3x2, 3x3 over {none,1,4} up to row/column order (quick: 3x3 with >= 5 ratings every other), 2x2 over {none,1,2.5,5}, 4x3 over {none,2} in thorough; up to 130 users or items, k up to 40',
            'settings': f'grid of {len(GRID)} combinations, {PER[tier]} per matrix, rotated so that all are used'}


PER = {'quick': 8, 'thorough': 48}


def canon(r, c, vals):
    seen = set()
    for m in itertools.product(range(len(vals)), repeat=r * c):
        rows = [m[i * c:(i + 1) * c] for i in range(r)]
        if not all(any(x) for x in rows) or not all(any(row[j] for row in rows) for j in range(c)): continue
        best = min(tuple(sorted(tuple(row[j] for j in p) for row in rows)) for p in itertools.permutations(range(c)))
        if best in seen: continue
        seen.add(best)
        yield [[vals[x] for x in row] for row in best]


def mats(tier):
    for r, c in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for m in canon(r, c, (None, 1, 4)): yield m
    for m in canon(2, 2, (None, 1, 2.5, 5)): yield m
    for j, m in enumerate(canon(3, 3, (None, 1, 4))):
        if tier == 'quick' and j % 2: continue
        yield m
    if tier == 'thorough':
        for m in canon(4, 3, (None, 2)): yield m
        for m in canon(3, 3, (None, 1, 3, 5)): yield m


def cases(tier):
    # neighbourhoods large enough for k, ties and coratings to matter
    for m in ([[5, 3, None], [4, None, 2], [None, 1, 5], [2, 2, 4]], [[5, 4, 1, None], [4, 5, None, 2], [1, None, 5, 4], [3, 3, 3, 3]], [[1, 2, 3], [1, 2, 3], [3, 2, 1], [2, 2, None]]):
        for be in ('mem', 'db'):
            for b in range(len(GRID) // PER[tier]):
                if tier == 'quick' and b % (4 if be == 'mem' else 16): continue
                yield [be, 'text' if b % 2 else 'int', m, b]
    for nu, ni, k in ((40, 12, 20), (12, 40, 20), (130, 8, 30), (8, 130, 3), (25, 25, 1), (33, 10, 40)):
        for typ in ('user', 'item'):
            for v in range(6): yield ['db' if v == 4 else 'mem', 'large', [nu, ni, k], [typ, v]]
    for j, m in enumerate(mats(tier)):
        be = 'db' if j % 5 == 0 else 'mem'
        yield [be, 'int' if j % 2 else 'text', m, j]


def predictions(name, typ, agg, k, m, shr, avg, R):
    """{(user, item): set of allowed values (None = no prediction) or ('range', lo, hi)}; R[user][item] or None."""
    nu, ni = len(R), len(R[0])
    rows = [{i: R[u][i] for i in range(ni) if R[u][i] is not None} for u in range(nu)]
    cols = [{u: R[u][i] for u in range(nu) if R[u][i] is not None} for i in range(ni)]
    ent, oth = (rows, cols) if typ == 'user' else (cols, rows)
    n = len(ent)
    S = simref.matrix(name, ent, len(oth))
    nb = []
    for a in range(n):
        c = []
        for b in range(n):
            if a == b: continue
            co = len(set(ent[a]) & set(ent[b]))
            if m > 0 and co < m: continue
            s = S[a][b]
            if shr is not None: s *= co / (co + shr) if co + shr else 0
            if s > -EPS: c.append((s, b))
        nb.append(c)
    out = {}
    for u in range(nu):
        for i in range(ni):
            a, b = (u, i) if typ == 'user' else (i, u)
            allowed = set()
            sure = [x for x in nb[a] if x[0] > EPS]
            maybe = [x for x in nb[a] if x[0] <= EPS]
            for z in range(len(maybe) + 1):
                for extra in itertools.combinations(maybe, z):
                    pool = sure + list(extra)
                    for ch in choices(pool, k):
                        xs = [(s, ent[x][b]) for s, x in ch if b in ent[x]]
                        if not xs:
                            v = None
                            if avg:
                                o = oth[b]
                                v = sum(o.values()) / len(o)
                        elif agg == 'mean': v = sum(x for _, x in xs) / len(xs)
                        else:
                            big = [(s, x) for s, x in xs if s > EPS]
                            if big: v = sum(s * x for s, x in big) / sum(s for s, _ in big)
                            elif len(xs) == 1: v = xs[0][1]
                            else: v = ('range', min(x for _, x in xs), max(x for _, x in xs))
                        allowed.add(v)
            out[(u, i)] = allowed
    return out


def choices(pool, k):
    """All k-best subsets, ties within EPS open."""
    pool = sorted(pool, key=lambda x: -x[0])
    if len(pool) <= k: return [pool]
    cut = pool[k - 1][0]
    sure = [x for x in pool if x[0] > cut + EPS]
    tie = [x for x in pool if abs(x[0] - cut) <= EPS]
    return [sure + list(t) for t in itertools.combinations(tie, k - len(sure))]


def match(v, allowed):
    for a in allowed:
        if a is None or v is None:
            if a is v: return True
        elif isinstance(a, tuple):
            if a[1] - 1e-7 <= v <= a[2] + 1e-7: return True
        elif abs(a - v) <= 1e-6 * max(1, abs(a)): return True
    return False


def one(ctx, case):
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    be, kind, R, block = case
    if kind == 'large': return large(ctx, be, *R, *block)
    us, it = USERS[kind], ITEMS[kind]
    nu, ni = len(R), len(R[0])
    rows = [(us[u], it[i], R[u][i]) for i in range(ni) for u in range(nu) if R[u][i] is not None]
    ds = ref.build(ctx, be, ['user', 'item', 'interaction'], rows)
    per = PER[ctx.tier]
    for q in range(per):
        typ, name, agg, k, m, shr, avg = GRID[(block * per * 7 + q * 277 + block) % len(GRID)] if len(R) < 4 else GRID[(block * per + q) % len(GRID)]
        cls = UserKNN if typ == 'user' else ItemKNN
        label = f'{cls.__name__}(k={k}, m={m}, sim_metric={name!r}, aggregation={agg!r}, shrinkage={shr}, use_averages={avg}) on {rows}'
        model = cls(k=k, m=m, sim_metric=name, aggregation=agg, shrinkage=shr, use_averages=avg, verbose=False)
        model.fit(ds)
        exp = predictions(name, typ, agg, k, m, shr, avg, R)
        pred = {}
        for u in range(nu):
            for i in range(ni):
                v = model.predict(us[u], it[i], skip_errors=True)
                pred[(u, i)] = v
                ctx.step()
                ctx.check(match(v, exp[(u, i)]), f'{label}: predict({us[u]!r}, {it[i]!r}) = {v}, allowed {exp[(u, i)]}')
                if v is None:
                    try: x = model.predict(us[u], it[i])
                    except Exception: x = None
                    ctx.check(x is None, f'{label}: predict({us[u]!r}, {it[i]!r}) = {x} without skipping errors, None with')
        for u in range(nu):
            nov = (q + u) % 2 == 0
            can = {it[i]: pred[(u, i)] for i in range(ni) if pred[(u, i)] is not None and not (nov and R[u][i] is not None)}
            got = model.recommend(us[u], novelty=nov)
            ranking(ctx, f'{label}: recommend({us[u]!r}, novelty={nov})', got, can, ni)
            sub = [it[i] for i in range(ni) if (i + q) % 3 != 0]
            got = model.rank(us[u], sub, novelty=nov)
            ranking(ctx, f'{label}: rank({us[u]!r}, {sub}, novelty={nov})', got, {i: v for i, v in can.items() if i in sub}, ni)
            n = 1
            got = model.recommend(us[u], n=n, novelty=not nov)
            can = {it[i]: pred[(u, i)] for i in range(ni) if pred[(u, i)] is not None and not (not nov and R[u][i] is not None)}
            ranking(ctx, f'{label}: recommend({us[u]!r}, n={n}, novelty={not nov})', got, can, n)
        ctx.outcome((typ, name, tuple(sorted((a, None if v is None else round(v, 6)) for a, v in pred.items()))))
        ctx.state((typ, name, agg, k, m, shr, avg, str(R)))
    if be == 'db': ds.close()


def large(ctx, be, nu, ni, k, typ, v):
    """Neighbourhoods of many rows; the ratings are all different, so that there are hardly any ties."""
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    name = ('cosine', 'adjusted_cosine', 'pearson', 'msd', 'cosine', 'cosine')[v]
    agg, m, shr, avg = ('weighted_mean', 'mean')[v % 2], (0, 2, 5, 1, 3, 6)[v], (None, 100, 1, None, 10, 0)[v], v % 3 == 0
    # a rating is a distinct value in 1..6; about three quarters are present
    R = [[1 + 5 * ((u * 7919 + i * 104729 + u * u * 31 * (i + 1)) % 9973) / 9973 if (u * 13 + i * 7 + u * i) % 4 or (u + i) % min(nu, ni) == 0 else None for i in range(ni)] for u in range(nu)]
    rows = [(3 * u + 1, 5 * i + 2, R[u][i]) for i in range(ni) for u in range(nu) if R[u][i] is not None]
    ds = ref.build(ctx, be, ['user', 'item', 'interaction'], rows)
    label = f'{typ} KNN, {nu} users, {ni} items, k={k}, m={m}, {name}, {agg}, shrinkage={shr}, use_averages={avg}'
    model = (UserKNN if typ == 'user' else ItemKNN)(k=k, m=m, sim_metric=name, aggregation=agg, shrinkage=shr, use_averages=avg, verbose=False)
    model.fit(ds)
    exp = predictions(name, typ, agg, k, m, shr, avg, R)
    pred = {}
    some = (v % nu, nu // 2)
    for (u, i), allowed in exp.items():
        if u not in some and (u + i + v) % (5 if nu * ni > 600 else 3): continue
        got = pred[u, i] = model.predict(3 * u + 1, 5 * i + 2, skip_errors=True)
        ctx.step()
        ctx.check(match(got, allowed), f'{label}: predict({3 * u + 1}, {5 * i + 2}) = {got}, allowed {allowed}')
    for u in some:
        for nov in (False, True):
            for n in (10,) if nov else (1, ni):
                can = {5 * i + 2: pred[u, i] for i in range(ni) if pred[u, i] is not None and not (nov and R[u][i] is not None)}
                ranking(ctx, f'{label}: recommend({3 * u + 1}, n={n}, novelty={nov})', model.recommend(3 * u + 1, n=n, novelty=nov), can, n)
                sub = [5 * i + 2 for i in range(ni) if i % 3]
                if n <= len(sub): ranking(ctx, f'{label}: rank({3 * u + 1}, n={n}, novelty={nov})', model.rank(3 * u + 1, sub, n=n, novelty=nov), {i: x for i, x in can.items() if i in sub}, n)
    ctx.outcome((typ, v, nu, ni))


def ranking(ctx, label, got, can, n):
    ctx.step()
    ctx.check(all(isinstance(x, tuple) and len(x) == 2 for x in got), f'{label}: {got!r}')
    ids = [i for _, i in got]
    ok = len(set(ids)) == len(ids) == min(n, len(can)) and set(ids) <= set(can) and all(abs(s - can[i]) <= 1e-6 * max(1, abs(s)) for s, i in got)
    ok = ok and all(got[a][0] >= got[a + 1][0] for a in range(len(got) - 1))
    if ok and got and len(got) < len(can): ok = got[-1][0] >= max(v for i, v in can.items() if i not in ids) - 1e-6
    ctx.check(ok, f'{label}: {got}, predictions {can}')
