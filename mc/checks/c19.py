"""C19: every small interaction matrix x every outcome of the random source of the record / null pair generators and the point sampler."""
import itertools
from .. import ref
from ..ref import Table, Obs, qtext
from ..choice import Explorer, Horizon, install

NEEDS = ('all',)
RULE = ('a case is (kind of sampling, backend, id kind, interaction matrix, threshold); every path of the random choice tree up to the horizon is executed inside; '
        'transitions count paths; distinct_nontrivial counts distinct (case kind, set of reachable results)')
ASSUMPTIONS = ['one record per (user, item)', 'rejection loops cut at the horizon', 'asking for a negative pair when none exists has to be refused']
CHUNK = 2
CASE_LIMIT_S = 120
USERS = {'int': [30, 10, 20], 'text': ["o'neil", 'a,b', 'c d']}
ITEMS = {'int': [7, 5, 900], 'text': ['x', "i'1", 'a b']}
V = (None, 1, 3)


def before_import():
    install()


def bounds(tier):
    return {'matrices': 'all 1x1, 1x2, 2x1, 1x3, 3x1, 2x2 over {none, below, at/above}; 2x3 and 3x2 over {none, at/above} (quick: every seventh)', 'horizon (draws)': '4-8 per sample (one rejection; thorough two more draws)', 'thresholds': [None, 2, 3, 0], 'consecutive samples': 2, 'larger': 'matrices of 40x25, 3x130, 130x3, 12x12 (thorough also 130x40, 300x5, 5x300): every outcome of the first two draws (at most 1500), and 40 seeds of the real generator'}


def mats(tier):
    for r, c in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
        for m in itertools.product(V, repeat=r * c):
            yield r, c, m
    for j, m in enumerate(itertools.product((None, 3), repeat=6)):
        if tier == 'quick' and j % 7: continue
        yield 2, 3, m
        yield 3, 2, m
    if tier == 'thorough':
        for m in itertools.product(V, repeat=6): yield 2, 3, m


def ok(r, c, m):
    rows = [any(m[a * c + b] is not None for b in range(c)) for a in range(r)]
    cols = [any(m[a * c + b] is not None for a in range(r)) for b in range(c)]
    return all(rows) and all(cols)


BIG = ((40, 25, 5, 2), (3, 130, 4, 3), (130, 3, 4, 1), (12, 12, 7, 6))      # users, items, a record where (3a + 2b) % m < k


def cases(tier):
    for j, (r, c, m, k) in enumerate(BIG if tier == 'quick' else BIG + ((130, 40, 9, 4), (300, 5, 3, 1), (5, 300, 3, 2))):
        for th in (None, 3):
            for be in ('mem', 'db'):
                for what in ('records', 'null', 'sampler'):
                    if tier == 'quick' and be == 'db' and (j + (th or 0)) % 3 != {'records': 0, 'null': 1, 'sampler': 2}[what]: continue
                    yield [what, be, 'int' if j % 2 else 'text', r, c, [m, k], th, 'big']
    for j, (r, c, m) in enumerate(x for x in mats(tier) if ok(*x)):
        for th in (None, 2, 3, 0):
            if tier == 'quick' and r * c >= 4 and th in (3, 0) and (j + th) % 4: continue
            for be in ('mem', 'db'):
                kind = 'int' if j % 2 else 'text'
                for what in ('records', 'null', 'sampler'):
                    if tier == 'quick' and be == 'db' and r * c >= 4 and (j + (th or 0)) % 3 != {'records': 0, 'null': 1, 'sampler': 2}[what]: continue
                    if tier == 'quick' and what == 'sampler' and r * c >= 4 and j % 3 == 0: continue
                    yield [what, be, kind, r, c, list(m), th, j % 4]


def one(ctx, case):
    what, be, kind, r, c, m, th, hist = case
    us, it = USERS[kind][:r], ITEMS[kind][:c]
    if hist == 'big':
        us, it = ([f'{"ui"[w]}{(x * 7) % n:04d}' for x in range(n)] if kind == 'text' else [(x * 7) % n * (3 - w) + 5 for x in range(n)] for w, n in enumerate((r, c)))
        us, it = list(dict.fromkeys(us)), list(dict.fromkeys(it))
        mod, k = m
        full = [(a, b) for a in range(len(us)) for b in range(len(it)) if (3 * a + 2 * b) % mod < k]
        ra, rb = sorted({a for a, _ in full}), sorted({b for _, b in full})
        us, it, full = [us[a] for a in ra], [it[b] for b in rb], set(full)
        r, c = len(us), len(it)
        m = [1 + (a * 5 + b) % 5 if (a, b) in full else None for a in ra for b in rb]
    cols = ['user', 'item', 'interaction']
    rows = [(us[a], it[b], m[a * c + b]) for b in range(c) for a in range(r) if m[a * c + b] is not None]
    if hist == 1:        # worked on before: a filtered dataset whose ids were then assigned
        extra = (USERS[kind][0], ITEMS[kind][1], 50)
        ds0 = ref.build(ctx, be, cols, [extra] + rows)
        ds = ds0.select('interaction < 40')
        t = Table.load(cols, [extra] + rows).select([('interaction', '<', 40)])
    elif hist == 2:      # ids assigned, then copied
        ds0 = ref.build(ctx, be, cols, rows)
        ds0.assign_internal_ids()
        ds = ds0.copy()
        t = Table.load(cols, rows)
    else:
        ds = ds0 = ref.build(ctx, be, cols, rows)
        t = Table.load(cols, rows)
    ds.assign_internal_ids()
    t = t.assign()
    recs = {(x['uid'], x['iid']): x for x in t.rows}
    pos = {p for p, x in recs.items() if th is None or x['interaction'] >= th}
    allp = {(t.umap[u], t.imap[i]) for u in us for i in it}
    neg = allp - pos
    label = f'{what} matrix {rows} threshold {th}'

    def explore(fn, horizon, want, check, limit=None):
        seen = set()
        if hist == 'big':       # every outcome of the first two draws, and real generators; only what is sampled is judged
            horizon, limit, want = 2, 1500 if what != 'sampler' else 300, None
            for s in range(40):
                ctx.step()
                try: seen |= {check(g, f'seed {s}') for g in fn(s)}
                except StopIteration: pass
        ex = Explorer(horizon=horizon, limit=limit)
        for res, path in ex.run(fn):
            ctx.step()
            if res is Horizon:
                ctx.count('paths cut at the horizon')
                continue
            for g in res:
                seen.add(check(g, path.taken))
        if want is not None and not want <= seen:
            for s in range(400):                # the library may draw in a way the explorer does not control
                try: seen |= {check(g, s) for g in fn(s)}
                except StopIteration: pass
                if want <= seen: break
            else: ctx.fail(f'{label}: {sorted(want - seen)} can never be sampled (seen {sorted(seen)})')
        ctx.outcome((what, tuple(sorted(seen, key=repr))))
        ctx.count('paths', ex.paths)

    def is_record(g, taken):
        ctx.check(isinstance(g, dict), f'{label}: sampled {g!r}')
        x = recs.get((g.get('uid'), g.get('iid')))
        ctx.check(x is not None and set(g) == set(x) and all(ref.same(x[k], g[k], k not in ('interaction',)) for k in x),
                  f'{label}: sampled record {g} (choices {taken}) is not one of {list(recs.values())}')
        return (x['uid'], x['iid'])

    def is_null(g, taken):
        ctx.check(len(g) == 2 and tuple(g) in neg, f'{label}: null pair {g} (choices {taken}); negative pairs are {sorted(neg)}, records {recs}')
        return tuple(g)

    def H(n): return n + (2 if ctx.tier == 'thorough' else 0)
    def L(n): return n * (20 if ctx.tier == 'thorough' else 1)

    before = snapshot(ds)
    def refused(fn):
        # no pair qualifies: on every path the request is refused, it neither searches forever nor returns something else
        def attempt():
            try: r = fn()
            except Exception: return 'refused'
            ctx.fail(f'{label}: sampled {r!r} although no negative pair exists')
        for res, path in Explorer(horizon=24, limit=60).run(attempt):
            ctx.step()
            ctx.check(res is not Horizon, f'{label}: no negative pair exists, and the search for one has not ended after 24 draws')
        ctx.outcome((what, 'refused'))

    if what == 'records':
        qs = [None, [('interaction', '>=', 2)], [('item', '==', it[-1])], [('user', '!=', us[0])], [('uid', '<=', 0)], [('interaction', '<', 2), ('iid', '>=', 0)]]
        for q in qs if th is None else [[('interaction', '>=', th)]]:
            el = t if q is None else t.select(q)
            want = {(x['uid'], x['iid']) for x in el.rows}

            def fn(seed=3, n=1):
                gen = ds.select_random_generator(None if q is None else qtext(q), seed=seed)
                out = [next(gen) for _ in range(n)]
                close(gen)
                return out

            def chk(g, taken):
                p = is_record(g, taken)
                ctx.check(p in want, f'{label}: sampled record {g} does not satisfy {q}')
                return p
            if not want:
                try: g = fn()
                except Exception: continue
                ctx.fail(f'{label}: sampled {g} although no record satisfies {q}')
            explore(fn, H(4), want, chk)
            if r * c <= 3: explore(lambda: fn(5, 2), H(6), None, chk)
    elif what == 'null':
        if not neg:
            refused(lambda: next(ds.null_interaction_pair_generator(interaction_threshold=th, seed=3)))
            return

        def fn(seed=3, n=1):
            gen = ds.null_interaction_pair_generator(interaction_threshold=th, seed=seed)
            out = [next(gen) for _ in range(n)]
            close(gen)
            return out
        explore(fn, H(4 if th is None else 6), neg, is_null)
        if r * c <= 3: explore(lambda: fn(5, 2), H(6 if th is None else 8), None, is_null, L(80))
    else:
        from DRecPy.Sampler import PointSampler

        def triple(g, taken):
            ctx.check(isinstance(g, tuple) and len(g) == 3, f'{label}: sampled {g!r}')
            u, i, v = g
            if v == 0 and (u, i) in neg: return ('neg', u, i)
            ctx.check((u, i) in pos and ref.same(recs[(u, i)]['interaction'], v), f'{label}: sampled {g} (choices {taken}); records {recs}')
            return ('pos', u, i)

        def neg_only(g, taken):
            x = triple(g, taken)
            ctx.check(x[0] == 'neg', f'{label}: sample_negative gave {g}, records {recs}')
            return x

        def pos_only(g, taken):
            x = triple(g, taken)
            ctx.check(x[0] == 'pos', f'{label}: sample_positive gave {g}, records {recs}')
            return x
        wp, wn = {('pos',) + p for p in pos}, {('neg',) + p for p in neg}
        if pos: explore(lambda seed=3: [PointSampler(ds, 3, interaction_threshold=th, seed=seed).sample_positive()], H(4), wp, pos_only)
        if neg: explore(lambda seed=3: [PointSampler(ds, 3, interaction_threshold=th, seed=seed).sample_negative()], H(4 if th is None else 6), wn, neg_only)
        else: refused(lambda: PointSampler(ds, 3, interaction_threshold=th, seed=3).sample_negative())
        if pos and neg:
            explore(lambda seed=3: [PointSampler(ds, 1, interaction_threshold=th, seed=seed).sample_one()], H(5 if th is None else 7), wp | wn, triple, L(80))

            def several(k):
                def fn(seed=1):
                    s = PointSampler(ds, 2, interaction_threshold=th, seed=seed)
                    out = s.sample(k)
                    ctx.check(len(out) == k, f'{label}: sample({k}) gave {len(out)} triples')
                    return out
                return fn
            explore(several(2), H(12), None, triple, L(60))
            explore(several(3), H(16), None, triple, L(40))
            if hist == 'big': explore(several(120), 0, None, triple)
        if pos: explore(lambda seed=3: PointSampler(ds, 0, interaction_threshold=th, seed=seed).sample(2), H(8), None, pos_only, L(60))
    ctx.check(before == snapshot(ds), f'{label}: the dataset was changed by sampling')
    ctx.state((what, r, c, tuple(m), th, hist))
    if be == 'db':
        ds.close()
        ds0.close()


def close(gen):
    if hasattr(gen, 'close'): gen.close()


def snapshot(ds):
    return [sorted((k, ref.plain(x)) for k, x in r.items()) for r in ds.values_list()]
