"""C20: every small group structure x list sampler setting x every outcome of the random source."""
import itertools
from .. import ref
from ..ref import Table
from ..choice import Explorer, Horizon, install

NEEDS = ('all',)
RULE = ('a case is (backend, id kind, items/values/sort keys per group, group columns); all settings are enumerated inside, each with every path of the random choice tree '
        'up to the horizon; distinct_nontrivial counts distinct (setting, set of reachable sequences)')
ASSUMPTIONS = ['an unlucky series of choices of ineligible groups may raise (documented maximum of tries)', 'paths cut at the horizon of draws']
CHUNK = 1
CASE_LIMIT_S = 120
USERS = {'int': [30, 10, 20], 'text': ["o'neil", 'a,b', 'c d']}
ITEMS = {'int': [7, 5, 900, 1, 12], 'text': ['x', "i'1", 'a b', 'v5', 'z']}
COLS = ['user', 'item', 'interaction', 'timestamp']


def before_import():
    install()


def bounds(tier):
    return {'groups': 'up to 3 of up to 5 records', 'items': 5, 'min': '1..3', 'max': 'none, min..min+1', 'targets': 'none, 1, 2', 'neg_ratio': '0..3', 'threshold': 'none, 3', 'sort': 'none, timestamp', 'larger': 'groups of up to 257 records, up to 30 groups, up to 72 negatives: 16 paths of the choice tree and up to 600 seeds each', 'horizon': 'draws for one sample and 1-2 rejected groups'}


PROFILES = [(1,), (2,), (3,), (4,), (5,), (2, 1), (3, 2), (1, 4), (4, 3), (5, 2), (3, 3, 1), (2, 4, 3)]


# group sizes, min, max, targets, negatives per target
BIG = [((130, 40, 60), 20, None, None, 1), ((130, 40, 60), 25, 127, 2, 10), ((70, 70, 66), 30, 64, None, 1), ((33, 129, 65), 20, None, 12, 6), ((100, 100, 9), 15, 98, 1, 60),
       ((3,) * 30, 2, None, 1, 4), ((2, 5) * 9 + (12, 17), 3, None, None, 1), ((257, 40), 20, 255, 1, 3)]


def cases(tier):
    for j, (prof, mn, mx, nt, nr) in enumerate(BIG):
        for low in (0, 7):
            for gc in (['uid'], ['user', 'half']):
                if gc[1:] and (j not in (0, 3)): continue
                for be in ('mem', 'db') if tier == 'thorough' or (j + low) % 3 == 0 else ('mem',):
                    yield [be, 'int' if j % 2 else 'text', list(prof), low, j % 3, gc, [mn, mx, nt, nr]]
    for prof in PROFILES if tier == 'quick' else PROFILES + [(5, 4, 3), (4, 4, 4), (1, 1, 5), (5, 5)]:
        for low in (0, 1, 2):             # how many of each group's records are below the threshold
            for order in range(3):
                if tier == 'quick' and len(prof) > 1 and (low + order) % 3 == sum(prof) % 3: continue
                for be in ('mem', 'db'):
                    if tier == 'quick' and be == 'db' and (sum(prof) + low + order) % 4: continue
                    for gc in (['uid'], ['user'], ['user', 'half'], ['uid', 'half']):
                        if len(gc) == 2 and (sum(prof) < 5 or low == 1 or tier == 'quick' and order != sum(prof) % 3): continue
                        if gc == ['user'] and (sum(prof) + order + low) % (2 if tier == 'thorough' else 4): continue
                        yield [be, 'int' if (sum(prof) + order) % 2 else 'text', list(prof), low, order, gc]


def one(ctx, case):
    from DRecPy.Sampler import ListSampler
    be, kind, prof, low, order, gc = case[:6]
    us, it = USERS[kind], ITEMS[kind]
    m = 5
    if len(case) > 6:
        n, m = len(prof), max(prof) * 2 + 7
        us, it = ([f'u{x * 7 % 1009}' for x in range(n)], [f'i{x * 5 % 1009}' for x in range(m)]) if kind == 'text' else ([x * 7 % 1009 for x in range(n)], [x * 5 % 1009 + 1 for x in range(m)])
    cols = COLS + (['half'] if 'half' in gc else [])
    rows = []
    for a, n in enumerate(prof):
        for j in range(n):
            val = 1 if (j + a) % n < low else 3 + j % 2
            ts = [j, n - j, (j * 2) % 3][order] + (0.5 if order == 1 else 0)
            rows.append((us[a], it[(j + a) % m], val, ts) + ((('lo', 'hi')[j % 2] if order else j % 2,) if 'half' in gc else ()))
    rows = rows[::2] + rows[1::2] if order != 2 else rows[::-1]
    ds = ref.build(ctx, be, cols, rows)
    ds.assign_internal_ids()
    t = Table.load(cols, rows).assign()
    groups = {}
    for r in t.rows: groups.setdefault(tuple(r[c] for c in gc), []).append(r)
    before = snapshot(ds)
    big = ctx.tier == 'thorough'
    if len(case) > 6:
        mn, mx, nt, nr = case[6]
        if gc[1:]: mn, mx = mn // 2, None
        for sc in (None, 'timestamp'):
            for th in (None, 3) if low else (None,):
                setting(ctx, ListSampler, ds, t, groups, gc, th, mn, mx, nt, nr, sc, 'item' if order else None, big)
        ctx.check(before == snapshot(ds), 'the dataset was changed by sampling')
        if be == 'db': ds.close()
        return
    for th in (None, 3):
        for mn in (1, 2, 3):
            for mx in (None, mn, mn + 1):
                for nt, nr in ((None, 3), (1, 1), (1, 2), (2, 1), (1, 0), (1, 3)):
                    for sc in (None, 'timestamp'):
                        h = mn + (mx or 0) + (nt or 0) + nr
                        if not big and (h + (sc is None) + order + (th or 0)) % (2 if nr == 1 else 4): continue
                        negcol = ('iid', 'item', None)[(h + order) % 3]
                        setting(ctx, ListSampler, ds, t, groups, gc, th, mn, mx, nt, nr, sc, negcol, big)
    ctx.check(before == snapshot(ds), 'the dataset was changed by sampling')
    if be == 'db': ds.close()


def setting(ctx, ListSampler, ds, t, groups, gc, th, mn, mx, nt, nr, sc, negcol, big):
    nc = negcol or 'iid'
    allneg = {r[nc] for r in t.rows}
    kw = dict(n_targets=nt, min_positive_records=mn, max_positive_records=mx, interaction_threshold=th, sort_column=sc, neg_ratio=nr)
    if negcol is not None: kw['negative_ids_col'] = negcol
    label = f'ListSampler({gc}, {kw}) on {[tuple(r.values()) for r in t.rows]}'
    srt = lambda rs: sorted(rs, key=lambda r: (r[sc], r['rid']) if sc else r['rid'])
    pos = {g: srt([r for r in rs if th is None or r['interaction'] >= th]) for g, rs in groups.items()}
    elig = {}
    for g, rs in pos.items():
        need = mn + (nt or 0)
        if len(rs) < need: continue
        if nt is not None and len(allneg - {r[nc] for r in rs}) < nr * nt: continue
        k = len(rs) - (nt or 0)
        k = k if mx is None else min(k, mx)
        elig[g] = (k, len(rs) - k - (nt or 0))     # positives, last offset
    tied = sc is not None and any(len({r[sc] for r in rs}) < len(rs) for rs in pos.values())

    def sample(seed=4, n=1): return ListSampler(ds, list(gc), seed=seed, **kw).sample_group_records(n)

    def judge(out, n, taken):
        ctx.check(isinstance(out, list) and len(out) == n, f'{label}: {n} sequences requested, got {out!r}')
        res = []
        for x in out:
            if nt is None: P, T, N = x, [], []
            else:
                ctx.check(isinstance(x, tuple) and len(x) == 3, f'{label}: sampled {x!r}')
                P, T, N = x
            full = list(P) + list(T)
            ctx.check(bool(full), f'{label}: empty sequence')
            by = {r['rid']: r for r in t.rows}
            for r in full:
                e = by.get(r.get('rid'))
                ctx.check(e is not None and set(r) == set(e) and all(ref.same(e[k], r[k], k in ('user', 'item', 'rid', 'uid', 'iid')) for k in e), f'{label}: {r} is not a record of the dataset')
            g = tuple(by[full[0]['rid']][c] for c in gc)
            ctx.check(g in elig, f'{label}: sampled ineligible group {g}: {x} (choices {taken})')
            rids = [r['rid'] for r in full]
            if not tied:
                ref_rids = [r['rid'] for r in pos[g]]
                ok = any(rids == ref_rids[o:o + len(rids)] for o in range(len(ref_rids)))
                off = ref_rids.index(rids[0]) if rids[0] in ref_rids else None
            else:
                keys, ref_keys = [by[r][sc] for r in rids], [r[sc] for r in pos[g]]
                ok = len(set(rids)) == len(rids) and set(rids) <= {r['rid'] for r in pos[g]} and any(keys == ref_keys[o:o + len(keys)] for o in range(len(ref_keys)))
                off = None
            ctx.check(ok, f'{label}: {rids} is not a contiguous sorted run of the positives {[(r["rid"], r.get(sc)) for r in pos[g]]} of group {g} (choices {taken})')
            ctx.check(mn <= len(P) and (mx is None or len(P) <= mx), f'{label}: {len(P)} positives (choices {taken}): {x}')
            if nt is not None:
                ctx.check(len(T) == nt, f'{label}: {len(T)} targets: {x}')
                used = {r[nc] for r in pos[g]}
                ctx.check(len(N) == nr * nt and len(set(N)) == len(N) and set(N) <= allneg - used, f'{label}: negatives {N}; ids {allneg}, positives {used} (choices {taken})')
            res.append((g, off))
        return res
    if not elig:
        for s in range(3):
            try: out = sample(s)
            except Exception: continue
            ctx.fail(f'{label}: no group is eligible, but got {out}')
        ctx.step(3)
        ctx.outcome(('raises', mn, mx, nt, nr))
        return
    want = {(g, o if not tied else None) for g, (k, last) in elig.items() for o in range(last + 1)}
    if mx is None: want = {(g, 0 if not tied else None) for g in elig}
    seen = set()
    draws = 1 + (1 if mx is not None else 0) + (nr * nt if nt else 0)
    ex = Explorer(horizon=draws + (1 if len(elig) < len(groups) else 0) + (1 if big else 0), limit=2000 if big else 16, wide=draws if big else 2 if mx is not None else 1)
    def unlucky():
        try: return sample()
        except Exception:
            if draws > 18 and len(elig) < len(groups): return Horizon      # the path that keeps choosing one ineligible group
            raise
    for out, path in ex.run(unlucky):
        ctx.step()
        if out is Horizon:
            ctx.count('paths cut at the horizon')
            continue
        seen |= set(judge(out, 1, path.taken))
    for s in range(600):
        if want <= seen and s >= 2: break
        try: out = sample(s, 1 if s else 3)
        except Exception:
            if not want <= seen and s < 599 or s < 2 and len(elig) < len(groups): continue
            raise
        ctx.step()
        seen |= set(judge(out, 1 if s else 3, f'seed {s}'))
    ctx.check(want <= seen, f'{label}: {want - seen} can never be sampled')
    ctx.outcome((mn, mx, nt, nr, tuple(sorted(seen, key=repr))))
    ctx.state((tuple(sorted(groups)), tuple(len(x) for x in pos.values()), th, mn, mx, nt, nr, sc))


def snapshot(ds):
    return [sorted((k, ref.plain(x)) for k, x in r.items()) for r in ds.values_list()]
