"""C24: every small request (item subset, order, n, novelty, threshold, skip) on every shipped model and on scripted models with every small score table."""
import itertools
import math
import os
from .. import ref
from ..models import fitted, scripted_class

NEEDS = ('all',)
RULE = ('a case is (model, backend, id kind, user or score table); all requests are enumerated inside; distinct_nontrivial counts distinct (model, ranking)')
ASSUMPTIONS = ['requests name each item at most once', 'equal scores may come in any order', 'Caser: every user has at least L records; it has no point predictions, so its scores are only compared between calls',
               'unknown items and users are not in the data given to fit']
CHUNK = 1
CASE_LIMIT_S = 240
USERS = {'int': [30, 10, 20], 'text': ["o'neil", 'a,b', 'c d']}
ITEMS = {'int': [7, 5, 900, 1], 'text': ['x', "i'1", 'a b', 'v5']}
UNKNOWN = {'int': (4242, -3), 'text': ('nobody', '')}
DATA = [(0, 0, 5), (0, 1, 1), (1, 1, 4), (1, 2, 2), (2, 3, 3), (0, 3, 2), (2, 0, 1), (1, 0, 3)]
SCORES = (None, 0, 1, 2.5, -1)


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')


def bounds(tier):
    return {'models': 'scripted, UserKNN, ItemKNN, CDAE, DMF, Caser', 'items': 4, 'requests': 'all subsets (quick: one or two orders; thorough all orders) with and without an unknown item', 'n': '0..5, none', 'threshold': [None, 0, 1, 2, 99],
            'score tables': 'all 5^4 (thorough) / all 5^3 x 2 (quick)'}


def cases(tier):
    for model in ('UserKNN', 'ItemKNN', 'CDAE', 'CDAE-mse', 'DMF', 'DMF-flat', 'Caser', 'Caser-item'):
        for be in ('mem', 'db'):
            for kind in ('int', 'text'):
                for epochs in (0, 3) if tier == 'thorough' else (2,):
                    for hist in (0, 1):
                        if tier == 'quick' and hist and (be == 'db') != (kind == 'int'): continue
                        yield ['shipped', model, be, kind, epochs, hist]
    for be in ('mem', 'db'):
        for kind in ('int', 'text'): yield ['errors', be, kind]
    for j, sc in enumerate(itertools.product(range(5), repeat=4)):
        if tier == 'quick' and (sc[3] > 1 or j % 2): continue
        yield ['scripted', 'db' if j % 7 == 0 else 'mem', 'int' if j % 3 else 'text', list(sc), j % 2]


def build_data(ctx, be, kind, hist):
    us, it = USERS[kind], ITEMS[kind]
    cols = ['user', 'item', 'interaction', 'timestamp']
    rows = [(us[u], it[i], v, 100 - 3 * q) for q, (u, i, v) in enumerate(DATA)]
    if not hist: return ref.build(ctx, be, cols, rows), rows, None
    # a dataset filtered before: users and items that are gone must stay unknown
    extra = (UNKNOWN[kind][0], UNKNOWN[kind][0], 9, 1)
    base = ref.build(ctx, be, cols, [extra] + rows)
    return base.select('interaction < 8'), rows, base


def make(model, ds, epochs):
    from DRecPy.Recommender import CDAE, DMF, Caser
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    if model == 'UserKNN': m = UserKNN(k=2, m=0, sim_metric='cosine', shrinkage=None, verbose=False)
    elif model == 'ItemKNN': m = ItemKNN(k=2, m=1, sim_metric='msd', aggregation='mean', use_averages=True, verbose=False)
    elif model == 'CDAE': m = CDAE(hidden_factors=3, seed=5, verbose=False)
    elif model == 'CDAE-mse': m = CDAE(hidden_factors=2, corruption_level=0, loss='mse', seed=2, verbose=False, interaction_threshold=2)
    elif model == 'DMF': m = DMF(user_factors=[4, 3], item_factors=[3], seed=5, verbose=False)
    elif model == 'DMF-flat': m = DMF(user_factors=[2], item_factors=[2], use_nce=False, l2_norm_vectors=False, seed=1, verbose=False)
    elif model == 'Caser': m = Caser(L=1, T=1, d=3, n_v=2, n_h=2, seed=5, verbose=False)
    elif model == 'Caser-item': m = Caser(L=2, T=1, d=2, n_v=1, n_h=2, sort_column='item', seed=5, verbose=False, dropout_rate=0)
    kw = dict(epochs=epochs, batch_size=2)
    if model.startswith('Caser'): kw['neg_ratio'] = 1
    if model == 'Caser-item': kw['epochs'] = 0 if epochs == 0 else 0      # no group has L + T positives in this data
    m.fit(ds, **kw)
    return m


def num(x): return float(x)


def one(ctx, case):
    if case[0] == 'errors': return errors(ctx, case)
    if case[0] == 'scripted':
        _, be, kind, sc, rot = case
        us, it = USERS[kind], ITEMS[kind]
        ds, rows, base = build_data(ctx, be, kind, 0)
        table = {i: SCORES[s] for i, s in zip(it, sc)}
        user = us[sum(sc) % 3]
        model = fitted(ds, lambda u, i: table[i] if u == user else 77)
        pred = {i: v for i, v in table.items() if v is not None}
        for i in it:
            got = model.predict(user, i, skip_errors=True)
            ctx.check(got == table[i], f'predict({user!r}, {i!r}) = {got}, the model says {table[i]}')
            if table[i] is None: raises(ctx, lambda: model.predict(user, i), f'predict({user!r}, {i!r}) without a prediction')
        requests(ctx, 'scripted', model, kind, user, pred, {i for u, i, _, _ in rows if u == user}, light=rot + 1)
    else:
        _, name, be, kind, epochs, hist = case
        us, it = USERS[kind], ITEMS[kind]
        ds, rows, base = build_data(ctx, be, kind, hist)
        model = make(name, ds, epochs)
        snap = snapshot(ds)
        for user in us:
            pred = {}
            if name.startswith('Caser'):
                pred = {i: num(s) for s, i in model.rank(user, it, novelty=False)}
                ctx.check(set(pred) == set(it), f'{name}: rank({user!r}, {it}, novelty=False) ranks {sorted(map(str, pred))}')
                raises(ctx, lambda: model.predict(user, it[0]), f'{name}: predict')
                ctx.check(model.predict(user, it[0], skip_errors=True) is None, f'{name}: predict with skip_errors')
            else:
                for i in it:
                    v = model.predict(user, i, skip_errors=True)
                    if v is not None: pred[i] = num(v)
            rated = {i for u, i, _, _ in rows if u == user}
            requests(ctx, name, model, kind, user, pred, rated, light=2 if ctx.tier == 'quick' else 0)
            if not name.startswith('Caser'):
                for i in it:
                    v = model.predict(user, i, skip_errors=True)
                    ctx.check((v is None) == (i not in pred) and (v is None or num(v) == pred[i]), f'{name}: predict({user!r}, {i!r}) changed from {pred.get(i)} to {v}')
        unknowns(ctx, name, model, kind)
        ctx.check(snap == snapshot(ds), f'{name}: the data was changed by predicting')
        if base is not None and be == 'db': base.close()
    if be == 'db': ds.close()


def requests(ctx, name, model, kind, user, pred, rated, light):
    it, unk = ITEMS[kind], UNKNOWN[kind][0]
    for r in range(len(it) + 1):
        for sub in itertools.combinations(it, r):
            orders = list(itertools.permutations(sub)) if not light else [sub, tuple(reversed(sub))][:1 if light == 2 or len(sub) < 2 else 2]
            for o, seq in enumerate(orders):
                for nov in (False, True):
                    can = {i: pred[i] for i in seq if i in pred and not (nov and i in rated)}
                    for n in ('-', 0, 1, len(seq)) if not light else ('-', 1) if len(seq) % 2 else ('-', len(seq) // 2):
                        if n != '-' and n > len(seq): continue
                        for extra in (0, 1):
                            if extra and (light and (r + o + (n != '-')) % 2): continue
                            req = list(seq)
                            if extra: req.insert(len(req) // 2, unk)
                            kw = {'novelty': nov}
                            if n != '-': kw['n'] = n
                            if extra and nov: kw['skip_invalid_items'] = True
                            lab = f'{name}: rank({user!r}, {req}, {kw})'
                            keep = list(req)
                            got = model.rank(user, req, **kw)
                            judge(ctx, lab, got, can, len(seq) if n == '-' else n)
                            ctx.check(req == keep, f'{lab}: the request list was modified to {req}')
                            if extra: raises(ctx, lambda: model.rank(user, req, novelty=nov, skip_invalid_items=False), lab + ' without skipping')
                            ctx.state((name, user, tuple(req), nov, n))
    for n in (None, 0, 1, 2, 3, 4, 5):
        for nov in (None, False, True):
            for th in (None, 0, 1, 2, 99, 0.5):
                if light == 2 and th not in (None, 1, 0.5) and n not in (None, 2): continue
                kw = {}
                if n is not None: kw['n'] = n
                if nov is not None: kw['novelty'] = nov
                if th is not None: kw['interaction_threshold'] = th
                can = {i: pred[i] for i in it if i in pred and not (nov is not False and i in rated)}
                lab = f'{name}: recommend({user!r}, {kw})'
                full = sorted(can.values(), reverse=True)
                got = model.recommend(user, **kw)
                judge(ctx, lab, got, {i: v for i, v in can.items() if th is None or v >= th}, len(it) if n is None else n)


def judge(ctx, label, got, can, n):
    ctx.step()
    ctx.check(isinstance(got, list) and all(isinstance(x, tuple) and len(x) == 2 for x in got), f'{label}: {got!r}')
    got = [(num(s), i) for s, i in got]
    ids = [i for _, i in got]
    k = min(n, len(can))
    ok = len(set(ids)) == len(ids) == k and set(ids) <= set(can) and all(abs(s - can[i]) <= 1e-6 * max(1, abs(s)) for s, i in got)
    ok = ok and all(got[a][0] >= got[a + 1][0] for a in range(len(got) - 1))
    if ok and got and len(got) < len(can): ok = got[-1][0] >= max(v for i, v in can.items() if i not in ids) - 1e-6
    ctx.check(ok, f'{label}: {got}; the {k} best of {can} expected')
    ctx.outcome((label.split(':')[0], tuple((round(s, 6), i) for s, i in got)))


def raises(ctx, f, what):
    ctx.step()
    try: x = f()
    except Exception: return
    ctx.fail(f'{what}: expected an error, got {x!r}')


def unknowns(ctx, name, model, kind):
    us, it = USERS[kind], ITEMS[kind]
    for bad in UNKNOWN[kind] + (None,):
        for f, what in ((lambda: model.predict(bad, it[0]), 'predict(user'), (lambda: model.predict(us[0], bad), 'predict(item'), (lambda: model.recommend(bad), 'recommend('),
                        (lambda: model.rank(bad, it), 'rank('), (lambda: model.rank(us[0], [bad] + it, skip_invalid_items=False), 'rank(items')):
            raises(ctx, f, f'{name}: {what} {bad!r})')
        for u, i in ((bad, it[0]), (us[0], bad), (bad, bad)):
            got = model.predict(u, i, skip_errors=True)
            ctx.check(got is None, f'{name}: predict({u!r}, {i!r}, skip_errors=True) = {got!r}')
        if bad is None: continue
        got = model.rank(us[0], [bad], novelty=False)
        ctx.check(got == [], f'{name}: rank({us[0]!r}, [{bad!r}]) = {got!r}')
    raises(ctx, lambda: model.rank(us[0], it[:2], n=3), f'{name}: rank of 2 items with n=3')


def errors(ctx, case):
    from DRecPy.Recommender import CDAE, DMF, Caser
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    _, be, kind = case
    us, it = USERS[kind], ITEMS[kind]
    for m in (UserKNN(verbose=False), ItemKNN(verbose=False), CDAE(verbose=False), DMF(verbose=False), Caser(verbose=False), scripted_class()(lambda u, i: 1)):
        name = type(m).__name__
        raises(ctx, lambda: m.predict(us[0], it[0]), f'unfitted {name}: predict')
        raises(ctx, lambda: m.recommend(us[0]), f'unfitted {name}: recommend')
        raises(ctx, lambda: m.rank(us[0], it), f'unfitted {name}: rank')
    ds, rows, _ = build_data(ctx, be, kind, 0)
    model = fitted(ds, lambda u, i: 'boom' if i == it[1] else 2)
    unknowns(ctx, 'scripted', model, kind)
    raises(ctx, lambda: model.predict(us[0], it[1]), 'predict of a failing model')
    ctx.check(model.predict(us[0], it[1], skip_errors=True) is None, 'predict of a failing model with skip_errors')
    ctx.state(('errors', be, kind))


def snapshot(ds):
    return [sorted((k, ref.plain(x)) for k, x in r.items()) for r in ds.values_list()]
