"""C18: every small test set x recommendation evaluation setting, over a scripted model and a recording metric."""
import itertools
from .. import ref, evalref
from ..models import fitted
from .c17 import USERS, ITEMS, VALS, TRAIN, score, Obs_snapshot

NEEDS = ('all',)
RULE = ('a case is (backend, id kind, test values of each user, shape, train evaluation); all settings are enumerated inside; distinct_nontrivial counts distinct result dictionaries')
ASSUMPTIONS = ['scripted model with distinct scores', 'one record per (user, item)', 'worker threads are scheduled by the operating system here (C14 explores schedules)']
CHUNK = 2
THRESHOLD = 3


def bounds(tier):
    return {'users': 'up to 3 (and 130)', 'items': '5 (and 130)', 'test vectors': 'all 4^3 for the first user x selected second users', 'n_pos': [None, 1, 2, 3], 'k': '3, [1,2], [4,1,2], 9', 'prediction threshold': [None, 2, 2.5, 100, 0]}


def cases(tier):
    for be in ('mem', 'db'):
        for nu, ni in ((130, 8), (6, 130)):
            for v in range(3): yield ['large', be, nu, ni, v]
    second = [(None, None, None, None), (5, None, 1, None), (3, 4, None, 1), (1, None, 1, None)]
    vecs = sorted(itertools.product(VALS, repeat=3), key=lambda v: (sum(x is not None for x in v), str(v)))
    for v in vecs:
        for b, w in enumerate(second if tier == 'thorough' else second[:1] + [second[1 + (sum(x or 0 for x in v) % 3)]]):
            for be in ('mem', 'db'):
                h = sum(x or 0 for x in v) + b
                if tier == 'quick' and be == 'db' and h % 2: continue
                yield [be, 'int' if h % 2 else 'text', list(v), list(w), h % 3]
    for be in ('mem', 'db'):
        for kind in ('int', 'text'):
            for shape in ('unknown-user', 'unknown-item', 'default-threshold', 'zero-threshold', 'train', 'train-same', 'none-scores', 'filtered'):
                for v in ((5, 3, 1), (3, None, 5), (1, 1, 5), (None, 1, 1)):
                    yield [be, kind, list(v), [5, None, 1, 3], 0, shape]


def one(ctx, case):
    from DRecPy.Evaluation.Metrics import Precision, Recall, HitRatio, NDCG, ReciprocalRank
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    if case[0] == 'large': return large(ctx, *case[1:])
    be, kind, v, w, h = case[:5]
    shape = case[5] if len(case) > 5 else None
    us, it = USERS[kind], ITEMS[kind]
    cols = ['user', 'item', 'interaction']
    sc = score(kind)
    threshold = THRESHOLD
    train = {us[a]: {it[b]: TRAIN[a][b] for b in range(5) if TRAIN[a][b] is not None} for a in range(3)}
    test = {}
    order = (1, 2, 3) if h == 0 else (3, 0, 2) if h == 1 else (4, 1, 3)
    tv = {it[order[j]]: v[j] for j in range(3) if v[j] is not None}
    tw = {it[j]: w[j] for j in range(4) if w[j] is not None}
    if tv: test[us[0]] = tv
    if tw: test[us[1]] = tw
    if shape == 'unknown-user': test['nobody' if kind == 'text' else 4242] = {it[0]: 5, it[1]: 1}
    if shape == 'unknown-item': test[us[0]]['never' if kind == 'text' else 4242] = 5
    if shape == 'default-threshold':
        test = {u: {i: (0 if x == 1 else 0.0005 if x == 3 else 0.001) for i, x in d.items()} for u, d in test.items()}
        threshold = 1e-3
    if shape == 'zero-threshold':
        test = {u: {i: {1: -2, 3: 0, 4: 0.5, 5: 4}.get(x, x) for i, x in d.items()} for u, d in test.items()}
        threshold = 0
    if shape == 'none-scores':
        full = sc
        sc = lambda u, i: None if i in (it[1], it[2]) else full(u, i)
    if shape in ('train', 'train-same'): test = train
    if not test: return
    rows = [(u, i, x) for u, d in test.items() for i, x in d.items()]
    rows = rows[::2] + rows[1::2]
    trows = [(u, i, x) for u, d in train.items() for i, x in d.items()]
    ds_train = ref.build(ctx, be, cols, trows)
    model = fitted(ds_train, sc, **({} if shape == 'default-threshold' else {'interaction_threshold': threshold} if h == 2 else {'interaction_threshold': 4} if shape == 'zero-threshold' else {}))
    if shape == 'filtered':
        ds_test = ref.build(ctx, be, cols, [(us[2], it[0], 99)] + rows + [(us[2], it[0], -7)]).select('interaction < 50').select('interaction > -5')
    else: ds_test = None if shape == 'train' else ds_train if shape == 'train-same' else ref.build(ctx, be, cols, rows)
    te, tr = Obs_snapshot(ds_test), Obs_snapshot(ds_train)
    U = evalref.Users(train, test, sc, threshold)
    users = list(dict.fromkeys(r[0] for r in rows))
    n = 0
    for n_pos in (None, 1, 2, 3):
        for low in (None, 2, 2.5, 100, 0):
            for novelty in (False, True):
                for ks in ([3], [1, 2], [4, 1, 2], [9]):
                    n += 1
                    if ctx.tier == 'quick' and (n + h) % 3 and not (n_pos is None and low is None): continue
                    ntu = (None, 1, 2, 5)[(n // 3 + h) % 4]
                    rec = evalref.recorder()
                    others = [Precision(), Recall(), HitRatio(), NDCG(), ReciprocalRank()][:2 + n % 4]
                    kw = dict(verbose=False, metrics=[rec] + others, k=ks[0] if len(ks) == 1 else list(ks), novelty=novelty, seed=n % 5, max_concurrent_threads=1 + n % 3)
                    if n_pos is not None: kw['n_pos_interactions'] = n_pos
                    if low is not None: kw['ignore_low_predictions_threshold'] = low
                    if ntu is not None: kw['n_test_users'] = ntu
                    if ds_test is not None: kw['ds_test'] = ds_test
                    if shape != 'default-threshold' and h != 2: kw['interaction_threshold'] = threshold
                    what = f'recommendation_evaluation({ {a: b for a, b in kw.items() if a not in ("metrics", "ds_test")} }) train={train} test={test}'
                    got = recommendation_evaluation(model, **kw)
                    ctx.step()
                    evalref.judge(ctx, what, got, rec, others, ks, users, len(users) if ntu is None else ntu,
                                  lambda u: evalref.status_recommendation(U, u, n_pos),
                                  lambda u, c: evalref.accepts_recommendation(U, u, c, n_pos, ks, novelty, low))
                    ctx.state((be, kind, tuple(v), tuple(w), h, shape, n_pos, low, novelty, tuple(ks)))
    ctx.check(te == Obs_snapshot(ds_test) and tr == Obs_snapshot(ds_train), 'a dataset was changed by the evaluation')
    if be == 'db':
        if ds_test is not None: ds_test.close()
        ds_train.close()

def large(ctx, be, nu, ni, v):
    """More users or items than any small count."""
    from DRecPy.Evaluation.Metrics import Precision, NDCG, ReciprocalRank
    from DRecPy.Evaluation.Processes import recommendation_evaluation
    cols = ['user', 'item', 'interaction']
    us, it = [3 * u + 1 for u in range(nu)], [7 * i + 2 for i in range(ni)]
    sc = lambda u, i: ((u * 7919 + i * 104729 + u * i) % 9973) / 99.73
    train = {u: {i: 1 + (a + b) % 5 for b, i in enumerate(it) if (a + 2 * b + a * b) % 3 == 0 or a % ni == b} for a, u in enumerate(us)}
    test = {u: {i: 1 + (2 * a + b) % 5 for b, i in enumerate(it) if i not in train[u] and (a * b + a + b) % 3} for a, u in enumerate(us)}
    test = {u: d for u, d in test.items() if d}
    known = {i for d in train.values() for i in d}
    test = {u: {i: x for i, x in d.items() if i in known} for u, d in test.items()}
    rows = [(u, i, x) for u, d in test.items() for i, x in d.items()]
    rows = rows[::2] + rows[1::2]
    ds_train = ref.build(ctx, be, cols, [(u, i, x) for u, d in train.items() for i, x in d.items()])
    ds_test = ref.build(ctx, be, cols, rows)
    model = fitted(ds_train, sc)
    U = evalref.Users(train, test, sc, 3)
    users = list(dict.fromkeys(r[0] for r in rows))
    low = (None, 2, 50)[v]
    for q, (n_pos, ntu, ks, novelty) in enumerate((((None, None, [10], True), (1, 100, [1, 50, 5], False), (2, 65, [3], True), (None, 1000, [100, 2], False)))):
        rec = evalref.recorder()
        others = [Precision(), NDCG(), ReciprocalRank()]
        kw = dict(ds_test=ds_test, verbose=False, metrics=[rec] + others, k=ks[0] if len(ks) == 1 else list(ks), novelty=novelty, seed=q, max_concurrent_threads=1 + q % 4, interaction_threshold=3)
        if n_pos is not None: kw['n_pos_interactions'] = n_pos
        if low is not None: kw['ignore_low_predictions_threshold'] = low
        if ntu is not None: kw['n_test_users'] = ntu
        what = f'recommendation_evaluation({ {a: b for a, b in kw.items() if a not in ("metrics", "ds_test")} }) {nu} users, {ni} items, variant {v}'
        got = recommendation_evaluation(model, **kw)
        ctx.step()
        evalref.judge(ctx, what, got, rec, others, ks, users, len(users) if ntu is None else ntu,
                      lambda u: evalref.status_recommendation(U, u, n_pos),
                      lambda u, c: evalref.accepts_recommendation(U, u, c, n_pos, ks, novelty, low))
    ctx.outcome((be, nu, ni, v))
    if be == 'db':
        ds_test.close()
        ds_train.close()
