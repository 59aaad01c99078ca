"""C26: all short histories of fits over a set of datasets, every model compared with a new model that saw only the last fit."""
import gc
import itertools
import math
import os
from .. import ref
from .c25 import CallbackBoom, classes, w_after

NEEDS = ('all',)
RULE = 'a case is (model, backend, history of fits and failed fits, copy_dataset, later changes of the data); distinct_nontrivial counts distinct (model, final predictions)'
ASSUMPTIONS = ['the oracle for a refitted model is the same class fitted once on fresh data with the same settings and seed (differential)',
               'a fit that raises must raise the same kind of error for a new model']
CHUNK = 2
CASE_LIMIT_S = 180
COLS = ['user', 'item', 'interaction', 'timestamp']
DATA = {
    0: [(30, 7, 5, 9), (30, 5, 1, 8), (10, 5, 4, 7), (10, 900, 2, 6), (20, 1, 3, 5), (30, 1, 2, 4), (20, 7, 1, 3), (10, 7, 3, 2)],
    1: [(10, 5, 1, 1), (10, 7, 5, 2), (10, 3, 2, 3), (40, 5, 2, 9), (40, 3, 4, 5), (40, 8, 1, 4), (30, 8, 3, 1), (30, 3, 1, 2)],
    2: [(30, 7, 1, 1), (30, 5, 5, 2), (10, 5, 2, 3), (10, 900, 4, 4), (20, 1, 1, 5), (30, 1, 4, 6), (20, 7, 5, 7), (10, 7, 1, 8)],
    3: [(20, 5, 3, 1), (20, 7, 1, 2), (30, 7, 2, 3), (30, 9, 1, 4)],
    4: [("o'n", 'a b', 5, 1), ("o'n", 'x', 1, 2), ('q', 'x', 2, 3), ('q', 'y', 4, 4), ('q', 'a b', 3, 5), ('z', 'y', 1, 6), ('z', 'x', 2, 7)],
}
KNN = ('UserKNN', 'UserKNN-avg', 'ItemKNN', 'ItemKNN-pearson')
DEEP = ('CDAE', 'DMF', 'Caser')
TRAINED = ('var', 'layer', 'mix', 'two', 'built')


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'


def bounds(tier):
    return {'fits': 'up to 3', 'datasets': len(DATA), 'models': list(KNN + DEEP + TRAINED) + ['scripted'], 'copy_dataset': 'both',
            'later changes': 'apply, select in place, drop, unique, id removal, close'}


MUTATIONS = ('apply', 'select', 'drop', 'removeids', 'close', 'unique')


VALUES = {'stop': [9, 8, 7], 'failcb': [9, 8, 7], 'up': [1, 2, 3], 'mid': [4, 6, 5], 'long': [2, 3, 7, 4, 1]}   # callback results per event
HAS_RULE = tuple(VALUES)


def hash_(hist):
    return sum((j + 1) * len(h) for j, h in enumerate(hist))


def cases(tier):
    q = tier == 'quick'
    ds = list(DATA)
    for name in KNN + ('scripted',):
        for be in ('mem', 'db'):
            for n in (1, 2, 3):
                for hist in itertools.product(ds, repeat=n):
                    if n == 3 and q and ((sum(hist) + hist[1]) % (9 if be == 'db' else 3) or hist[0] == hist[1] == hist[2]): continue
                    yield [name, be, [['fit', d] for d in hist], False, None]
            for d in ds:
                for mut in MUTATIONS:
                    for hist in ([['fit', d]], [['fit', (d + 1) % 5], ['fit', d]]): yield [name, be, hist, True, mut]
            for a, b in itertools.product(ds, ds): yield [name, be, [['fit', a], ['failnone'], ['fit', b]], False, None]
    for name in DEEP:
        for be in ('mem', 'db'):
            for n in (1, 2, 3):
                for j, hist in enumerate(itertools.product(ds, repeat=n)):
                    if q and n == 3: continue
                    if q and n == 2 and (be == 'db') != (j % 2 == 1): continue
                    yield [name, be, [['fit', d] for d in hist], False, None]
            for j, mut in enumerate(MUTATIONS):
                yield [name, be, [['fit', (j + 1) % 5], ['fit', j % 5]], True, mut]
            for a, b in ((0, 1), (1, 0), (4, 2)):
                yield [name, be, [['failcb', a], ['fit', b]], False, None]
                yield [name, be, [['fit', b], ['failcb', a], ['fit', b]], False, None]
                yield [name, be, [['stop', a], ['fit', b]], False, None]
                yield [name, be, [['stop', a], ['up', b]], False, None]
                yield [name, be, [['long', a], ['mid', b]], False, None]
    for kind in TRAINED:
        ev = ('fit', 'stop', 'failcb', 'up', 'mid', 'long')
        for hist in itertools.chain(*(itertools.product(ev if n < 3 or not q else ev[:4], repeat=n) for n in (1, 2, 3))):
            for d in (0, 3):
                if hist[-1] == 'failcb' or q and len(hist) > 1 and d == (3 if len(hist) == 3 or hash_(hist) % 2 else 0): continue
                yield ['trained:' + kind, 'mem', [[h, (d + j) % 4] for j, h in enumerate(hist)], False, None]


def make(name):
    from DRecPy.Recommender import CDAE, DMF, Caser
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    if name == 'UserKNN': return UserKNN(k=2, m=1, sim_metric='cosine', shrinkage=10, verbose=False)
    if name == 'UserKNN-avg': return UserKNN(k=1, m=2, sim_metric='jaccard', shrinkage=None, use_averages=True, aggregation='mean', verbose=False)
    if name == 'ItemKNN': return ItemKNN(k=2, m=1, sim_metric='cosine_cf', shrinkage=None, verbose=False)
    if name == 'ItemKNN-pearson': return ItemKNN(k=3, m=1, sim_metric='pearson', shrinkage=2, use_averages=True, verbose=False)
    if name == 'CDAE': return CDAE(hidden_factors=3, seed=5, verbose=False)
    if name == 'DMF': return DMF(user_factors=[4, 3], item_factors=[3], seed=5, verbose=False)
    if name == 'Caser': return Caser(L=1, T=1, d=3, n_v=2, n_h=2, seed=5, verbose=False)
    if name == 'scripted':
        from ..models import scripted_class
        return scripted_class()(lambda u, i: float(len(str(u)) * 3 + len(str(i))))
    return classes()['Trained'](name.split(':')[1], verbose=False)


def fit(name, m, ds, event, copy):
    """Runs one fit; returns None or the kind of error."""
    import tensorflow as tf
    kw = dict(epochs=3, batch_size=2, copy_dataset=copy)
    if name == 'Caser': kw['neg_ratio'] = 1
    if name.startswith('trained'): kw['optimizer'] = tf.keras.optimizers.SGD(1.)
    calls = []

    def cb(model):
        calls.append(1)
        if event[0] == 'failcb' and len(calls) == 2: raise CallbackBoom('x')
        return {'m': VALUES[event[0]][len(calls) - 1]}
    if event[0] == 'long': kw['epochs'] = 5
    if event[0] in HAS_RULE:
        from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
        kw.update(epoch_callback_fn=cb, epoch_callback_freq=1, early_stopping_rule=MaxValidationValueRule('m'), early_stopping_freq=1)
    try:
        m.fit(ds, **kw)
    except Exception as e:
        return type(e).__name__
    return None


def num(x):
    x = None if x is None else float(x)
    return 'nan' if x is not None and math.isnan(x) else None if x is None else round(x, 5)


def probe(name, m):
    users = sorted({r[0] for d in DATA.values() for r in d}, key=str)
    items = sorted({r[1] for d in DATA.values() for r in d}, key=str)
    out = {'n': (m.n_users, m.n_items, m.n_rows, num(m.min_interaction), num(m.max_interaction))}
    known = []
    for u in users:
        for i in items:
            try:
                out['p', str(u), str(i)] = p = num(m.predict(u, i, skip_errors=True))
            except Exception as e: out['p', str(u), str(i)] = p = type(e).__name__
        for nov in (True, False):
            for what, f in (('rank', lambda: m.rank(u, items, novelty=nov)), ('rec', lambda: m.recommend(u, n=3, novelty=nov))):
                try:
                    r = f()
                    out[what, str(u), nov] = [num(s) for s, _ in r]
                    scores = [num(s) for s, _ in r]
                    if len(set(scores)) == len(scores): out[what + '-items', str(u), nov] = [i for _, i in r]
                except Exception as e: out[what, str(u), nov] = type(e).__name__
    if name.startswith('trained'): out['w'] = m.weights()
    return out


def diff(a, b):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k)][:4]


def content(ds):
    return (sorted(ds.columns), sorted(tuple(sorted((k, str(v)) for k, v in r.items())) for r in ds.values_list()), len(ds), ds.has_internal_ids)


def one(ctx, case):
    name, be, hist, copy, mut = case
    d = f'{case}: '
    m = make(name)
    last = None
    for j, event in enumerate(hist):
        if event[0] == 'failnone':
            try: m.fit(None)
            except Exception: continue
            ctx.fail(d + 'fit(None) did not raise')
        ds = ref.build(ctx, be, COLS, DATA[event[1]])
        final = j == len(hist) - 1
        before = content(ds) if copy else None
        err = fit(name, m, ds, event, copy)
        ctx.step()
        if copy: ctx.check(content(ds) == before, d + f'fit with copy_dataset changed the given dataset: {before} -> {content(ds)}')
        if event[0] == 'failcb': ctx.check(err == 'CallbackBoom', d + f'a failing callback gave {err}')
        if not final and err is None and j % 2 == 0: probe(name, m)
        last = (event, err, ds)
    event, err, ds = last
    fresh = make(name)
    fresh_err = fit(name, fresh, ref.build(ctx, be, COLS, DATA[event[1]]), event, False)
    ctx.check(err == fresh_err, d + f'the last fit gave {err}, a new model {fresh_err}')
    if err is not None:
        ctx.count('fits that raise')
        return
    want = probe(name, fresh)
    got = probe(name, m)
    ctx.check(got == want, d + f'differs from a new model fitted on the same data (what, refitted, new): {diff(got, want)}')
    if name.startswith('trained') and event[0] == 'fit':
        ctx.check(all(w == w_after(3) for w in got['w']), d + f'weights {got["w"]}, expected {w_after(3)}')
    elif name.startswith('trained'):
        best = max(range(len(VALUES[event[0]])), key=VALUES[event[0]].__getitem__) + 1
        ctx.check(all(w == w_after(best) for w in got['w']), d + f'weights {got["w"]}, expected those of epoch {best}: {w_after(best)}')
    if name == 'scripted':
        us, its = {r[0] for r in DATA[event[1]]}, {r[1] for r in DATA[event[1]]}
        ctx.check(got['n'][:3] == (len(us), len(its), len(DATA[event[1]])), d + f'n_users, n_items, n_rows: {got["n"]}')
    if mut is not None:
        try:
            if mut == 'apply': ds.apply('interaction', lambda x: 9 - 2 * x)
            elif mut == 'select': ds.select('interaction > 2', copy=False)
            elif mut == 'drop': ds.drop([0, 1, 2], copy=False)
            elif mut == 'unique': ds.unique('item', copy=False)
            elif mut == 'removeids':
                ds.assign_internal_ids()
                ds.remove_internal_ids()
            elif mut == 'close': ds.close() if hasattr(ds, 'close') else None
        except Exception as e: ctx.fail(d + f'{mut} on the dataset given to fit(copy_dataset=True) raised {type(e).__name__}: {e}')
        if mut == 'close':
            del ds, last
            gc.collect()
        got = probe(name, m)
        ctx.check(got == want, d + f'changing the dataset after fit(copy_dataset=True) changed the model: {diff(got, want)}')
        del m
    ctx.state((name, tuple(map(tuple, hist)), be))
    ctx.outcome((name, sorted(want.items(), key=str)))
