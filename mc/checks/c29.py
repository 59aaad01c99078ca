"""C29: every shipped model, saved and loaded after every short history of fits, against the model it was saved from."""
import itertools
import os
from .. import ref
from .c26 import COLS, DATA, make, probe, diff

NEEDS = ('all',)
RULE = 'a case is (model, settings, data, history of fit / save / load / further work); distinct_nontrivial counts distinct (model, predictions)'
ASSUMPTIONS = ['models fitted on in-memory datasets (a model holding an out-of-memory dataset may refuse to be saved, but may not change or be saved wrong)',
               'module-level model classes (joblib serialises classes by name); same library version for saving and loading', 'values compared to 5 decimals']
CHUNK = 2
CASE_LIMIT_S = 180
MODELS = ('UserKNN', 'UserKNN-avg', 'ItemKNN', 'ItemKNN-pearson', 'CDAE', 'DMF', 'Caser')
AFTER = ('nothing', 'apply', 'select', 'refit', 'original refit', 'save again', 'overwrite')


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'


def bounds(tier):
    return {'models': list(MODELS), 'data sets': len(DATA), 'fits before saving': '1..2', 'after loading': AFTER, 'round trips': 2}


def cases(tier):
    for name in MODELS:
        for d in DATA:
            for copy in (False, True):
                for after in AFTER:
                    if tier == 'quick' and copy and (d + AFTER.index(after)) % 3: continue
                    yield [name, 'mem', [d], copy, after]
        for a, b in itertools.product(DATA, DATA):
            if tier == 'quick' and (a + 2 * b) % 4: continue
            yield [name, 'mem', [a, b], False, AFTER[(a + b) % len(AFTER)]]
        for d in DATA:
            yield [name, 'db', [d], False, 'nothing']


def fit(name, m, ds, copy=False):
    kw = dict(epochs=3, batch_size=2, copy_dataset=copy)
    if name == 'Caser': kw['neg_ratio'] = 1
    m.fit(ds, **kw)


def same(ctx, name, m, want, what):
    got = probe(name, m)
    ctx.check(got == want, f'{what} differs (what, {what}, expected): {diff(got, want)}')


def one(ctx, case):
    name, be, hist, copy, after = case
    d = f'{case}: '
    m = make(name)
    for x in hist:
        ds = ref.build(ctx, be, COLS, DATA[x])
        fit(name, m, ds, copy)
        ctx.step()
    want = probe(name, m)
    path = ctx.path('model')
    if be == 'db':
        try: m.save(path)
        except Exception:
            ctx.count('refused')
            same(ctx, name, m, want, d + 'the model after a refused save')
            return
    else:
        m.save(path)
    same(ctx, name, m, want, d + 'the model after being saved')
    got = type(m).load(path)
    ctx.check(type(got) is type(m), d + f'loaded a {type(got).__name__}')
    same(ctx, name, got, want, d + 'the loaded model')
    ctx.step(2)
    other = hist[-1] + 1 if hist[-1] + 1 in DATA else 0
    if after == 'apply':
        ds.apply('interaction', lambda x: 9 - 2 * x)
        same(ctx, name, got, want, d + 'the loaded model after apply on the dataset of the original')
    elif after == 'select':
        ds.select('interaction > 2', copy=False)
        same(ctx, name, got, want, d + 'the loaded model after a filter of the dataset of the original')
    elif after == 'original refit':
        fit(name, m, ref.build(ctx, be, COLS, DATA[other]))
        same(ctx, name, got, want, d + 'the loaded model after refitting the original')
        same(ctx, name, type(m).load(path), want, d + 'the model loaded after refitting the original')
    elif after == 'refit':
        fresh = make(name)
        fit(name, fresh, ref.build(ctx, be, COLS, DATA[other]))
        fit(name, got, ref.build(ctx, be, COLS, DATA[other]))
        same(ctx, name, got, probe(name, fresh), d + 'the loaded model refitted')
        same(ctx, name, m, want, d + 'the original after refitting the loaded model')
    elif after == 'save again':
        p2 = ctx.path('model2')
        got.save(p2)
        os.remove(path)
        del m
        same(ctx, name, type(got).load(p2), want, d + 'the model saved and loaded twice')
    elif after == 'overwrite':
        m2 = make(name)
        fit(name, m2, ref.build(ctx, be, COLS, DATA[other]))
        w2 = probe(name, m2)
        m2.save(path)
        same(ctx, name, type(m).load(path), w2, d + 'the model saved over another')
        same(ctx, name, got, want, d + 'the loaded model after its file was overwritten')
    for p in os.listdir(ctx.dir):
        if '_model' in p: os.remove(os.path.join(ctx.dir, p))
    ctx.state((name, be, tuple(hist), copy, after))
    ctx.outcome((name, sorted(want.items(), key=str)))
