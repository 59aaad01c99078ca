"""C16: every pattern of predictable / unpredictable / failing / unknown test records x settings."""
import itertools
import math
from .. import ref
from ..ref import Table, Obs
from ..models import fitted, Boom

NEEDS = ('all',)
RULE = ('a case is (backend, id kind, outcome of the prediction of each test record, evaluated on test or training data); all limits and flags are enumerated inside; '
        'distinct_nontrivial counts distinct result dictionaries and errors')
ASSUMPTIONS = ['scripted model; metrics of an empty prediction set are undefined; values compared to 1e-4 rounding']
CHUNK = 4
USERS = {'int': [30, 10], 'text': ["o'neil", 'a,b']}
ITEMS = {'int': [7, 5, 900, 1, 12], 'text': ['x', "i'1", 'a b', 'v5', 'z']}
# outcome letters: a/b = predictable with different errors, 0 = predicts 0, n = None, e = raises, u = unknown user, i = unknown item
TRUE = [3, 1, 5, 2, 4]
PRED = {'a': [2.5, 1, 4.25, 3, 4.5], 'b': [5, 4.1, 1.3, 2.77, 1 / 3], '0': [0] * 5}


def bounds(tier):
    return {'test records': '1..4 (quick), 1..5 (thorough), and 130 and 1030', 'outcomes per record': 'abneui0', 'limits': '1..n+1, none', 'flags': 'count_none, skip_errors, verbose, metrics'}


def cases(tier):
    for x in ('zeros', 'neg', 'large', 'same', 'frac'): yield ['metrics', x]
    for n in (130, 1030):
        for be in ('mem', 'db'):
            for v in range(2): yield ['large', be, n, v]
    for n in range(1, 5 if tier == 'quick' else 6):
        for pat in itertools.product('anbeui0' if n < 4 else 'anue', repeat=n):
            s = sum(map(ord, pat))
            for be in ('mem', 'db'):
                if be == 'db' and n >= 3 and tier == 'quick' and s % 2: continue
                yield ['eval', be, 'text' if s % 3 else 'int', ''.join(pat), 0]
                if not set('ui') & set(pat): yield ['eval', be, 'int' if s % 3 else 'text', ''.join(pat), 1]


def one(ctx, case):
    from DRecPy.Evaluation.Metrics import MSE, RMSE, MAE
    from DRecPy.Evaluation.Processes import predictive_evaluation
    if case[0] == 'metrics':
        pools = {'zeros': (0, 0.0, 1), 'neg': (-1, 2.5, 0), 'large': (1e6, -1e6, 3), 'same': (2, 2.0, 2), 'frac': (1 / 3, 0.1, 4)}[case[1]]
        for n in (1, 2, 3):
            for t in itertools.product(pools, repeat=n):
                for p in itertools.product(pools, repeat=n):
                    ds = [a - b for a, b in zip(t, p)]
                    mse = sum(d * d for d in ds) / n
                    for m, e in ((MSE(), mse), (RMSE(), math.sqrt(mse)), (MAE(), sum(map(abs, ds)) / n)):
                        a, b = list(t), list(p)
                        g = m(a, b)
                        ctx.step()
                        ctx.check(abs(g - e) <= 1e-9 * max(1, abs(e)), f'{m.name}({t}, {p}): expected {e}, got {g}')
                        ctx.check(a == list(t) and b == list(p), 'arguments modified')
        return
    if case[0] == 'large': return large(ctx, *case[1:])
    _, be, kind, pat, on_train = case
    users, items = USERS[kind], ITEMS[kind]
    cols = ['user', 'item', 'interaction']
    n = len(pat)
    unk = 'nobody' if kind == 'text' else 77777
    rows, script = [], {}
    for j, c in enumerate(pat):
        u, i = users[j % 2], items[j]
        script[(u, i)] = PRED[c][j] if c in PRED else None if c == 'n' else 'boom'
        rows.append((unk if c == 'u' else u, unk if c == 'i' else i, TRUE[j]))
    train = rows if on_train else [(u, i, 1) for u in users for i in items]
    tr, te = Table.load(cols, train), Table.load(cols, rows)
    ds_train = ref.build(ctx, be, cols, train)
    model = fitted(ds_train, lambda u, i: script.get((u, i), 'boom'))
    tr_ids = tr.assign() if tr.rows else tr
    ds_test = None if on_train else ref.build(ctx, be, cols, rows)
    mets = {'RMSE': RMSE, 'MSE': MSE, 'MAE': MAE}
    for limit in [None] + list(range(1, n + 2)):
        for cn in (False, True):
            for se in (None, True, False):
                # reference
                yp, yt, err, made = [], [], False, 0
                for j, c in enumerate(pat):
                    if made >= (n if limit is None else min(limit, n)): break
                    if c in PRED: p = PRED[c][j]
                    elif se is False:
                        err = True
                        break
                    else: p = None
                    if p is None:
                        if not cn: continue
                        p = 0
                    yp.append(p)
                    yt.append(TRUE[j])
                    made += 1
                for sel in (None, ['MAE', 'RMSE'], ['MSE']):
                    if sel is not None and (limit == 1) != (sel == ['MSE']): continue
                    kw = dict(verbose=n % 2 == 0 and limit in (None, 2))
                    if sel is not None: kw['metrics'] = [mets[s]() for s in sel]
                    if cn: kw['count_none_predictions'] = True
                    if se is not None: kw['skip_errors'] = se
                    if limit is not None: kw['n_test_predictions'] = limit
                    if ds_test is not None: kw['ds_test'] = ds_test
                    what = f'predictive_evaluation({ {k: v for k, v in kw.items() if k not in ("ds_test", "metrics")} }, metrics={sel}) outcomes {pat}'
                    ctx.step()
                    try:
                        got = predictive_evaluation(model, **kw)
                    except Exception as e:
                        if err: 
                            ctx.outcome(('error', pat[:2]))
                            continue
                        if not yp: continue                       # nothing to score: undefined
                        raise
                    if err: ctx.fail(f'{what}: expected an error, got {got}')
                    if not yp: continue
                    d = [a - b for a, b in zip(yt, yp)]
                    mse = sum(x * x for x in d) / len(d)
                    exp = {'MSE': mse, 'RMSE': math.sqrt(mse), 'MAE': sum(map(abs, d)) / len(d)}
                    want = sel or ['RMSE', 'MSE']
                    ctx.check(set(got) == set(want) and all(abs(got[k] - round(exp[k], 4)) <= 1.01e-4 and abs(got[k] - exp[k]) <= 5.1e-5 for k in want),
                              f'{what}: expected {({k: round(exp[k], 4) for k in want})}, got {got}')
                    ctx.outcome(tuple(sorted(got.items())))
        ctx.state((pat, limit, on_train))
    if ds_test is not None: ctx.check(not Obs.records(ds_test, te), f'test data changed: {Obs.records(ds_test, te)}')
    ctx.check(not Obs.records(model.interaction_dataset, tr_ids), f'training data changed: {Obs.records(model.interaction_dataset, tr_ids)}')
    if be == 'db':
        ds_train.close()
        if ds_test is not None: ds_test.close()


def large(ctx, be, n, v):
    """More test records than any small count; every seventh cannot be predicted."""
    from DRecPy.Evaluation.Metrics import MSE, RMSE, MAE
    from DRecPy.Evaluation.Processes import predictive_evaluation
    cols = ['user', 'item', 'interaction']
    rows = [(3 * (j % 37) + 1, 10 * j + 2, 1 + j % 5) for j in range(n)]
    p = {(u, i): None if (j + v) % 7 == 0 else 1 + (j * 31 % 97) / 24 for j, (u, i, _) in enumerate(rows)}
    ds = ref.build(ctx, be, cols, rows)
    model = fitted(ref.build(ctx, 'mem', cols, rows), lambda u, i: p[u, i])
    for limit in (None, 64, 100, n - 1, n, n + 1):
        for cn in (False, True):
            got = predictive_evaluation(model, ds_test=ds, count_none_predictions=cn, verbose=False, metrics=[RMSE(), MSE(), MAE()], **({} if limit is None else {'n_test_predictions': limit}))
            ctx.step()
            d = [x - (p[u, i] or 0) for u, i, x in rows if cn or p[u, i] is not None][:limit]
            mse = sum(x * x for x in d) / len(d)
            exp = {'MSE': mse, 'RMSE': math.sqrt(mse), 'MAE': sum(map(abs, d)) / len(d)}
            ctx.check(set(got) == set(exp) and all(abs(got[k] - exp[k]) <= 5.1e-5 for k in exp), f'{n} test records, limit {limit}, count_none_predictions={cn}: {got}, expected {exp}')
            ctx.outcome(tuple(sorted(got.items())))
    if be == 'db': ds.close()
