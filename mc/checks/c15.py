"""C15: every small ranking, relevant set, relevancy map and truncation against the textbook definitions."""
import itertools
import math

NEEDS = ('all',)
RULE = ('a case is a recommendation list; all relevant sets / relevancy maps / truncations are enumerated inside; distinct_nontrivial counts distinct (metric, value)')
ASSUMPTIONS = ['recommendation lists without repetition; at least one relevant item; precision and F-score of an empty list are undefined; relevancies given for every recommended item, not negative']
CHUNK = 1
POOLS = {'int': [11, 2, 3, 44, 5, 6], 'text': ['a', 'b b', '3', "d'", 'e', 'f']}
RELV = (0, 1, 2, 0.5)
KS = (None, 1, 2, 3, 4, 5, 7)


def bounds(tier):
    return {'items': 5 if tier == 'quick' else 6, 'list length': '0..5 (quick), 0..6 (thorough)', 'long lists': '9..1001 items', 'relevancies': RELV, 'k': KS, 'beta': [0.5, 1, 2]}


def cases(tier):
    for n in (9, 11, 64, 101, 150, 257, 1001):
        for v in range(4): yield ['large', n, v]
    n, m = (5, 5) if tier == 'quick' else (6, 6)
    for length in range(m + 1):
        for rec in itertools.permutations(range(n), length):
            yield ['int' if sum(rec) % 2 else 'text', list(rec), n]


def one(ctx, case):
    from DRecPy.Evaluation.Metrics import Precision, Recall, HitRatio, FScore, ReciprocalRank, AveragePrecision, DCG, NDCG
    if case[0] == 'large': return large(ctx, *case[1:])
    kind, rec, n = case
    pool = POOLS[kind][:n]
    recs = [pool[i] for i in rec]

    def same(name, got, exp, unit, *args):
        ctx.step()
        ok = isinstance(got, (int, float)) and abs(got - exp) <= 1e-9 * max(1, abs(exp))
        if ok and unit: ok = -1e-12 <= got <= 1 + 1e-12
        if not ok: ctx.fail(f'{name}{args}: expected {exp}, got {got!r}')
        ctx.outcome((name, round(exp, 9)))

    def undefined(f, *a, **kw):
        """Precision (and what builds on it) of an empty list is undefined: any value or an error."""
        if recs: return False
        try: f(*a, **kw)
        except ZeroDivisionError: pass
        return True

    metrics = {'Precision': Precision(), 'Recall': Recall(), 'HitRatio': HitRatio(), 'AP': AveragePrecision()}
    fs = {b: FScore(beta=b) for b in (0.5, 1, 2)}
    for r in range(1, n + 1):
        for sub in itertools.combinations(range(n), r):
            for rel in ([pool[i] for i in sub], [pool[i] for i in reversed(sub)]) if r in (2, 3) else ([pool[i] for i in sub],):
                for k in KS:
                    top = recs if k is None else recs[:k]
                    hits = [x in rel for x in top]
                    h = sum(hits)
                    p = h / len(top) if top else 0
                    rc = h / len(rel)
                    ap = sum(sum(hits[:i + 1]) / (i + 1) for i in range(len(top)) if hits[i]) / (len(rel) if k is None else min(len(rel), k))
                    a, b = list(recs), list(rel)
                    args = (recs, rel, k)
                    kw = {} if k is None else {'k': k}
                    if not undefined(metrics['Precision'], a, relevant_recommendations=b, **kw): same('Precision', metrics['Precision'](a, relevant_recommendations=b, **kw), p, True, *args)
                    same('Recall', metrics['Recall'](a, relevant_recommendations=b, **kw), rc, True, *args)
                    same('HitRatio', metrics['HitRatio'](a, relevant_recommendations=b, **kw), rc, True, *args)
                    same('AveragePrecision', metrics['AP'](a, relevant_recommendations=b, **kw), ap, True, *args)
                    for beta, f in fs.items():
                        e = (1 + beta ** 2) * p * rc / (beta ** 2 * p + rc) if h else 0
                        if undefined(f, a, relevant_recommendations=b, **kw): continue
                        same(f'FScore(beta={beta})', f(a, relevant_recommendations=b, **kw), e, True, *args)
                    ctx.check(a == recs and b == rel, f'arguments modified: {a}, {b}')
                    ctx.state((kind, tuple(rec), sub, k))
    for best in pool:
        for k in KS:
            top = recs if k is None else recs[:k]
            kw = {} if k is None else {'k': k}
            same('ReciprocalRank', ReciprocalRank()(list(recs), relevant_recommendation=best, **kw), 1 / (top.index(best) + 1) if best in top else 0, True, recs, best, k)
    # graded relevancy: every map over the recommended items, 0-2 further items known
    dcgs = {s: (DCG(strong_relevancy=s), NDCG(strong_relevancy=s)) for s in (True, False)}
    rest = [x for x in pool if x not in recs][:1 if len(recs) > 2 else 2]
    dom = recs + rest
    for vals in itertools.product(RELV, repeat=len(dom)):
        m = dict(zip(dom, vals))
        for strong, (d, nd) in dcgs.items():
            g = (lambda v: 2 ** v - 1) if strong else (lambda v: v)
            for k in KS:
                top = recs if k is None else recs[:k]
                kw = {} if k is None else {'k': k}
                dcg = sum(g(m[x]) / math.log2(i + 2) for i, x in enumerate(top))
                ideal = sorted(vals, reverse=True)
                if k is not None: ideal = ideal[:k]
                best = sum(g(v) / math.log2(i + 2) for i, v in enumerate(ideal))
                a, mm = list(recs), dict(m)
                same(f'DCG(strong={strong})', d(a, relevancies=mm, **kw), dcg, False, recs, m, k)
                same(f'NDCG(strong={strong})', nd(a, relevancies=mm, **kw), dcg / best if best else 0, True, recs, m, k)
                ctx.check(a == recs and mm == m and list(mm) == list(m), 'arguments modified')
    for name, mtr in (('Precision', Precision), ('Recall', Recall), ('HitRatio', HitRatio), ('FScore', FScore), ('AveragePrecision', AveragePrecision)):
        same(name, mtr()(list(recs), relevant_recommendations=None), 0, True, 'relevant None')
    same('ReciprocalRank', ReciprocalRank()(list(recs)), 0, True, 'relevant None')
    same('DCG', DCG()(list(recs)), 0, True, 'relevancies None')
    same('NDCG', NDCG()(list(recs)), 0, True, 'relevancies None')


def large(ctx, n, v):
    """Long lists: truncations around 10, 50, 100 and the length, relevant sets smaller and larger than k."""
    from DRecPy.Evaluation.Metrics import Precision, Recall, HitRatio, FScore, ReciprocalRank, AveragePrecision, DCG, NDCG
    recs = [(i * 7919 + v) % 10007 for i in range(n)]
    if v % 2: recs = [f'i{x}' for x in recs]
    far = [-1 - j if not v % 2 else f'z{j}' for j in range(n)]
    g = {x: ((i * 31 + v) % 7) / 2 for i, x in enumerate(recs)}
    for rel in (recs[n // 2:], recs[-1:], recs[::3] + far[:5], far[:3] + recs[::-1], recs[2:4] + far):
        s = set(rel)
        for k in sorted({1, 5, 10, 11, 50, 100, 101, 256, n - 1, n, n + 1, 2 * n}) + [None]:
            top = recs if k is None else recs[:k]
            kw = {} if k is None else {'k': k}
            hits = [x in s for x in top]
            h = sum(hits)
            p, rc = h / len(top), h / len(rel)
            run, ap = 0, 0
            for i, x in enumerate(hits):
                run += x
                if x: ap += run / (i + 1)
            ap /= len(rel) if k is None else min(len(rel), k)
            dcg = sum(g[x] / math.log2(i + 2) for i, x in enumerate(top))
            ideal = sorted(g.values(), reverse=True)[:k]
            best = sum(x / math.log2(i + 2) for i, x in enumerate(ideal))
            sdcg = sum((2 ** g[x] - 1) / math.log2(i + 2) for i, x in enumerate(top))
            for name, got, exp in (('Precision', Precision()(recs, relevant_recommendations=rel, **kw), p), ('Recall', Recall()(recs, relevant_recommendations=rel, **kw), rc),
                                   ('HitRatio', HitRatio()(recs, relevant_recommendations=rel, **kw), rc), ('AveragePrecision', AveragePrecision()(recs, relevant_recommendations=rel, **kw), ap),
                                   ('FScore', FScore(beta=2)(recs, relevant_recommendations=rel, **kw), 5 * p * rc / (4 * p + rc) if h else 0),
                                   ('ReciprocalRank', ReciprocalRank()(recs, relevant_recommendation=rel[0], **kw), 1 / (top.index(rel[0]) + 1) if rel[0] in top else 0),
                                   ('DCG', DCG(strong_relevancy=False)(recs, relevancies=g, **kw), dcg), ('DCG(strong)', DCG(strong_relevancy=True)(recs, relevancies=g, **kw), sdcg),
                                   ('NDCG', NDCG(strong_relevancy=False)(recs, relevancies=g, **kw), dcg / best)):
                ctx.step()
                ctx.check(abs(got - exp) <= 1e-9 * max(1, abs(exp)), f'{name} of a list of {n} items with {len(rel)} relevant ones, k={k}: {got}, expected {exp}')
                ctx.outcome((name, round(exp, 9)))
    ctx.state((n, v))
