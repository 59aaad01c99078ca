"""C23: every small matrix x format x similarity measure against independent definitions."""
import itertools
import numpy as np
from .. import simref

NEEDS = ('all',)
CASE_LIMIT_S = 200
RULE = 'a case is a block of matrices of one shape; every measure and several formats are run on each; distinct_nontrivial counts distinct (measure, result matrix)'
ASSUMPTIONS = ['no explicitly stored zeros in sparse inputs', 'adjusted cosine centres each row on the mean of its own ratings (as the existing tests fix)',
               'the value range of msd includes 0 when a rating is missing', 'compared to 1e-9']
CHUNK = 1
V = (0, 1, 2, 5)


def bounds(tier):
    return {'shapes': '1x1..3x3 over {0,1,2,5} (3x3: quick over {0,1,5}), 2x4, 4x2 over {0,1,5}, negative values 2x3 over {0,-1,2}, decimals 3x2; 28 larger ones up to 520 rows or 1030 columns', 'formats': 'dense, list, csr, lil, coo, csc',
            'fault': 'jaccard also with the matrix product running out of memory'}


def blocks(tier):
    full = tier == 'thorough'
    for r, c, vals in ((2, 3, (0, -1, 2)), (3, 2, (0, 0.5, 3.25)), (1, 1, V), (1, 2, V), (2, 1, V), (1, 3, V), (3, 1, V), (2, 2, V), (2, 3, V), (3, 2, V), (3, 3, V if full else (0, 1, 5)), (2, 4, V if full else (0, 1, 5)),
                       (4, 2, V if full else (0, 2, 5)), (3, 3, (0, -1.5, 2)) if full else (2, 2, (0, -1.5, 2)), (4, 3, (0, 4)), (5, 2, (0, 3)), (1, 2, (1e6, 1e-3, 0))):
        yield r, c, vals


def cases(tier):
    for r, c in ((70, 9), (9, 130), (130, 5), (260, 4), (33, 33), (520, 2), (5, 1030)):
        for v in range(4): yield [r, c, 'large', v]
    for r, c, vals in blocks(tier):
        k = max(0, r * c - 3)
        for head in itertools.product(range(len(vals)), repeat=k): yield [r, c, list(vals), list(head)]


def to(fmt, m):
    import scipy.sparse as sp
    a = np.array(m)
    return {'dense': lambda: a, 'list': lambda: [list(r) for r in m], 'csr': lambda: sp.csr_matrix(a), 'lil': lambda: sp.lil_matrix(a), 'coo': lambda: sp.coo_matrix(a), 'csc': lambda: sp.csc_matrix(a)}[fmt]()


def arr(x): return np.asarray(x.todense() if hasattr(x, 'todense') else x)


def one(ctx, case):
    from DRecPy.Recommender.Baseline import similarity as S
    import scipy.sparse as sp
    import warnings
    warnings.simplefilter('ignore')
    fns = {'cosine': S.cosine_sim, 'cosine_cf': S.cosine_sim_cf, 'adjusted_cosine': S.adjusted_cosine_sim, 'jaccard': S.jaccard_sim, 'pearson': S.pearson_corr, 'msd': S.msd}
    r, c, vals, head = case
    if vals == 'large': return large(ctx, fns, r, c, head)
    fmts = ['csr', 'lil', 'dense', 'coo', 'csc'] + ([] if r == 1 or c == 1 else ['list'])
    for tail in itertools.product(range(len(vals)), repeat=r * c - len(head)):
        flat = [vals[x] for x in list(head) + list(tail)]
        m = [flat[i * c:(i + 1) * c] for i in range(r)]
        rows = [{j: v for j, v in enumerate(row) if v != 0} for row in m]
        for q, (name, f) in enumerate(fns.items()):
            exp = np.array(simref.matrix(name, rows, c))
            pick = sum(tail) + sum(head) + q
            for fmt in {fmts[0], fmts[pick % len(fmts)]}:
                x = to(fmt, m)
                check(ctx, name, f, x, exp, m, fmt)
            if name == 'jaccard':
                saved = sp.csr_matrix.dot

                def dot(self, other, *a, **k): raise MemoryError()
                sp.csr_matrix.dot = dot
                try: check(ctx, name, f, to('csr', m), exp, m, 'csr, out of memory')
                finally: sp.csr_matrix.dot = saved
        ctx.state((r, c, tuple(flat)))


def large(ctx, fns, r, c, v):
    """One matrix of many rows or columns: ratings spread over the rows, some rows empty or constant."""
    m = [[0 if (i * 7 + j * 13 + i * j * (v + 1)) % 5 >= (2, 4, 1, 5)[v] or i % 29 == 11 else 3 if i % 13 == 5 else 1 + ((i * 31 + j * 17 + v) % 9) / 2 for j in range(c)] for i in range(r)]
    rows = [{j: x for j, x in enumerate(row) if x != 0} for row in m]
    for q, (name, f) in enumerate(fns.items()):
        if r > 300 and (q + v) % 3: continue
        exp = np.array(simref.matrix(name, rows, c))
        for fmt in ('csr', ('dense', 'lil', 'coo', 'csc')[(q + v) % 4]): check(ctx, name, f, to(fmt, m), exp, m, fmt)
    ctx.state((r, c, v))


def check(ctx, name, f, x, exp, m, fmt):
    before = arr(x).copy()
    got = arr(f(x))
    ctx.step()
    n = len(m)
    label = f'{name}({m if n < 9 else str(n) + " rows"}) given as {fmt}'
    ctx.check(np.array_equal(before, arr(x)), f'{label}: the matrix given was modified to {arr(x).tolist()}')
    if got.shape != (n, n):
        if name == 'pearson' and got.shape[0] < n and got.shape[1] < n and got.shape[0] == got.shape[1]:
            full = np.zeros((n, n))
            full[:got.shape[0], :got.shape[1]] = got
            if np.allclose(full, exp, rtol=0, atol=1e-9): return ctx.finding('pearson-truncated', f'{label}: result has shape {got.shape}')
        ctx.fail(f'{label}: result has shape {got.shape}')
    bad = np.argwhere(~(np.abs(got - exp) <= 1e-9))
    ctx.check(not len(bad), f'{label}: expected {exp.tolist()}, got {got.tolist()}' if n < 9 else f'{label}: {len(bad)} wrong values, first at {bad[:1].tolist()}')
    ctx.outcome((name, tuple(np.round(got, 9).ravel().tolist())))
