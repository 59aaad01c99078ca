"""Independent definitions of the similarity measures.  A row is a dict column -> rating (only ratings that are present)."""
import math


def _cos(a, b):
    num = math.fsum(a[c] * b[c] for c in a if c in b)
    den = math.sqrt(math.fsum(v * v for v in a.values())) * math.sqrt(math.fsum(v * v for v in b.values()))
    return num / den if den > 0 else 0.0


def cosine(rows, i, j): return _cos(rows[i], rows[j])


def cosine_cf(rows, i, j):
    co = set(rows[i]) & set(rows[j])
    return _cos({c: rows[i][c] for c in co}, {c: rows[j][c] for c in co})


def _centre(r):
    m = math.fsum(r.values()) / len(r) if r else 0
    return {c: (v - m if abs(v - m) > 1e-12 else 0.0) for c, v in r.items()}


def adjusted_cosine(rows, i, j): return _cos(_centre(rows[i]), _centre(rows[j]))


def jaccard(rows, i, j):
    u = set(rows[i]) | set(rows[j])
    return len(set(rows[i]) & set(rows[j])) / len(u) if u else 0.0


def pearson(rows, i, j):
    co = set(rows[i]) & set(rows[j])
    return _cos(_centre({c: rows[i][c] for c in co}), _centre({c: rows[j][c] for c in co})) if co else 0.0


def msd(rows, i, j, shape=None):
    co = set(rows[i]) & set(rows[j])
    if not co: return 0.0
    n, m = shape
    vals = [v for r in rows for v in r.values()]
    if len(vals) < n * m: vals.append(0)               # the value range includes the missing ratings
    rng = max(vals) - min(vals)
    if rng == 0: return 1.0
    return 1 - math.fsum(((rows[i][c] - rows[j][c]) / rng) ** 2 for c in co) / len(co)


ALL = {'cosine': cosine, 'cosine_cf': cosine_cf, 'adjusted_cosine': adjusted_cosine, 'jaccard': jaccard, 'pearson': pearson, 'msd': msd}


def matrix(name, rows, ncols):
    f = ALL[name]
    n = len(rows)
    if name == 'msd': return [[msd(rows, i, j, (n, ncols)) for j in range(n)] for i in range(n)]
    return [[f(rows, i, j) for j in range(n)] for i in range(n)]
