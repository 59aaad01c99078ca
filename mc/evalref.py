"""Reference evaluator shared by C14, C17, C18: what each user contributes to an evaluation, as a predicate on recorded metric calls."""
import itertools

_m = {}


def recorder():
    """A metric that records everything it is given and returns a number that depends on all of it."""
    if 'r' not in _m:
        from DRecPy.Evaluation.Metrics import RankingMetricABC

        class Recorder(RankingMetricABC):
            def __init__(self):
                super().__init__()
                self.calls = []

            def __call__(self, recommendations, relevant_recommendations, relevant_recommendation, relevancies, k=None):
                self.calls.append((tuple(recommendations), tuple(relevant_recommendations), relevant_recommendation, dict(relevancies), k))
                return value_of(self.calls[-1])
        _m['r'] = Recorder
    return _m['r']()


def value_of(call):
    recs, rel, best, relv, k = call
    top = recs[:k]
    return sum((i + 1) * (1 + 2 * (x in rel) + 4 * (x == best)) for i, x in enumerate(top)) / 7 + sum(relv.values()) / 11


class Users:
    """test/train: {user: {item: value}}; score(user, item) -> number or None; items: known items."""

    def __init__(self, train, test, score, threshold):
        self.train, self.test, self.score, self.threshold = train, test, score, threshold
        self.items = {i for d in train.values() for i in d}

    def pos(self, u): return {i for i, v in self.test[u].items() if v >= self.threshold}
    def neg(self, u): return {i for i, v in self.test[u].items() if v < self.threshold}

    def rank(self, u, items, novelty, n=None, low=None):
        c = [i for i in items if i in self.items and not (novelty and i in self.train.get(u, ())) and self.score(u, i) is not None]
        c = sorted(c, key=lambda i: -self.score(u, i))
        if n is not None: c = c[:n]
        return [i for i in c if low is None or self.score(u, i) >= low]

    def best_ok(self, u, rel, best):
        if not rel: return best is None
        top = max(self.test[u][i] for i in rel)
        return best in rel and self.test[u][best] == top


def accepts_ranking(us, u, call, n_pos, n_neg, generate, novelty):
    """None if the call is a correct evaluation of user u, else the reason."""
    recs, rel, best, relv, _ = call
    P, N = us.pos(u), us.neg(u)
    if len(set(rel)) != len(rel) or not set(rel) <= P: return f'relevant items {rel} are not distinct positives {P}'
    if len(rel) != (len(P) if n_pos is None else n_pos): return f'{len(rel)} relevant items, expected {n_pos or len(P)}'
    negs = set(relv) - set(rel)
    if n_neg is None:
        if negs != N: return f'negatives {negs}, expected {N}'
    else:
        want = int(n_neg * len(rel)) if isinstance(n_neg, float) else n_neg
        known = negs & N
        extra = negs - N
        if len(known) != min(want, len(N)): return f'{len(known)} test negatives used, expected {min(want, len(N))}'
        if not generate:
            if extra: return f'negatives {extra} are not in the test set'
        else:
            if len(negs) != want: return f'{len(negs)} negatives, expected exactly {want}'
            bad = {i for i in extra if i not in us.items or i in P or us.train.get(u, {}).get(i, us.threshold - 1) >= us.threshold}
            if bad: return f'generated negatives {bad} are positive or unknown items'
    if not us.best_ok(u, rel, best): return f'most relevant item {best!r} of {rel}'
    for i, v in relv.items():
        if v != us.test[u].get(i, 0): return f'relevancy of {i!r} is {v}, expected {us.test[u].get(i, 0)}'
    exp = us.rank(u, set(relv), novelty)
    if list(recs) != exp: return f'ranking {recs}, expected {exp}'
    return None


def status_ranking(us, u, n_pos, n_neg, generate):
    """'must' be evaluated, 'skip', or 'either' (documentation leaves it open)."""
    P, N = us.pos(u), us.neg(u)
    if u not in us.train: return 'skip'                  # unknown to the model: cannot be ranked
    if n_pos is not None and len(P) < n_pos: return 'skip'
    if n_pos is None: npos = len(P)
    else: npos = n_pos
    want = None if n_neg is None else int(n_neg * npos) if isinstance(n_neg, float) else n_neg
    if generate and len(N) < want:
        black = P | {i for i, v in us.train[u].items() if v >= us.threshold}
        strict = len((us.items | P) - black) + 0
        if len(us.items) - len(black) < want:
            usable = len(N | (us.items - black))
            return 'either' if usable >= want else 'skip'
        if strict < want: return 'either'
    total = npos + (len(N) if want is None else (want if generate else min(want, len(N))))
    return 'skip' if total == 0 else 'must'


def accepts_recommendation(us, u, call, n_pos, ks, novelty, low):
    recs, rel, best, relv, _ = call
    P = us.pos(u)
    if len(set(rel)) != len(rel) or not set(rel) <= P: return f'relevant items {rel} are not distinct positives {P}'
    if len(rel) != (len(P) if n_pos is None else n_pos): return f'{len(rel)} relevant items, expected {n_pos or len(P)}'
    if not us.best_ok(u, rel, best): return f'most relevant item {best!r} of {rel}'
    exp = us.rank(u, us.items, novelty, max(ks), low)
    if list(recs) != exp: return f'recommendations {recs}, expected {exp}'
    if not set(recs) | set(rel) <= set(relv): return f'relevancies {relv} do not cover {recs} and {rel}'
    for i, v in relv.items():
        if v != us.test[u].get(i, 0): return f'relevancy of {i!r} is {v}, expected {us.test[u].get(i, 0)}'
    return None


def status_recommendation(us, u, n_pos):
    P = us.pos(u)
    if u not in us.train or not P or n_pos is not None and len(P) < n_pos: return 'skip'
    return 'must'


def assign(calls, users, n_users, status, accepts):
    """Is there a choice of n_users considered users such that the calls are exactly their evaluations?  None or a message."""
    n_users = min(n_users, len(users))
    reasons = {}
    for u in users:
        for j, c in enumerate(calls): reasons[(u, j)] = accepts(u, c)
    must = [u for u in users if status(u) == 'must']
    may = [u for u in users if status(u) == 'either']
    # a matching of the calls to users which covers as many of the users that must be evaluated as possible
    of = {}

    def augment(u, seen):
        for j in range(len(calls)):
            if reasons[(u, j)] is None and j not in seen:
                seen.add(j)
                if j not in of or augment(of[j], seen):
                    of[j] = u
                    return True
        return False

    covered = sum([augment(u, set()) for u in must])
    for u in may: augment(u, set())
    # the users considered are those matched and n_users - len(calls) others, none of which must be evaluated
    if len(of) == len(calls) <= n_users and len(must) - covered <= len(users) - n_users: return None
    return f'{len(calls)} evaluated users {calls}; statuses { {u: status(u) for u in users} }; mismatches {reasons}'


def judge(ctx, what, got, rec, others, ks, users, n_users, status, accepts):
    by_k = {k: [c for c in rec.calls if c[4] == k] for k in ks}
    if sum(map(len, by_k.values())) != len(rec.calls): ctx.fail(f'{what}: metric called with other k: {[c[4] for c in rec.calls]}')
    base = by_k[ks[0]]
    for k in ks:
        rest = list(base)
        for c in by_k[k]:
            m = [b for b in rest if b[:4] == c[:4]]
            if not m: ctx.fail(f'{what}: calls for k={k} differ from those for k={ks[0]}: {by_k}')
            rest.remove(m[0])
        if rest: ctx.fail(f'{what}: user missing for k={k}: {by_k}')
    msg = assign(base, users, n_users, status, accepts)
    if msg: ctx.fail(f'{what}: {msg}')
    exp = {}
    for m in [rec] + others:
        for k in ks:
            vals = []
            for recs, rel, best, relv, _ in base:
                try:
                    if m is rec: v = value_of((recs, rel, best, relv, k))
                    else:
                        full = dict(recommendations=list(recs), relevant_recommendations=list(rel), relevant_recommendation=best, relevancies=dict(relv), k=k)
                        names = m.__call__.__code__.co_varnames
                        v = m(**{a: b for a, b in full.items() if a in names})
                except Exception: continue
                vals.append(v)
            exp[f'{m.name}@{k}'] = sum(vals) / len(vals) if vals else 0
    if set(got) != set(exp) or any(not abs(got[x] - exp[x]) <= 5.1e-5 for x in exp):
        ctx.fail(f'{what}: expected {exp}, got {got} from calls {base}')
    ctx.outcome(tuple(sorted(got.items())))
