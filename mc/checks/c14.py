"""C14: the real ranking_evaluation / recommendation_evaluation under a controlled scheduler: every execution with a bounded number of delays."""
import gc
from .. import ref, sched, evalref
from ..models import fitted
from .c17 import USERS, ITEMS, TRAIN, score

NEEDS = ('all',)
RULE = ('a case is (evaluation, configuration, model, backend, threads, progress reporting, granularity, delay bound, part of the schedule tree); every schedule of the part is executed on the real code; '
        'states counts distinct schedules, distinct_nontrivial distinct (configuration, result)')
ASSUMPTIONS = ['scheduling points: locks, queues and sleeps, visible bytecodes of DRecPy/Evaluation, and (granularity "line") every line of the other modules; C code (pandas, SQLite calls) is atomic',
               'delay-bounded: at most the stated number of deviations from the deterministic schedules; a call that takes more than 20 times its usual steps does not end',
               'averages of the same numbers added in another order are equal up to the rounding of the result (4 decimals)']
CHUNK = 1
CASE_LIMIT_S = 400
COLS = ['user', 'item', 'interaction']
THRESHOLD = 3


def before_import():
    sched.import_dependencies()
    sched.install()


def bounds(tier):
    return {'threads': '1-3 workers, main thread and pool threads', 'delays': 'coarse points: 1, and 2 with the second delay at every 100th point (quick) / 2-3 (thorough, strided); line points: 1 / 2 (strided)', 'round robin quanta': [1, 2, 3, 5, 8, 13], 'users': '2-3', 'items': 5}


# name: (evaluation, parameters, test values of the users)
TEST3 = [{0: 5, 1: 1, 3: 4}, {0: 3, 2: 1}, {1: 2, 2: 5}]
TEST2 = [{0: 5, 1: 1}, {0: 4, 2: 1, 3: 5}]
CONFIGS = {
    'rank': ('rank', dict(k=[1, 2], novelty=True), TEST3),
    'rank-neg': ('rank', dict(k=2, n_pos_interactions=1, n_neg_interactions=2, generate_negative_pairs=True), TEST3),
    'rank-two': ('rank', dict(k=[2], n_pos_interactions=1, n_neg_interactions=1), TEST2),
    'rank-train': ('rank', dict(k=3, n_test_users=2), None),
    'rec': ('rec', dict(k=[1, 3], novelty=True), TEST3),
    'rec-low': ('rec', dict(k=2, n_pos_interactions=1, ignore_low_predictions_threshold=1), TEST3),
    'rec-two': ('rec', dict(k=2), TEST2),
}
QUICK_FINE = (('rank-two', 'db', 'script', False), ('rec-two', 'db', 'UserKNN', True), ('rec-two', 'mem', 'ItemKNN', False), ('rank-two', 'mem', 'script', True))


def cases(tier):
    q = tier == 'quick'
    # deterministic schedules of every length
    for name in CONFIGS:
        for be in ('mem', 'db'):
            for mod in ('script', 'UserKNN', 'ItemKNN'):
                for verbose in (False, True):
                    for threads in (1, 2, 3):
                        for quantum in (1, 2, 3, 5, 8, 13):
                            if q and (quantum in (3, 8) or mod != 'script' and (verbose or threads == 1)): continue
                            yield [name, be, mod, threads, verbose, quantum % 2 == 1, 0, quantum, 0, 1, None]
    # a failing user
    for name in CONFIGS:
        for be in ('mem', 'db'):
            for victim in range(2):
                for verbose in (True, False):
                    for threads in (1, 2):
                        if q and (be == 'db') == verbose: continue
                        yield [name, be, 'script', threads, verbose, False, 1, 0, victim, 16 if q else 1, victim]
    # train and test of a split which share one database
    for name in ('rank', 'rec', 'rank-neg'):
        for quantum in (1, 5): yield [name, 'shared', 'script', 2, False, True, 0, quantum, 0, 1, None]
    # all schedules with one delay, fine grained
    for name in CONFIGS:
        for be in ('db', 'mem', 'shared'):
            for mod in ('script', 'UserKNN', 'ItemKNN'):
                for verbose in (True, False):
                    if be == 'shared' and (name in ('rank-train',) or mod != 'script'): continue
                    if q and (name, be, mod, verbose) not in QUICK_FINE: continue
                    n = 8
                    for p in range(n): yield [name, be, mod, 2, verbose, 'writes' if q else True, 1, 0, p, n, None]
    # more delays, coarse grained
    for name in CONFIGS:
        for be in ('mem', 'db'):
            for verbose in (True, False):
                for threads in (2, 3):
                    if q and (be == 'db' or verbose or threads == 3 or name not in ('rank-two', 'rec-two')): continue
                    n = 16
                    for p in range(n): yield [name, be, 'script', threads, verbose, False, 2, 0, p, n, None]
    if q: return
    for name in ('rank-two', 'rec-two', 'rank-neg'):
        for be in ('db', 'mem'):
            for verbose in (False, True):
                for p in range(64): yield [name, be, 'script', 2, verbose, False, 3, 0, p, 64, None]
                for p in range(64): yield [name, be, 'script', 2, verbose, True, 2, 0, p, 64, None]


def one(ctx, case):
    from DRecPy.Evaluation.Metrics import Precision, Recall, HitRatio, NDCG
    from DRecPy.Evaluation.Processes import ranking_evaluation, recommendation_evaluation
    from DRecPy.Recommender.Baseline import UserKNN, ItemKNN
    name, be, mod, threads, verbose, fine, bound, quantum, part, nparts, victim = case
    which, params, spec = CONFIGS[name]
    f = ranking_evaluation if which == 'rank' else recommendation_evaluation
    us, it = USERS['text'], ITEMS['text']
    full = score('text')
    bad = None if victim is None else us[victim]
    sc = full if bad is None else lambda u, i: 'boom' if u == bad else full(u, i)
    train = {us[a]: {it[b]: TRAIN[a][b] for b in range(5) if TRAIN[a][b] is not None} for a in range(3)}
    test = train if spec is None else {us[a]: {it[b]: v for b, v in d.items()} for a, d in enumerate(spec)}
    box = []

    def setup():
        del box[:]
        trows = [(u, i, x) for u, d in train.items() for i, x in d.items()]
        rows = [(u, i, x) for u, d in test.items() for i, x in d.items()]
        if be == 'shared':
            whole = ref.build(ctx, 'db', COLS + ['part'], [r + (0,) for r in trows] + [r + (1,) for r in rows])
            tr, te = whole.select('part == 0'), whole.select('part == 1')
        else:
            tr = ref.build(ctx, be, COLS, trows)
            te = None if spec is None else ref.build(ctx, be, COLS, rows)
        if mod == 'script': m = fitted(tr, sc)
        else:
            m = UserKNN(k=2, m=1, verbose=False) if mod == 'UserKNN' else ItemKNN(k=2, m=1, verbose=False)
            m.fit(tr)
        box.extend((m, te, evalref.recorder()))

    def call(n=None, v=None):
        m, te, rec = box
        kw = dict(params)
        return f(m, te, metrics=[rec, Precision(), Recall(), HitRatio(), NDCG()], interaction_threshold=THRESHOLD, seed=4, verbose=verbose if v is None else v, block=False,
                 max_concurrent_threads=n or threads, **kw)

    def calls(rec): return sorted(map(repr, rec.calls))

    seq = None
    limit = [400000]
    stride = 100 if ctx.tier == 'quick' else 5 if fine and bound > 1 else 2 if bound > 2 else 1
    n = 0
    base = None
    for delays, r in sched.explore(call, bound, quantum, fine, limit, stride, (part, nparts), setup):
        n += 1
        ctx.step(r.steps)
        ctx.count('schedules')
        if r.free: ctx.count('schedules left uncontrolled')
        ctx.state((case[:8], victim, delays))
        what = f'{name} {which} {params} model={mod} failing user={bad!r} threads={threads} verbose={verbose} backend={be} schedule: delays {delays} quantum {quantum}'
        ctx.check(r.failure is None, f'{what}: the call {r.failure} (base run: {base} steps)', key='schedule')
        ctx.check(r.error is None, f'{what}: raised {r.error!r}', key='schedule')
        got, rec, te = r.value, box[2], box[1]
        if base is None:
            base = r.steps
            limit[0] = r.steps * 20 + 20000
            mine = calls(rec)
            setup()
            exp = call(1, False)            # the reference: one thread, nothing controlled
            seq = (exp, calls(box[2]))
            ctx.outcome((name, mod, victim, tuple(sorted(exp.items()))))
            ctx.check(len(mine) == len(seq[1]) and mine == seq[1], f'{what}: evaluated {mine}; one thread evaluates {seq[1]}', key='schedule')
            if mod == 'script' and 'n_test_users' not in params:      # against the reference evaluator
                U = evalref.Users(train, test, full, THRESHOLD)
                users = [u for u in test if u != bad]
                ks = params['k'] if isinstance(params['k'], list) else [params['k']]
                rr = evalref.recorder()
                rr.calls = list(box[2].calls)
                np_, nn, gen, nov = params.get('n_pos_interactions'), params.get('n_neg_interactions'), params.get('generate_negative_pairs', False), params.get('novelty', False)
                if which == 'rank':
                    evalref.judge(ctx, what, exp, rr, [Precision(), Recall(), HitRatio(), NDCG()], ks, users, len(users), lambda u: evalref.status_ranking(U, u, np_, nn, gen),
                                  lambda u, c: evalref.accepts_ranking(U, u, c, np_, nn, gen, nov))
                else:
                    evalref.judge(ctx, what, exp, rr, [Precision(), Recall(), HitRatio(), NDCG()], ks, users, len(users), lambda u: evalref.status_recommendation(U, u, np_),
                                  lambda u, c: evalref.accepts_recommendation(U, u, c, np_, ks, nov, params.get('ignore_low_predictions_threshold')))
        else:
            mine = calls(rec)
            ctx.check(mine == seq[1], f'{what}: evaluated {mine}; one thread evaluates {seq[1]}', key='schedule')
        same = set(got) == set(seq[0]) and all(abs(got[x] - seq[0][x]) <= 1.01e-4 for x in got)
        ctx.check(same, f'{what}: returns {got}; one thread returns {seq[0]}', key='schedule')
        del r, rec, te
        if n % 30 == 0: gc.collect()
    del box[:]
    gc.collect()
