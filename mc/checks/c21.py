"""C21: every seeded operation x every perturbation sequence; references come from two other interpreters (other hash seeds, other order)."""
import itertools
import json
import os
import random
import subprocess
import sys
from .. import engine, ref

NEEDS = ('all',)
RULE = ('a case is (operation, backend, data, first perturbation); inside it all perturbation sequences up to the bound, placed before the operation and between its steps; '
        'distinct_nontrivial counts distinct (operation, seed, result)')
ASSUMPTIONS = ['the reference of an operation is its result in two freshly started interpreters with other string hash seeds, which run the operations in opposite orders (differential)',
               'one machine; TensorFlow with one thread; model outputs are compared to 5 decimals, averages computed by several threads to 1e-4']
CHUNK = 1
CASE_LIMIT_S = 200
COLS = ['user', 'item', 'interaction', 'timestamp']


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    start_children()


# ---------------------------------------------------------------- data
def data():
    ints = [(30, 7, 5, 9), (30, 5, 1, 8), (10, 5, 4, 7), (10, 900, 2, 6), (20, 1, 3, 5), (30, 1, 2, 4), (20, 7, 1, 3), (10, 7, 3, 2), (20, 12, 5, 1), (30, 12, 4, 4), (10, 1, 5, 3), (20, 5, 2, 11)]
    users, items = {30: "o'n", 10: 'q', 20: 'z w'}, {7: 'a b', 5: 'x', 900: "i'", 1: 'yy', 12: 'b,c'}
    text = [(users[a], items[b], c, d) for a, b, c, d in ints]
    small = [(u, i, (u + i) % 3 + 1, u * i) for u in (1, 2, 3, 4) for i in (4, 3, 1) if (u + i) % 4]
    # the first rows have the highest ids, which a small result set does not have to repeat
    return {'int': ints, 'text': text, 'small': small}


DATA = data()


def rows(ds):
    return [[str(r[c]) for c in COLS] for r in ds.values_list()]


def noop(): pass


# ---------------------------------------------------------------- the seeded operations: (ctx, backend, rows, seed, threads, between) -> plain result
def op_random_split(ratio):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Evaluation.Splits import random_split
        ds = ref.build(ctx, be, COLS, d)
        between(ds)
        a, b = random_split(ds, test_ratio=ratio, seed=seed, verbose=False)
        return [rows(a), rows(b)]
    return f


def op_leave_k_out(k, least):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Evaluation.Splits import leave_k_out
        ds = ref.build(ctx, be, COLS, d)
        between(ds)
        a, b = leave_k_out(ds, k=k, min_user_interactions=least, seed=seed, max_concurrent_threads=threads, verbose=False)
        return [rows(a), rows(b)]
    return f


def op_matrix_split(ur, ir):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Evaluation.Splits import matrix_split
        ds = ref.build(ctx, be, COLS, d)
        between(ds)
        a, b = matrix_split(ds, user_test_ratio=ur, item_test_ratio=ir, seed=seed, max_concurrent_threads=threads, verbose=False)
        return [rows(a), rows(b)]
    return f


def with_ids(ctx, be, d):
    ds = ref.build(ctx, be, COLS, d)
    ds.assign_internal_ids()
    return ds


def op_random_gen(query):
    def f(ctx, be, d, seed, threads, between):
        ds = with_ids(ctx, be, d)
        gen = ds.select_random_generator(query, seed=seed)
        out = []
        for j in range(10):
            if j in (0, 1, 6): between(ds)
            out.append(sorted((k, str(v)) for k, v in next(gen).items()))
        return out
    return f


def op_null_gen(threshold):
    def f(ctx, be, d, seed, threads, between):
        ds = with_ids(ctx, be, d)
        gen = ds.null_interaction_pair_generator(interaction_threshold=threshold, seed=seed)
        out = []
        for j in range(10):
            if j in (0, 1, 6): between(ds)
            out.append([int(x) for x in next(gen)])
        return out
    return f


def op_point(neg, threshold):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Sampler import PointSampler
        ds = with_ids(ctx, be, d)
        s = PointSampler(ds, neg, threshold, seed)
        out = []
        for what in ('sample', 'one', 'pos', 'neg', 'sample'):
            between(ds)
            got = s.sample(4) if what == 'sample' else [s.sample_one() if what == 'one' else s.sample_positive() if what == 'pos' else s.sample_negative()]
            out += [[str(int(u)), str(int(i)), float(v)] for u, i, v in got]
        return out
    return f


def op_list(groups, **kw):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Sampler import ListSampler
        ds = with_ids(ctx, be, d)
        s = ListSampler(ds, groups, seed=seed, **kw)
        out = []
        for n in (2, 1, 3):
            between(ds)
            for g in s.sample_group_records(n):
                parts = [g, [], []] if kw.get('n_targets', 5) is None else g
                out.append([[str(r['rid']) for r in parts[0]], [str(r['rid']) for r in parts[1]], [str(x) for x in parts[2]]])
        return out
    return f


def scripted(ctx, be, d):
    from ..models import fitted
    us, it = sorted({r[0] for r in d}, key=str), sorted({r[1] for r in d}, key=str)
    return fitted(ref.build(ctx, be, COLS, d), lambda u, i: ((us.index(u) * 7 + it.index(i) * 5) % 11) / 2 if u in us and i in it else None)


def op_ranking(**kw):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Evaluation.Processes import ranking_evaluation
        m = scripted(ctx, be, d[:8])
        test = ref.build(ctx, be, COLS, d[4:])
        between(test)
        return ranking_evaluation(m, test, k=[1, 2, 3], interaction_threshold=3, seed=seed, max_concurrent_threads=threads, verbose=False, **kw)
    return f


def op_recommendation(**kw):
    def f(ctx, be, d, seed, threads, between):
        from DRecPy.Evaluation.Processes import recommendation_evaluation
        m = scripted(ctx, be, d[:8])
        test = ref.build(ctx, be, COLS, d[2:])
        between(test)
        return recommendation_evaluation(m, test, k=[1, 2, 4], interaction_threshold=2, novelty=False, seed=seed, max_concurrent_threads=threads, verbose=False, **kw)
    return f


def op_model(name, twice=False, **kw):
    def f(ctx, be, d, seed, threads, between):
        import tensorflow as tf
        from DRecPy.Recommender import CDAE, DMF, Caser
        from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
        if name == 'CDAE': m = CDAE(hidden_factors=3, seed=seed, verbose=False, **kw)
        elif name == 'DMF': m = DMF(user_factors=[4, 3], item_factors=[3], seed=seed, verbose=False, **kw)
        else: m = Caser(L=2, T=1, d=3, n_v=2, n_h=2, seed=seed, verbose=False, **kw)
        ds = ref.build(ctx, be, COLS, d)
        calls = []

        def cb(model):
            calls.append(1)
            if len(calls) == 2: between(None)
            return {'m': len(calls)}
        fk = dict(epochs=3, batch_size=3, learning_rate=0.05, epoch_callback_fn=cb, epoch_callback_freq=1, early_stopping_rule=MaxValidationValueRule('m'), early_stopping_freq=1)
        if name == 'Caser': fk['neg_ratio'] = 1
        if twice:
            m.fit(ref.build(ctx, be, COLS, d), **fk)
            calls.clear()
        between(ds)
        m.fit(ds, **fk)
        us, it = sorted({r[0] for r in d}, key=str), sorted({r[1] for r in d}, key=str)
        out = []
        for u in us:
            if name != 'Caser': out += [round(float(m.predict(u, i)), 5) for i in it]
            r = [round(float(s), 5) for s, _ in m.recommend(u, novelty=False)]
            out.append(r)
        return out
    return f


OPS = {
    'random_split .25': (op_random_split(.25), 'split'), 'random_split .5': (op_random_split(.5), 'split'),
    'leave_k_out 1': (op_leave_k_out(1, 0), 'split'), 'leave_k_out 2': (op_leave_k_out(2, 3), 'split'), 'leave_k_out .5': (op_leave_k_out(.5, 0), 'split'),
    'matrix_split': (op_matrix_split(.7, .5), 'split'), 'matrix_split all users': (op_matrix_split(1., .4), 'split'),
    'random generator': (op_random_gen(None), 'gen'), 'random generator query': (op_random_gen('interaction >= 2'), 'gen'),
    'null pairs': (op_null_gen(None), 'gen'), 'null pairs threshold': (op_null_gen(3), 'gen'),
    'PointSampler': (op_point(2, None), 'sampler'), 'PointSampler threshold': (op_point(1, 3), 'sampler'),
    'ListSampler uid': (op_list(['uid'], neg_ratio=1, n_targets=1, min_positive_records=1, max_positive_records=1), 'sampler'),
    'ListSampler user': (op_list(['user'], neg_ratio=1, n_targets=1, min_positive_records=1, max_positive_records=2, negative_ids_col='item', sort_column='timestamp'), 'sampler'),
    'ListSampler no targets': (op_list(['user'], n_targets=None, min_positive_records=1, interaction_threshold=2), 'sampler'),
    'ListSampler two': (op_list(['uid', 'user'], neg_ratio=1, n_targets=1, min_positive_records=1, max_positive_records=1, negative_ids_col='item'), 'sampler'),
    'ranking': (op_ranking(n_pos_interactions=1, n_neg_interactions=1), 'eval'),
    'ranking generated': (op_ranking(n_pos_interactions=1, n_neg_interactions=2, generate_negative_pairs=True), 'eval'),
    'ranking users': (op_ranking(n_pos_interactions=1, n_neg_interactions=.5, n_test_users=2), 'eval'),
    'recommendation': (op_recommendation(n_pos_interactions=1), 'eval'), 'recommendation users': (op_recommendation(n_pos_interactions=2, n_test_users=2), 'eval'),
    'CDAE': (op_model('CDAE'), 'model'), 'DMF': (op_model('DMF'), 'model'), 'Caser': (op_model('Caser'), 'model'),
    'CDAE again': (op_model('CDAE', True), 'model'), 'DMF again': (op_model('DMF', True), 'model'), 'Caser again': (op_model('Caser', True), 'model'),
}
SEEDS = {'split': (0, 1, 7), 'gen': (0, 1, 7), 'sampler': (0, 1, 7), 'eval': (0, 1, 7), 'model': (5, 0)}
VARIED = {k: 8 for k in ('split', 'gen', 'sampler')}     # seeds over which the results may not all be equal


# ---------------------------------------------------------------- perturbations of the process state: (ctx, dataset in use or None)
def _p_seed(ctx, ds): random.seed(7)


def _p_draw(ctx, ds):
    random.random()
    random.shuffle([1, 2, 3, 4])


def _p_np(ctx, ds):
    import numpy as np
    np.random.seed(3)
    np.random.rand(2)


def _p_tf(ctx, ds):
    import tensorflow as tf
    tf.random.set_seed(9)
    tf.random.uniform([2])


def _p_keras(ctx, ds):
    import tensorflow as tf
    tf.keras.initializers.GlorotUniform()([2, 2])
    tf.keras.layers.Dense(2)(tf.zeros([1, 2]))


def _p_keras_seed(ctx, ds):
    import tensorflow as tf
    tf.keras.utils.set_random_seed(5)


def _p_reads(ctx, ds):
    if ds is None: return
    list(ds.values_list())
    ds.unique('user').values_list('user')
    ds.select('interaction > 2').copy()
    len(ds), ds.max('interaction'), ds.count_unique('item')


def _p_vecs(ctx, ds):
    if ds is None: return
    if not ds.has_internal_ids: ds = ds.copy(); ds.assign_internal_ids()
    ds.select_user_interaction_vec(0)
    ds.select_item_interaction_vec(1)


def _p_split(ctx, ds):
    from DRecPy.Evaluation.Splits import leave_k_out, random_split
    o = ref.build(ctx, 'mem', COLS, DATA['small'])
    leave_k_out(o, k=1, seed=3, max_concurrent_threads=2, verbose=False)
    random_split(o, seed=4, verbose=False)


def _p_sample(ctx, ds):
    from DRecPy.Sampler import PointSampler, ListSampler
    o = with_ids(ctx, 'mem', DATA['small'])
    PointSampler(o, 1, 2, seed=1).sample(3)
    PointSampler(o, 1, None).sample(2)
    ListSampler(o, ['uid'], n_targets=None, min_positive_records=1).sample_group_records(2)


def _p_gen(ctx, ds):
    if ds is None: ds = ref.build(ctx, 'mem', COLS, DATA['small'])
    if not ds.has_internal_ids: ds = ds.copy(); ds.assign_internal_ids()
    next(ds.select_random_generator())
    next(ds.select_random_generator(seed=0))
    next(ds.null_interaction_pair_generator(seed=0))
    next(ds.null_interaction_pair_generator())


def _p_model(ctx, ds):
    from DRecPy.Recommender import CDAE
    m = CDAE(hidden_factors=2, seed=3, verbose=False)
    m.fit(ref.build(ctx, 'mem', COLS, DATA['small']), epochs=1, batch_size=1)


def _p_model_noseed(ctx, ds):
    from DRecPy.Recommender import DMF
    m = DMF(user_factors=[2], item_factors=[2], verbose=False)
    m.fit(ref.build(ctx, 'mem', COLS, DATA['small']), epochs=1, batch_size=1)


def _p_eval(ctx, ds):
    from DRecPy.Evaluation.Processes import ranking_evaluation
    m = scripted(ctx, 'mem', DATA['small'])
    ranking_evaluation(m, n_pos_interactions=1, n_neg_interactions=1, interaction_threshold=2, seed=3, max_concurrent_threads=2, verbose=False)


PERT = {f.__name__[3:]: f for f in (_p_seed, _p_draw, _p_np, _p_tf, _p_keras, _p_keras_seed, _p_reads, _p_vecs, _p_split, _p_sample, _p_gen, _p_model, _p_model_noseed, _p_eval)}
COSTLY = ('model', 'model_noseed', 'eval', 'keras', 'split')


def bounds(tier):
    return {'operations': len(OPS), 'perturbations': list(PERT), 'sequence length': '1 (models), 2 (others, in memory, without costly perturbations)' if tier == 'quick' else '2 (models), 3 (others; 2 with costly perturbations)',
            'seeds': 3, 'interpreters': 3, 'backends': 2, 'threads': [1, 2, 8]}


def setups(tier):
    """(operation, backend, data) in a fixed order."""
    for name, (_, kind) in OPS.items():
        for be in ('mem', 'db'):
            for dname in ('int', 'text'):
                if tier == 'quick' and kind == 'model' and (be == 'db') == (dname == 'int'): continue
                yield name, kind, be, dname


def cases(tier):
    for name, kind, be, dname in setups(tier):
        yield [name, be, dname, 'same']
    for name, kind, be, dname in setups(tier):
        if tier == 'quick' and name.endswith('again'): continue
        for p in PERT:
            yield [name, be, dname, p]


def sequences(tier, kind, first, be):
    yield (first,)
    n = {'quick': 1, 'thorough': 2}[tier] if kind == 'model' else {'quick': 2, 'thorough': 3}[tier]
    for length in range(2, n + 1):
        for rest in itertools.product(PERT, repeat=length - 1):
            if length == 3 and any(x in COSTLY for x in (first,) + rest): continue
            if tier == 'quick' and (be == 'db' or any(x in COSTLY for x in (first,) + rest)): continue
            yield (first,) + rest


# ---------------------------------------------------------------- reference interpreters
_children = []


def start_children():
    base = engine.tempfile.gettempdir()
    for j, (hashseed, order) in enumerate((('1', 'forward'), ('424242', 'backward'))):
        d = os.path.join(base, f'child{j}')
        os.makedirs(os.path.join(d, 'data'))
        env = dict(os.environ, PYTHONHASHSEED=hashseed, DATA_FOLDER=os.path.join(d, 'data'), HOME=d, TMPDIR=d)
        out, err = os.path.join(d, 'out.json'), open(os.path.join(d, 'err'), 'w')
        p = subprocess.Popen([sys.executable, '-m', 'mc.checks.c21', d, out, order, os.environ.get('VERIF_TIER', 'quick')], cwd=engine.ROOT, env=env,
                             stdin=subprocess.DEVNULL, stdout=err, stderr=err)
        _children.append((p, out, os.path.join(d, 'err')))


REF = []


def after_import():
    for p, out, err in _children:
        try: rc = p.wait(780)
        except subprocess.TimeoutExpired:
            p.kill()
            raise engine.HarnessError('reference interpreter did not finish')
        if rc != 0:
            with open(err) as f: raise engine.HarnessError('reference interpreter failed: ' + f.read()[-2000:])
        with open(out) as f: REF.append(json.load(f))
    for k in REF[0]: assert k in REF[1]


def seeds_of(kind):
    return SEEDS[kind] if kind not in VARIED else tuple(range(VARIED[kind]))


def run_op(ctx, name, be, dname, seed, threads=2, between=None):
    between = between or (lambda ds: None)
    try: r = OPS[name][0](ctx, be, DATA[dname], seed, threads, between)
    except engine.Hang: raise
    except Exception as e: r = f'{type(e).__name__}: {e}'
    return json.loads(json.dumps(r))


def child():
    import signal
    d, out, order, tier = sys.argv[1:5]
    engine.tempfile.tempdir = d
    engine.import_library(NEEDS)

    class C:
        n = 0

        def path(self, name):
            self.n += 1
            return os.path.join(d, f'{self.n}_{name}')
    ctx = C()

    def on_alarm(sig, frame): raise engine.Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    os.chdir(d)
    engine.contain([d, '/opt/venv/mplconfig'])
    if order == 'backward': random.seed(77)
    res = {}
    todo = [(n, be, dn, s) for n, kind, be, dn in setups(tier) for s in seeds_of(kind)]
    if order == 'backward': todo.reverse()
    import gc
    for j, (n, be, dn, s) in enumerate(todo):
        signal.setitimer(signal.ITIMER_REAL, 60, 2)
        try: r = run_op(ctx, n, be, dn, s)
        except engine.Hang: r = 'hang'
        signal.setitimer(signal.ITIMER_REAL, 0)
        res[repr([n, be, dn, s])] = r
        if j % 16 == 0: gc.collect()
    with open(out, 'w') as f: json.dump(res, f)


# ---------------------------------------------------------------- one case
def close(a, b, kind):
    if a == b: return True
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(close(x, y, kind) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(close(a[k], b[k], kind) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return kind == 'eval' and abs(a - b) < 1.01e-4 or kind == 'model' and (abs(a - b) < 3e-5 or a != a and b != b)
    return False


def one(ctx, case):
    import numpy as np
    name, be, dname, first = case
    kind = OPS[name][1]
    want = {s: REF[0][repr([name, be, dname, s])] for s in seeds_of(kind)}
    what = f'{name} [{be}, {dname} ids]'

    def compare(got, s, how):
        ctx.step()
        ctx.check(close(got, want[s], kind), f'{what} with seed {s} {how} gives {got}, another interpreter gave {want[s]}')

    if first == 'same':
        for s in seeds_of(kind):
            other = REF[1][repr([name, be, dname, s])]
            ctx.check(close(want[s], other, kind), f'{what} with seed {s}: two interpreters (different hash seeds and histories) give {want[s]} and {other}')
            ctx.check(not (isinstance(want[s], str)), f'{what} with seed {s}: {want[s]}')
            if kind == 'split':
                o = REF[0][repr([name, 'db' if be == 'mem' else 'mem', dname, s])]
                ctx.check(want[s] == o, f'{what} with seed {s}: {want[s]}, the other backend {o}')
        if kind in VARIED:
            ctx.check(len({json.dumps(want[s]) for s in want}) > 1, f'{what}: seeds {list(want)} all give {want[0]}')
        for s in SEEDS[kind]:
            for threads in (1, 2, 8) if kind in ('split', 'eval') else (1,):
                before, nbefore = random.getstate(), np.random.get_state()
                got = run_op(ctx, name, be, dname, s, threads)
                ctx.check(random.getstate() == before, f'{what} with seed {s} changed the state of the global random generator')
                ctx.check(all(np.array_equal(x, y) for x, y in zip(np.random.get_state(), nbefore)), f'{what} with seed {s} changed the state of numpy\'s global random generator')
                compare(got, s, f'with {threads} threads')
            compare(run_op(ctx, name, be, dname, s), s, 'when repeated')
            ctx.outcome((name, s, want[s]))
            if kind != 'model' and kind != 'split':   # other instances with the same and with another seed, advanced in between
                def twin(ds, s=s):
                    run_op(ctx, name, be, dname, s)
                    run_op(ctx, name, be, dname, s + 1)
                compare(run_op(ctx, name, be, dname, s, between=twin), s, 'while others with the same seed are used')
        ctx.state((name, be, dname))
        return
    for j, seq in enumerate(sequences(ctx.tier, kind, first, be)):
        def go(ds):
            for p in seq: PERT[p](ctx, ds)
        s = SEEDS[kind][j % len(SEEDS[kind])]
        if j % 2 == 0 or len(seq) == 1 or kind == 'model':
            for p in seq: PERT[p](ctx, None)
            compare(run_op(ctx, name, be, dname, s, (1, 2, 8)[j % 3]), s, f'after {seq}')
        compare(run_op(ctx, name, be, dname, s, (2, 8, 1)[j % 3], go), s, f'with {seq} in between')
        ctx.state((name, be, dname, seq))


if __name__ == '__main__':
    child()
