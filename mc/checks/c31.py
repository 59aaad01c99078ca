"""C31: the deep models, their scores and every training step, against an independent statement of their networks, for every random choice made while training."""
import itertools
import os
from .. import ref
from ..choice import Explorer, Horizon, install

NEEDS = ('all',)
RULE = ('a case is (model, settings, backend, data); inside, every path of the tree of random choices of a fit is executed (which pairs or sequences are sampled, which inputs are corrupted); '
        'transitions count training steps compared; distinct_nontrivial counts distinct (case, set of reached batches)')
ASSUMPTIONS = ['weights start wherever the seed puts them; from there on every gradient and score is compared to 4 significant digits', 'Caser trained without dropout (its scores are also compared with dropout configured)',
               'variables are recognised by their shapes, which differ in the enumerated settings', 'one record per (user, item), interactions >= 0']
CHUNK = 1
CASE_LIMIT_S = 300
LR, REG = 0.1, 0.03
COLS = ['user', 'item', 'interaction', 'timestamp']


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    install()


def bounds(tier):
    return {'models': 'CDAE (bce, mse; corruption 0, 0.2, 0.5; thresholds 0.001, 2), DMF (with and without nce and l2 norm; one and two layers), Caser (L 1..3, T 1..2, pooling narrower than the sequence)',
            'matrices': 'all 2x2 over {none, 1, 3}, constant matrices, 2x3 and 3x2 over {none, 3} (quick: every thirteenth)', 'batch': '1 (2 for a part)', 'epochs': '1 (2 for a part)', 'neg_ratio': [0, 1],
            'horizon (draws)': '7-9 per fit; with two steps or batches of two the first 6 draws, the others fixed'}


def mats(tier):
    for m in itertools.product((None, 1, 3), repeat=4): yield 2, 2, m
    for v in (2, 0.5, 4): yield 2, 2, (v, v, v, None)
    yield 2, 2, (2, 4, None, 3)
    yield 2, 2, (0.5, 4, 1, None)
    for j, m in enumerate(itertools.product((None, 3), repeat=6)):
        if tier == 'quick' and j % 13: continue
        yield 2, 3, m
        yield 3, 2, m


def ok(r, c, m):
    return all(any(m[a * c + b] is not None for b in range(c)) for a in range(r)) and all(any(m[a * c + b] is not None for a in range(r)) for b in range(c))


def cases(tier):
    """The models in turn, so that a run cut short has covered each of them."""
    by = {}
    for c in all_cases(tier): by.setdefault(c[0], []).append(c)
    order = sorted(((j + .5) / len(l), k, j) for k, l in by.items() for j in range(len(l)))
    return [by[k][j] for _, k, j in order]


def all_cases(tier):
    cd = [(l, lv, th) for l in ('bce', 'mse') for lv in (0.2, 0, 0.5) for th in (1e-3, 2)]
    dm = [(n, z, uf, it) for n in (True, False) for z in (True, False) for uf, it in (([4, 3], [5, 3]), ([3], [3]))]
    k = 0
    for r, c, m in mats(tier):
        if not ok(r, c, m): continue
        top = max(v for v in m if v is not None)
        for models, kind in ((cd, 'CDAE'), (dm, 'DMF')):
            n = len(models)
            for j in range(n if tier == 'thorough' else 1):
                s = list(models[(k * 5 + j) % n])
                th = s[2] if kind == 'CDAE' else (2 if k % 4 == 0 else 1e-3)
                if top < th: th = 1e-3
                if kind == 'CDAE': s[2] = th
                for nr in (0, 1):
                    if nr and all(v is not None and v >= th for v in m): continue
                    if tier == 'quick' and nr == 0 and k % 3: continue
                    yield [kind, s, th, 'db' if k % 4 == 1 else 'mem', r, c, list(m), nr, 2 if k % 7 == 2 and r * c < 6 else 1, 2 if k % 5 == 3 and r * c < 6 else 1]
        k += 1
    for L, T, nh, nv, drop, k in ((1, 1, 4, 2, 0, 0), (2, 1, 4, 1, 0, 1), (2, 1, 1, 3, 0, 2), (3, 1, 2, 1, 0, 3), (1, 2, 3, 2, 0, 0), (2, 2, 1, 2, 0, 1), (2, 1, 3, 2, 0.5, 2), (1, 1, 1, 2, 0, 2)):
        for seqs in (((3, 1, 0, 2), (1, 2, 4, 0)), ((0, 1, 2, 3), (4, 3, 2, 1, 0)), ((2, 0, 4), (1, 3, 0, 4))):
            if min(map(len, seqs)) < L + T: continue
            if max(map(len, seqs)) + T > 5 and T > 1: continue
            for th in (1e-3, 2):
                for be in ('mem', 'db'):
                    if tier == 'quick' and (th == 2) != (be == 'db'): continue
                    yield ['Caser', [L, T, nh, nv, drop], th, be, 2, 5, [list(x) for x in seqs], k % 2 if T == 1 and max(map(len, seqs)) < 5 else 0, 1, 1]


def one(ctx, case):
    import numpy as np
    import tensorflow as tf
    kind, s, th, be, r, c, m, nr, batch, epochs = case
    label = f'{case}: '
    users, items = ([30, 10, 20][:r], [7, 5, 900, 6, 8][:c]) if (len(str(m)) + nr) % 2 else (['u', "o'n", 'a,b'][:r], ['x', "i'1", 'a b', 'y', 'z'][:c])
    if kind == 'Caser':
        rows, t = [], 0
        low = 1 if th == 2 else 3
        for j in range(max(map(len, m))):
            for a, seq in enumerate(m):
                if j < len(seq):
                    t += 1
                    rows.append((users[a], items[seq[j]], 3 if (a + j) % 2 else 4, 100 - t if a else t))
    else:
        rows = [(users[a], items[b], m[a * c + b], a * 10 + b) for a in range(r) for b in range(c) if m[a * c + b] is not None]
    log = []

    class Recorder(tf.keras.optimizers.SGD):
        def apply(self, grads, trainable_variables=None):
            vs = list(trainable_variables)
            log.append((vs, [v.numpy() for v in vs], [None if g is None else tf.convert_to_tensor(g).numpy() for g in grads]))
            return super().apply(grads, trainable_variables)

    def make():
        from DRecPy.Recommender import CDAE, DMF, Caser
        if kind == 'CDAE': return CDAE(hidden_factors=4, corruption_level=s[1], loss=s[0], seed=7, verbose=False, interaction_threshold=th)
        if kind == 'DMF': return DMF(user_factors=list(s[2]), item_factors=list(s[3]), use_nce=s[0], l2_norm_vectors=s[1], seed=7, verbose=False, interaction_threshold=th)
        return Caser(L=s[0], T=s[1], d=3, n_v=s[3], n_h=s[2], dropout_rate=s[4], seed=7, verbose=False, interaction_threshold=th)

    ds = ref.build(ctx, be, COLS, rows)
    ds.assign_internal_ids()
    recs = ds.values_list()
    nu, ni = len(users), len(items)
    mat = np.zeros((nu, ni))
    for x in recs: mat[x['uid'], x['iid']] = x['interaction']
    have = {(x['uid'], x['iid']) for x in recs}
    top = max(float(x['interaction']) for x in recs)
    bottom = min(0., min(float(x['interaction']) for x in recs))
    pos = {p for p in have if mat[p] >= th}
    seqs = {}
    for x in sorted(recs, key=lambda x: x['timestamp']): seqs.setdefault(x['uid'], []).append(x['iid'])
    net = {'CDAE': Cdae, 'DMF': Dmf, 'Caser': CaserNet}[kind](np, tf, s, th, mat, nu, ni, bottom, top, pos, seqs, nr)
    cache, reached = {}, set()
    deep = batch * epochs > 1
    ex = Explorer(horizon=24 if deep else {'CDAE': 8, 'DMF': 7, 'Caser': 9}[kind], grid=(0.0, 1 - 2 ** -20), tail=6 if deep else None)
    final = {}

    def fit():
        log.clear()
        mod = make()
        opt = Recorder(learning_rate=LR)
        mod.fit(ds, epochs=epochs, batch_size=batch, neg_ratio=nr, reg_rate=REG, optimizer=opt)
        return mod

    checked, degenerate = 0, False
    for mod, path in ex.run(fit):
        if mod is Horizon:
            ctx.count('paths cut at the horizon')
            continue
        ctx.check(len(log) == epochs, label + f'{len(log)} updates in {epochs} epochs')
        for e, (vs, before, grads) in enumerate(log):
            w = net.name(before)
            if kind == 'Caser' and s[4]: break
            kw = b''.join(x.tobytes() for x in before)
            if kw not in cache:
                if len(cache) > 40: cache.clear()
                cache[kw] = net.steps(w, before)
            keys, G, R = cache[kw]
            got = np.concatenate([np.zeros(b.size) if g is None else g.ravel() for b, g in zip(before, grads)]) - R / (batch if kind == 'CDAE' else 1)
            hit = None
            if batch == 1:
                d = np.abs(G - got).max(1) / (1e-3 + np.abs(got).max())
                best = int(d.argmin())
                if d[best] < 2e-4: hit = {keys[i] for i in range(len(keys)) if d[i] < 2e-4}
            else:
                best, bd = None, 1e9
                for i in range(len(keys)):
                    d = np.abs((G[i:] + G[i]) / 2 - got).max(1) / (1e-3 + np.abs(got).max())
                    j = int(d.argmin())
                    if d[j] < bd: best, bd = (keys[i], keys[i + j]), d[j]
                if bd < 2e-4: hit = {('pair',) + best}
            if hit is None and net.degenerate(w, G):
                degenerate = True
                ctx.count('steps whose gradient is not determined in single precision')
                continue
            if hit is None:
                ctx.fail(label + f'update {e + 1} (choices {path.taken}) is not the gradient of the loss of any batch that can be sampled; closest {keys[best] if batch == 1 else best}; '
                         f'gradient {np.round(got, 5).tolist()[:40]}, {len(keys)} candidates')
            reached |= hit
            after = log[e + 1][1] if e + 1 < epochs else [v.numpy() for v in vs]
            for b, a, g in zip(before, after, grads):
                ctx.check(g is None or np.abs(a - (b - LR * g)).max() < 1e-5 + 1e-4 * np.abs(b).max(), label + f'update {e + 1} did not move the weights by the optimizer step')
            ctx.step()
        if checked < 6 or len(path.taken) % 5 == 0:
            checked += 1
            w = net.name([v.numpy() for v in log[-1][0]])
            net.scores(ctx, label, mod, w, users, items, ds)
        ctx.state((kind, str(case), tuple(path.taken)))
    ctx.check(checked > 0 or ex.cut, label + 'no path')
    if batch == 1 and epochs == 1 and not degenerate and not (kind == 'Caser' and s[4]):
        want = net.all_batches()
        missing = {k for k in want if k not in reached}
        ctx.check(not missing, label + f'batches {sorted(missing, key=str)[:6]} are never used for training, whatever the random source returns')
    ctx.outcome((kind, str(s), tuple(sorted(map(str, reached)))))
    ctx.count('fits', ex.paths)


class Net:
    def __init__(self, np, tf, s, th, mat, nu, ni, bottom, top, pos, seqs, nr):
        self.np, self.tf, self.s, self.th, self.mat, self.nu, self.ni, self.bottom, self.top, self.pos, self.seqs, self.nr = np, tf, s, th, mat, nu, ni, bottom, top, pos, seqs, nr

    def degenerate(self, w, G):
        """Whether the gradient of some batch is not determined to single precision: it changes by more than 1 % when the weights change by 1e-5."""
        np = self.np
        for k in range(4):
            g = np.random.RandomState(k)
            _, H, _ = self.steps({n: (v * (1 + 1e-5 * g.choice((-1, 1), v.shape))).astype(v.dtype) for n, v in w.items()}, None)
            if (np.abs(H - G).max(1) > 0.01 * (1e-3 + np.abs(G).max(1))).any(): return True
        return False

    def steps(self, w, before):
        """(keys, gradient of the batch loss of each one-element batch, gradient of the regularisation), flattened in the order of `before`."""
        np, tf = self.np, self.tf
        keys, G = [], []
        tv = {k: tf.Variable(v) for k, v in w.items()}
        names = list(w)
        order = {k: j for j, k in enumerate(names)}
        for key in self.candidates():
            with tf.GradientTape() as tape: loss = self.loss(tv, key)
            g = tape.gradient(loss, [tv[k] for k in names])
            keys.append(key)
            G.append(np.concatenate([np.zeros(w[k].size) if x is None else tf.convert_to_tensor(x).numpy().ravel() for k, x in zip(names, g)]))
        R = np.concatenate([(self.reg(k) * w[k]).ravel() for k in names])
        return keys, np.array(G), R

    def bce(self, y, t):
        tf = self.tf
        y = tf.clip_by_value(y, 1e-7, 1 - 1e-7)
        return -tf.reduce_mean(t * tf.math.log(y + 1e-7) + (1 - t) * tf.math.log(1 - y + 1e-7))

    def all_batches(self): return set(self.candidates())


class Cdae(Net):
    def name(self, vs):
        out = {}
        for v in vs:
            k = {(self.ni, 4): 'W', (4, self.ni): 'W_', (self.nu, 4): 'V', (4,): 'b', (self.ni,): 'b_'}
            shape = v.shape
            if shape == (self.ni, 4) and self.ni == self.nu: n = 'W' if 'W' not in out else 'V'      # same shape: the item weights are registered first
            else: n = k[shape]
            assert n not in out
            out[n] = v
        return out

    def reg(self, k): return REG if k in ('W', 'W_', 'V') else 0

    def candidates(self):
        for u in range(self.nu):
            t = [1. if x >= self.th and (u, i) in self.pos else 0. for i, x in enumerate(self.mat[u])]
            on = [i for i in range(self.ni) if t[i]]
            if not on and self.nr == 0: continue
            for mask in itertools.product((False, True), repeat=len(on)):
                if self.s[1] == 0 and any(mask): continue
                yield (u, tuple(i for i, c in zip(on, mask) if c))

    def forward(self, w, u, x):
        tf = self.tf
        h = tf.sigmoid(tf.linalg.matvec(w['W'], x, transpose_a=True) + w['V'][u] + w['b'])
        return tf.sigmoid(tf.linalg.matvec(w['W_'], h, transpose_a=True) + w['b_'])

    def target(self, u): return self.tf.constant([1. if (u, i) in self.pos else 0. for i in range(self.ni)])

    def loss(self, w, key):
        tf = self.tf
        u, gone = key
        t = self.target(u)
        x = tf.constant([0. if i in gone else float(t[i]) / (1 - self.s[1]) for i in range(self.ni)])
        y = self.forward(w, u, x)
        return self.bce(y, t) if self.s[0] == 'bce' else tf.reduce_mean((y - t) ** 2)

    def scores(self, ctx, label, mod, w, users, items, ds):
        for a in users:
            u = ds.user_to_uid(a)
            y = self.forward({k: self.tf.constant(v) for k, v in w.items()}, u, self.target(u)).numpy()
            for b in items:
                got = float(mod.predict(a, b))
                ctx.check(abs(got - y[ds.item_to_iid(b)]) < 2e-5, label + f'predict({a!r}, {b!r}) = {got}, the network gives {y[ds.item_to_iid(b)]}')


class Dmf(Net):
    def name(self, vs):
        # two towers of dense layers, each kernel followed by its bias; the user tower is registered first
        s, out, chains = self.s, {}, []
        shapes = {'u': [self.ni] + list(s[2]), 'i': [self.nu] + list(s[3])}
        want = [(c, l, shapes[c][l], shapes[c][l + 1]) for c in 'ui' for l in range(len(shapes[c]) - 1)]
        kernels = [j for j, v in enumerate(vs) if v.ndim == 2]
        left = list(want)
        for j in kernels:
            f = next(x for x in left if (x[2], x[3]) == vs[j].shape)
            left.remove(f)
            out[f'{f[0]}k{f[1]}'] = vs[j]
            out[f'{f[0]}b{f[1]}'] = vs[j + 1]
            assert vs[j + 1].shape == (f[3],)
        return out

    def reg(self, k): return 2 * REG if k[1] == 'k' else 0

    def candidates(self):
        for p in sorted(self.pos): yield p + (float(self.mat[p]),)
        if self.nr:
            for u in range(self.nu):
                for i in range(self.ni):
                    if (u, i) not in self.pos: yield (u, i, 0.)

    def tower(self, w, c, x, n):
        tf = self.tf
        x = tf.constant(x, dtype=tf.float32)
        if self.s[1]: x = x / tf.maximum(tf.sqrt(tf.reduce_sum(x * x)), 1e-6)
        for l in range(n): x = tf.nn.relu(tf.linalg.matvec(w[f'{c}k{l}'], x, transpose_a=True) + w[f'{c}b{l}'])
        return x * tf.math.rsqrt(tf.maximum(tf.reduce_sum(x * x), 1e-12))

    def cosine(self, w, u, i):
        tf = self.tf
        return tf.maximum(1e-6, tf.reduce_sum(self.tower(w, 'u', self.mat[u], len(self.s[2])) * self.tower(w, 'i', self.mat[:, i], len(self.s[3]))))

    def loss(self, w, key):
        u, i, v = key
        t = (v - self.bottom) / (self.top - self.bottom) if self.s[0] else v
        return self.bce(self.cosine(w, u, i), t)

    def scores(self, ctx, label, mod, w, users, items, ds):
        w = {k: self.tf.constant(v) for k, v in w.items()}
        for a in users:
            for b in items:
                want = self.bottom + (self.top - self.bottom) * float(self.cosine(w, ds.user_to_uid(a), ds.item_to_iid(b)))
                got = float(mod.predict(a, b))
                ctx.check(abs(got - want) < 1e-4, label + f'predict({a!r}, {b!r}) = {got}, the network gives {want}')


class CaserNet(Net):
    def name(self, vs):
        L, T, nh, nv, _ = self.s
        names, out = ['U', 'I', 'vk', 'vb'] + [f'h{x}{i}' for i in range(L) for x in 'kb'] + ['dk', 'db', 'W', 'B'], {}
        shapes = {'U': (self.nu, 3), 'I': (self.ni, 3), 'vk': (L, 3, nv), 'vb': (nv,), 'dk': (nv + L * nh, 3), 'db': (3,), 'W': (self.ni, 6), 'B': (self.ni, 1)}
        for i in range(L): shapes[f'hk{i}'], shapes[f'hb{i}'] = (i + 1, 3, nh), (nh,)
        assert len(names) == len(vs)
        left = list(names)
        k = 0
        while k < len(vs):
            f = next(n for n in left if shapes[n] == vs[k].shape and not (n.endswith('b') or n.startswith('hb')))
            left.remove(f)
            out[f] = vs[k]
            k += 1
            if f in ('vk', 'dk') or f.startswith('hk'):
                b = f.replace('k', 'b')
                assert vs[k].shape == shapes[b]
                left.remove(b)
                out[b] = vs[k]
                k += 1
        return out

    def reg(self, k): return 2 * REG if k in ('U', 'I', 'vk', 'dk', 'W') or k.startswith('hk') else 0

    def candidates(self):
        L, T = self.s[:2]
        for u, seq in self.seqs.items():
            free = [i for i in range(self.ni) if i not in seq]
            for p in range(len(seq) - L - T + 1):
                if len(free) < T * self.nr: continue
                for neg in itertools.combinations(free, T * self.nr):
                    # targets are the T records that follow the window of L
                    yield (u, tuple(seq[p:p + L]), tuple(seq[p + L:p + L + T]), neg)

    def forward(self, w, u, before, after):
        tf = self.tf
        L = self.s[0]
        e = tf.gather(w['I'], list(before))
        v = tf.einsum('ld,ldf->f', e, w['vk']) + w['vb']
        hs = []
        for i in range(L):
            k = w[f'hk{i}']
            outs = [tf.nn.relu(tf.einsum('ld,ldf->f', e[p:p + i + 1], k) + w[f'hb{i}']) for p in range(L - i)]
            hs.append(tf.reduce_max(tf.stack(outs), 0))
        z = tf.nn.relu(tf.linalg.matvec(w['dk'], tf.concat([v] + hs, 0), transpose_a=True) + w['db'])
        z = tf.concat([z, w['U'][u]], 0)
        return tf.linalg.matvec(tf.gather(w['W'], list(after)), z) + tf.gather(w['B'], list(after))[:, 0]

    def loss(self, w, key):
        tf = self.tf
        u, before, targets, neg = key
        y = tf.sigmoid(self.forward(w, u, before, targets + neg))
        return self.bce(y, tf.constant([1.] * len(targets) + [0.] * len(neg)))

    def scores(self, ctx, label, mod, w, users, items, ds):
        w = {k: self.tf.constant(v) for k, v in w.items()}
        for a in users:
            u = ds.user_to_uid(a)
            y = self.forward(w, u, self.seqs[u][-self.s[0]:], range(self.ni)).numpy()
            got = {ds.item_to_iid(i): float(x) for x, i in mod.recommend(a, novelty=False)}
            ctx.check(len(got) == self.ni and all(abs(got[i] - y[i]) < 2e-5 for i in got), label + f'scores of {a!r}: {got}, the network gives {y.tolist()}')
