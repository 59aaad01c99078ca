"""C25: every small training configuration x callback history x early stopping behaviour, on the real fit() with a scripted trainable model."""
import gc
import itertools
import math
import os
from .. import ref

NEEDS = ('all',)
RULE = ('a case is (kind of trainable, epochs, callback frequency, rule frequency, callback results or rule answers, verbosity, optimizer); '
        'distinct_nontrivial counts distinct (epochs run, callback epochs, final weights)')
ASSUMPTIONS = ['the scripted model has linear losses, so that the weights after every epoch are known exactly', 'among equal validation maxima any epoch may be kept',
               'rules answer with an epoch that has been run (0 only if the epoch-0 callback ran)']
CHUNK = 4
CASE_LIMIT_S = 120
KINDS = ('var', 'layer', 'model', 'mix', 'two', 'built')


def before_import():
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'


def bounds(tier):
    return {'epochs': '0..4' if tier == 'quick' else '0..5', 'callback_freq': [1, 2, 3], 'early_stopping_freq': [1, 2, 3],
            'callback results': 'all sequences over {0,1,2} of up to 4 (quick) / 5 (thorough) calls', 'rule answers': 'all (best epoch | invalid) x (stop | go on) sequences for up to 3 (quick) / 4 (thorough) epochs',
            'trainables': list(KINDS), 'verbose': 'both (fewer combinations)'}


def compute_epochs(E, rf, first):
    """Epochs after which the rule is computed with at least one callback result (in order); first: epoch of the first result."""
    es = [e for e in range(1, E + 1) if e % rf == 0 and e >= first]
    if E % rf and E >= first: es.append(E)
    return es


def answer_seqs(E, rf, first):
    """Every possible behaviour of a scripted rule: list of [best epoch or None (invalid), stop]."""
    es = compute_epochs(E, rf, first)

    def rec(j):
        if j == len(es):
            yield []
            return
        for b in list(range(1, es[j] + 1)) + [None]:
            if b is not None and es[j] % rf == 0: yield [[b, True]]
            for tail in rec(j + 1): yield [[b, False]] + tail
    yield from rec(0)


def cases(tier):
    q = tier == 'quick'
    # no rule
    for kind in KINDS:
        for E in range(0, 5 if q else 7):
            for cf in (None, 1, 2, 3):
                for v in (False, True):
                    if v and q and kind not in ('var', 'mix'): continue
                    yield ['plain', kind, E, cf, None, None, v, 'forced']
    for kind in KINDS:
        for opt in ('model', 'default'): yield ['plain', kind, 3, None, None, None, False, opt]
    for opt in ('model', 'default', 'forced'): yield ['notrain', None, 3, 1, None, None, True, opt]
    for what in ('nondict', 'raises'):
        for v in (False, True): yield ['badcallback', 'var', 3, 2, 2, what, v, 'forced']
    # documented rule over callback results
    E_max = 4 if q else 5
    for E in range(0, E_max + 1):
        for cf in (1, 2, 3):
            n = E // cf
            for rf in (1, 2, 3):
                for v in (False, True):
                    for vals in itertools.product(range(3), repeat=n + (1 if v else 0)):
                        h = hash((E, cf, rf, vals))
                        if v and q and E > 2 and h % 6: continue
                        j = sum(vals) + E + cf + rf
                        for kind in ([KINDS[j % 6], KINDS[(j + 2) % 6]] if (q or v) and len(vals) > 1 else KINDS):
                            yield ['max', kind, E, cf, rf, list(vals), v, 'forced']
    for name in ('other', 'm@5'):
        for E in (2, 3): yield ['missing', 'var', E, 1, 2, name, False, 'forced']
    for v in (False, True): yield ['nocallback', 'layer', 3, None, 1, None, v, 'forced']
    # scripted rule
    for E in range(1, 4 if q else 5):
        for rf in (1, 2, 3):
            if rf > E + 1: continue
            for cf in (1, 2):
                for v in (False, True):
                    if cf > E or v and (E > 2 and q or E > 3): continue
                    for j, seq in enumerate(answer_seqs(E, rf, 0 if v else cf)):
                        kinds = [KINDS[j % 6]] if E > 3 else [KINDS[j % 6], KINDS[(j + 1 + j // 6 % 4) % 6]] if E > 2 and q else KINDS
                        for kind in kinds: yield ['script', kind, E, cf, rf, seq, v, 'forced']


_cls = {}


def classes():
    if _cls: return _cls
    import tensorflow as tf
    from DRecPy.Recommender import RecommenderABC
    from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import EarlyStoppingRuleABC, InvalidEpochValidationResultsException

    class Trained(RecommenderABC):
        """Loss of epoch e: 2**e times the sum of all weights; every weight starts at 1 and SGD(1) subtracts 2**e."""

        def __init__(self, kind, own_opt=None, **kw):
            super().__init__(**kw)
            self.kind, self.own_opt = kind, own_opt
            self.batches, self.regs = [], []

        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
            self.parts, self.batches, self.regs = [], [], []
            k = self.kind
            if k in ('var', 'mix'): self.parts.append(tf.Variable(1.))
            if k in ('two',): self.parts += [tf.Variable([1., 1.]), tf.Variable(1.)]
            if k in ('layer', 'mix', 'built'): self.parts.append(tf.keras.layers.Dense(1, kernel_initializer='ones', bias_initializer='ones'))
            if k in ('two', 'built'): self.parts.append(tf.keras.layers.Dense(1, use_bias=False, kernel_initializer='ones'))
            if k == 'built':
                for p in self.parts: p.build((1, 1))
            if k in ('model', 'mix'):
                net = tf.keras.Sequential([tf.keras.layers.Input((1,)), tf.keras.layers.Dense(1, kernel_initializer='ones', bias_initializer='ones')])
                self.parts.append(net)
            if k in ('mix', 'two'): self._register_trainables(self.parts)
            else:
                for p in self.parts: self._register_trainable(p)
            if self.own_opt is not None: self._register_optimizer(self.own_opt)

        def _out(self):
            outs = []
            for p in self.parts:
                if isinstance(p, tf.Variable): outs.append(tf.reduce_sum(p))
                else: outs.append(tf.reduce_sum(p(tf.constant([[1.]]))))
            return tf.stack(outs)

        def weights(self):
            w = []
            for p in self.parts:
                if isinstance(p, tf.Variable): w += [float(x) for x in p.numpy().ravel()]
                else:
                    if not p.get_weights(): self._out()
                    w += [float(x) for a in p.get_weights() for x in a.ravel()]
            return w

        def _sample_batch(self, batch_size, **kwds):
            self.batches.append(batch_size)
            return list(range(batch_size))

        def _predict_batch(self, batch_samples, **kwds):
            out = self._out()
            return out * (2. ** len(self.batches)), tf.zeros_like(out)

        def _compute_batch_loss(self, predictions, desired_values, **kwds):
            return tf.reduce_sum(predictions - desired_values)

        def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
            self.regs.append((reg_rate, batch_size))
            return 0.

        def _predict(self, uid, iid, **kwds): return self.weights()[0]

    class Rule(EarlyStoppingRuleABC):
        def __init__(self, answers, model, log):
            super().__init__(['m'])
            self.answers, self.model, self.log, self.best = list(answers), model, log, None

        def _compute_best_epoch(self, epoch_losses, epoch_validation_results, called_epochs_validation_results, **kwds):
            self.log.append(('compute', len(self.model.batches), [float(x) for x in epoch_losses],
                             {k: list(v) for k, v in epoch_validation_results.items()}, list(called_epochs_validation_results)))
            if not self.answers: raise RuntimeError('the rule was computed more often than documented')
            self.best = self.answers.pop(0)
            if self.best[0] is None: raise InvalidEpochValidationResultsException('scripted')
            return self.best[0]

        def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **kwds):
            self.log.append(('stop?', current_epoch, best_computed_epoch, target_epoch))
            return self.best[1]

    _cls.update(Trained=Trained, Rule=Rule, Invalid=InvalidEpochValidationResultsException)
    return _cls


class CallbackBoom(Exception):
    pass


def w_after(e): return 1. - sum(2. ** i for i in range(1, e + 1))


def one(ctx, case):
    what, kind, E, cf, rf, arg, verbose, opt = case
    import tensorflow as tf
    import matplotlib.pyplot as plt
    from DRecPy.Recommender.EarlyStopping import MaxValidationValueRule
    C = classes()
    plt.close('all')
    ds = ref.build(ctx, 'mem', ['user', 'item', 'interaction'], [(1, 1, 3), (1, 2, 1), (2, 1, 5)])
    m = C['Trained'](kind, own_opt=tf.keras.optimizers.SGD(0.5) if opt == 'model' else None, verbose=verbose)
    log, rule_log = [], []
    nper = {'var': 1, 'layer': 2, 'model': 2, 'mix': 5, 'two': 4, 'built': 3}.get(kind, 0)
    vals = list(arg) if what == 'max' else None

    def callback(model):
        e = len(model.batches)
        log.append((e, model.weights() if kind else None, model is m, model.fitted))
        if what == 'badcallback' and e == 2:
            if arg == 'nondict': return [('m', 1)]
            raise CallbackBoom('x')
        if what == 'max': return {'val_HitRatio@5': vals.pop(0) if vals else 0, 'z': 9 - e}
        if what == 'missing': return {'m': 1}
        return {'m': 10 + e, 'n@3': -e}

    rule = None
    if what == 'max': rule = MaxValidationValueRule('val_HitRatio')
    elif what == 'missing': rule = MaxValidationValueRule(arg)
    elif what in ('script', 'nocallback', 'badcallback'): rule = C['Rule'](arg if what == 'script' else [[1, False]] * 9, m, rule_log)
    kw = dict(epochs=E, batch_size=3, learning_rate=0.25, reg_rate=0.125)
    if cf is not None: kw.update(epoch_callback_fn=callback, epoch_callback_freq=cf)
    if rule is not None: kw.update(early_stopping_rule=rule, early_stopping_freq=rf)
    if opt == 'forced': kw['optimizer'] = tf.keras.optimizers.SGD(1.)
    err = None
    try:
        m.fit(ds, **kw)
    except (AssertionError, CallbackBoom) as e:
        err = e
    needed = cf is not None and (verbose or rule is not None)
    expected_calls = [e for e in range(0, E + 1) if needed and (e % cf == 0 and e > 0 or e == 0 and verbose)]
    d = f'{case}: '
    if what == 'badcallback':
        ctx.check(err is not None and isinstance(err, AssertionError if arg == 'nondict' else CallbackBoom), d + f'a callback that {arg} gave {err!r}')
        return
    if err is not None: raise err
    ctx.check(m.fitted is True, d + 'not fitted after fit')
    if what == 'notrain':
        ctx.check(m.batches == [] and log == [], d + f'batches {m.batches}, callbacks {log} of a model without trainables')
        return

    # epochs run
    stop_at = E
    if what == 'script':
        for (b, s), e in zip(arg, compute_epochs(E, rf, 0 if verbose else cf)):
            if s: stop_at = e
    run = len(m.batches)
    ctx.check(run == stop_at, d + f'{run} epochs were run, documented {stop_at}')
    ctx.check(all(b == 3 for b in m.batches), d + f'batch sizes {m.batches}')
    ctx.check(m.regs == [(0.125, 3)] * run, d + f'regularisation called with {m.regs}')
    expected_calls = [e for e in expected_calls if e <= run]
    ctx.check([x[0] for x in log] == expected_calls, d + f'callback ran after epochs {[x[0] for x in log]}, documented {expected_calls}')
    step = {'forced': 1., 'model': 0.5}.get(opt)
    if step is None:
        m1 = m.weights()
        ctx.check(all(w < 1 - 0.25 * 0.9 for w in m1), d + f'the default optimizer did not step with the learning rate: {m1}')
        m2 = C['Trained'](kind, verbose=False)
        m2.fit(ds, epochs=1, learning_rate=0.25, batch_size=3)
        ctx.check(all(abs(w - 0.75) < 1e-3 for w in m2.weights()), d + f'first step of the default optimizer (learning rate 0.25): {m2.weights()}')
        return
    W = lambda e: [1. - step * (1. - w_after(e))] * nper
    for e, w, same, fitted in log:
        ctx.check(same and fitted, d + 'callback without the fitted model')
        ctx.check(w == W(e), d + f'callback after epoch {e} saw weights {w}, not those of that epoch {W(e)}')
        ctx.step()

    # what the rule was given
    nout = {'var': 1, 'layer': 2, 'model': 2, 'mix': 5, 'two': 4, 'built': 3}[kind]
    losses = [nout * (2. ** e) * W(e - 1)[0] for e in range(1, run + 1)]
    computes = [x for x in rule_log if x[0] == 'compute']
    if what == 'nocallback':
        ctx.check(rule_log == [], d + f'the rule was used without callback: {rule_log}')
    if what == 'script':
        exp_epochs = compute_epochs(E, rf, 0 if verbose else cf)[:len(arg)]
        ctx.check([x[1] for x in computes] == exp_epochs, d + f'rule computed after epochs {[x[1] for x in computes]}, documented {exp_epochs}')
        for _, e, ls, res, called in computes:
            cs = [c for c in expected_calls if c <= e]
            ctx.check(ls == losses[:e], d + f'after epoch {e} the rule got losses {ls}, not {losses[:e]}')
            ctx.check(called == cs and res == {'m': [10 + c for c in cs], 'n': [-c for c in cs]},
                      d + f'after epoch {e} the rule got results {res} of epochs {called}; callbacks ran after {cs}')
        for _, cur, best, target in [x for x in rule_log if x[0] == 'stop?']:
            ctx.check(target == E and cur % rf == 0 and cur <= run, d + f'stop_training({cur}, {best}, {target})')

    # final weights
    final = m.weights()
    if what == 'max' and expected_calls:
        seq = list(zip(expected_calls, arg))
        top = max(v for _, v in seq)
        allowed = [e for e, v in seq if v == top]
    elif what == 'script':
        used = arg[:len(computes)]
        reported = [b for b, _ in used if b is not None]
        allowed = [reported[-1]] if reported else [run]
    else: allowed = [run]
    ctx.check(any(final == W(e) for e in allowed),
              d + f'final weights {final} are not those of epoch {allowed} ({[W(e) for e in allowed]}); weights per epoch {[W(e) for e in range(run + 1)]}')
    ctx.check(m.predict(1, 1) == final[0], d + 'predictions do not use the final weights')
    if verbose and plt.get_fignums():
        lines = [ln for ax in plt.gcf().axes for ln in ax.get_lines()]
        ys = [[float(y) for y in ln.get_ydata()] for ln in lines]
        ctx.check(run == 0 or losses in ys, d + f'the loss graph shows {ys}, losses are {losses}')
        if needed:
            for key, f in (('m', lambda c: 10. + c),) if what in ('script', 'plain') else ():
                got = [([float(x) for x in ln.get_xdata()], [float(y) for y in ln.get_ydata()]) for ln in lines if ln.get_label() == key]
                ctx.check(got == [([float(c) for c in expected_calls], [f(c) for c in expected_calls])],
                          d + f'the graph of callback results shows {got}; callbacks ran after {expected_calls}')
    plt.close('all')
    ctx.state((kind, E, tuple(map(tuple, [(x[0],) for x in log])), tuple(final)))
    ctx.outcome((run, tuple(x[0] for x in log), tuple(final)))
    ctx.step(run + 1)
    del m
    gc.collect() if ctx.transitions % 50 == 0 else None
