"""Scripted recommenders: real RecommenderABC subclasses whose predictions are given by a table over raw ids."""
import os


class Boom(Exception):
    pass


_cls = {}


def scripted_class():
    if 'c' in _cls: return _cls['c']
    from DRecPy.Recommender import RecommenderABC

    class Scripted(RecommenderABC):
        """script: (raw user, raw item) -> number | None | 'boom'; calls are recorded."""

        def __init__(self, script, **kw):
            kw.setdefault('verbose', False)
            super().__init__(**kw)
            self.script = script
            self.calls = []

        def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds): pass
        def _sample_batch(self, batch_size, **kwds): raise AssertionError('not trainable')
        def _predict_batch(self, batch_samples, **kwds): raise AssertionError('not trainable')
        def _compute_batch_loss(self, predictions, desired_values, **kwds): raise AssertionError('not trainable')

        def _predict(self, uid, iid, **kwds):
            u, i = self.interaction_dataset.uid_to_user(uid), self.interaction_dataset.iid_to_item(iid)
            self.calls.append((u, i))
            v = self.script(u, i)
            if isinstance(v, str): raise Boom(v)
            return v

    _cls['c'] = Scripted
    return Scripted


def fitted(ds, script, **kw):
    m = scripted_class()(script, **kw)
    m.fit(ds)
    return m
