"""Choice-tree exploration: takes over the random source of the library and enumerates every outcome of every draw."""
import random as _random

RealRandom = _random.Random
_current = None


class Horizon(Exception):
    """The path used more draws than the bound allows (rejection loops); the path is cut, not failed."""


class Path:
    def __init__(self, prefix, horizon, grid, wide=None, tail=None):
        self.prefix, self.horizon, self.grid, self.wide, self.tail = prefix, horizon, grid, wide, tail
        self.taken, self.arity, self.cut = [], [], False

    def choose(self, n):
        k = len(self.taken)
        if k >= self.horizon:
            self.cut = True
            raise Horizon()
        if self.tail is not None and k >= self.tail:      # beyond this depth one fixed outcome per draw
            self.taken.append(0)
            self.arity.append(1)
            return (k * 7 + 3) % n
        v = self.prefix[k] if k < len(self.prefix) else 0
        last = n - 1
        if self.wide is not None and k >= self.wide: n = min(n, 2)     # beyond this depth only the extreme outcomes
        if v >= n: v = n - 1
        self.taken.append(v)
        self.arity.append(n)
        return last if v == n - 1 else v


class EnumRandom(RealRandom):
    """Every source of randomness of random.Random is derived from these methods."""

    def _randbelow(self, n):
        if _current is None: return RealRandom._randbelow(self, n)
        if n <= 0: return 0
        return 0 if n == 1 else _current.choose(n)

    _randbelow_with_getrandbits = _randbelow

    def random(self):
        if _current is None: return RealRandom.random(self)
        g = _current.grid
        return g[_current.choose(len(g))]

    def getrandbits(self, k):
        if _current is None: return RealRandom.getrandbits(self, k)
        return 0 if k == 0 else _current.choose(2 ** k)


def install():
    """Before the library is imported, so that a class imported by name is taken over as well; behaves like the original outside Explorer.run."""
    _random.Random = EnumRandom


class Explorer:
    """for path in Explorer(...): with path: run the library.  Visits every path of the choice tree up to the horizon."""

    def __init__(self, horizon=64, grid=(0.0, 0.5, 1 - 2 ** -53), limit=None, wide=None, tail=None):
        self.horizon, self.grid, self.limit, self.wide, self.tail = horizon, grid, limit, wide, tail
        self.paths = self.cut = 0
        self.capped = False
        self.max_arity = 1

    def run(self, fn):
        """Yields (result of fn(), path) for every path; paths cut at the horizon yield (Horizon, path)."""
        global _current
        prefix = []
        saved = _random.Random
        while True:
            path = Path(prefix, self.horizon, self.grid, self.wide, self.tail)
            _random.Random = EnumRandom
            _current = path
            try:
                try:
                    r = fn()
                except Exception:
                    if not path.cut: raise
                if path.cut:         # also when the library swallowed the exception
                    r = Horizon
                    self.cut += 1
            finally:
                _current = None
                _random.Random = saved
            self.paths += 1
            if path.arity: self.max_arity = max(self.max_arity, max(path.arity))
            yield r, path
            k = len(path.taken) - 1
            while k >= 0 and path.taken[k] + 1 >= path.arity[k]: k -= 1
            if k < 0: return
            prefix = path.taken[:k] + [path.taken[k] + 1]
            if self.limit is not None and self.paths >= self.limit:
                self.capped = True
                return
