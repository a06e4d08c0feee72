"""Random numbers as inputs: every generator that numpy hands out is a stand-in whose draws are arbitrary values of the
distribution's support, one and the same value for the same (seed sequence, spawn key, position).  Draws from process wide
random state (numpy's global functions, python's random) are arbitrary values that differ from call to call."""
import numpy as np
import random as _random

from symex import core

SUPPORT = dict(normal=(-8, 8), laplace=(-12, 12), unit=(0, 1 - 2.0 ** -40))
GLOBALS = ("random", "rand", "randn", "uniform", "normal", "random_sample", "ranf", "sample", "standard_normal", "laplace", "triangular", "randint", "choice")


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


class Gen:
    def __init__(self, draws, key):
        self._d = draws
        self._key = key
        self._n = 0

    def _draw(self, kind):
        v = self._d.value(self._key, self._n, kind)
        self._n += 1
        return v

    def _many(self, f, size):
        sh = _shape(size)
        if sh is None:
            return f()
        n = int(np.prod(sh))
        return self._d.ctx.array([f() for _ in range(n)]).reshape(sh)

    def random(self, size=None, **k):
        return self._many(lambda: self._draw("unit"), size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(lambda: low + (high - low) * self._draw("unit"), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many(lambda: loc + scale * self._draw("normal"), size)

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return self._many(lambda: loc + scale * self._draw("laplace"), size)

    def triangular(self, left, mode, right, size=None):
        return self._many(lambda: left + (right - left) * self._draw("unit"), size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if not endpoint:
            high = high - 1
        return self._many(lambda: self._d.integer(self._key, self._next(), int(low), int(high)), size)

    def _next(self):
        self._n += 1
        return self._n - 1

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        idx = [i for i in range(len(opts)) if p is None or p[i] > 0]
        return self._many(lambda: opts[idx[self._d.integer(self._key, self._next(), 0, len(idx) - 1)]], size)


class Draws:
    """context manager"""

    def __init__(self, ctx, support=None, fixed=None):
        self.ctx = ctx
        self.fixed = fixed  # a constant for every uniform draw instead of an input
        self.support = dict(SUPPORT, **(support or {}))
        self.quiet = False  # constants: for uses whose draws are not of interest
        self.ids = {}
        self.vals = {}
        self.nglobal = 0
        self.log = []

    def ident(self, seed):
        if isinstance(seed, np.random.SeedSequence):
            k = ("ss", str(seed.entropy))
            tail = "_".join(str(x) for x in seed.spawn_key)
        else:
            k, tail = ("raw", repr(seed)), ""
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        return f"e{self.ids[k]}_{tail}"

    def value(self, key, n, kind):
        if self.quiet:
            return 0.4 if kind == "unit" else 0.1
        if kind == "unit" and self.fixed is not None:
            return self.fixed
        nm = f"r{key}_{n}_{kind}"
        if nm not in self.vals:
            lo, hi = self.support[kind]
            self.vals[nm] = self.ctx.real(nm, lo, hi)
        self.log.append(nm)
        return self.vals[nm]

    def integer(self, key, n, lo, hi):
        if self.quiet:
            return lo
        nm = f"i{key}_{n}_{lo}_{hi}"
        if nm not in self.vals:
            self.vals[nm] = self.ctx.int(nm, lo, hi)
        self.log.append(nm)
        return self.vals[nm]

    def default_rng(self, seed=None):
        if isinstance(seed, Gen):
            return seed
        if seed is None:
            self.nglobal += 1
            return Gen(self, f"g{self.nglobal}")
        return Gen(self, self.ident(seed))

    def _global(self):
        self.nglobal += 1
        return Gen(self, f"g{self.nglobal}")

    def __enter__(self):
        from scipy.stats import truncnorm  # before the generators are replaced: scipy draws while being imported

        self.saved = [(np.random, "default_rng", np.random.default_rng)]
        np.random.default_rng = self.default_rng

        def put(mod, n, f):
            self.saved.append((mod, n, getattr(mod, n)))
            setattr(mod, n, f)

        put(np.random, "normal", lambda *a, **k: self._global().normal(*a, **k))
        put(np.random, "standard_normal", lambda size=None: self._global().normal(size=size))
        put(np.random, "randn", lambda *s: self._global().normal(size=s or None))
        put(np.random, "uniform", lambda *a, **k: self._global().uniform(*a, **k))
        put(np.random, "laplace", lambda *a, **k: self._global().laplace(*a, **k))
        put(np.random, "triangular", lambda *a, **k: self._global().triangular(*a, **k))
        for n in ("random", "random_sample", "ranf", "sample"):
            put(np.random, n, lambda size=None: self._global().random(size))
        put(np.random, "rand", lambda *s: self._global().random(s or None))
        put(np.random, "randint", lambda *a, **k: self._global().integers(*a, **k))
        put(np.random, "choice", lambda *a, **k: self._global().choice(*a, **k))
        put(_random, "random", lambda: self._global().random())
        put(_random, "uniform", lambda a, b: self._global().uniform(a, b))
        put(_random, "gauss", lambda a=0.0, b=1.0: self._global().normal(a, b))
        put(_random, "randint", lambda a, b: self._global().integers(a, b, endpoint=True))
        put(_random, "choice", lambda s: self._global().choice(s))
        self.tn = truncnorm
        self.old = truncnorm.__dict__.get("rvs")
        truncnorm.rvs = self.rvs
        return self

    def rvs(self, a, b, loc=0, scale=1, size=1, random_state=None):
        g = self._global() if random_state is None else self.default_rng(random_state)
        sh = _shape(size)
        n = 1 if sh is None else int(np.prod(sh))

        def nth(x, i):
            x = list(core.flat([x]))
            return x[i if len(x) > 1 else 0]

        out = []
        for i in range(n):
            lo, hi = nth(a, i), nth(b, i)
            out.append(nth(loc, i) + nth(scale, i) * (lo + (hi - lo) * g._draw("unit")))
        return self.ctx.array(out).reshape(sh or (1,))

    def __exit__(self, *exc):
        for m, n, f in reversed(self.saved):
            setattr(m, n, f)
        if self.old is None:
            self.tn.__dict__.pop("rvs", None)
        else:
            self.tn.rvs = self.old
        return False
