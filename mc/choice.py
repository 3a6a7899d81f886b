"""Choice points and their exhaustive exploration.

The code under test draws its random numbers from numpy.random (or random).
``install()`` replaces every drawing function, once and before the code under
test is imported, by a dispatcher.  While a Chooser is active every elementary
draw is a *choice point* with a finite list of alternatives; otherwise the
genuine generator is used.  ``explore`` enumerates all choice sequences of an
execution depth first by re-execution, with an exact rational weight for each.
"""
from __future__ import annotations

import contextlib
import math
import random as _pyrandom
from fractions import Fraction

import numpy as np


class HarnessError(Exception):
    """The machinery itself is wrong (never a verdict on the code)."""


class Divergence(HarnessError):
    """Re-execution of a recorded prefix met other choice points."""


class TooMany(HarnessError):
    """An exploration outgrew its stated bound: no verdict."""


_ACTIVE = None  # the active Chooser
MAX_DRAW = 1.0 - 2.0 ** -53


class Chooser:
    """Resolves choice points: first along a prefix, then alternative 0.

    grid: number of equal cells uniform draws are split in (their midpoints are
    the alternatives) or an explicit list of values in [0, 1).
    """

    def __init__(self, prefix=(), grid=4, normals=(-1.0, 0.0, 1.0), counts=None,
                 randint_max=64, max_draws=200000):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # (index, arity)
        self.set_grid(grid)
        self.normals = tuple(normals)
        self.counts = counts  # alternatives of poisson draws: fn(lam)->list
        self.randint_max = randint_max
        self.max_draws = max_draws

    def set_grid(self, grid):
        if isinstance(grid, int):
            self.values = [(k + 0.5) / grid for k in range(grid)]
            self.weights = None
        elif isinstance(grid, dict):  # value -> weight
            self.values = list(grid)
            tot = sum(Fraction(w) for w in grid.values())
            self.weights = [Fraction(w) / tot for w in grid.values()]
        else:
            self.values = list(grid)
            self.weights = None

    def pick(self, n):
        if n < 1:
            raise HarnessError('empty choice')
        if len(self.trace) >= self.max_draws:
            raise TooMany('more than %d draws in one execution' % self.max_draws)
        if self.pos < len(self.prefix):
            k, arity = self.prefix[self.pos]
            if arity != n:
                raise Divergence('choice %d: arity %d, recorded %d' % (self.pos, n, arity))
        else:
            k = 0
        self.pos += 1
        self.trace.append((k, n))
        return k

    # elementary draws
    def u01(self):
        return self.values[self.pick(len(self.values))]

    def integer(self, low, high):
        n = int(high) - int(low)
        if n <= 0:
            raise ValueError('low >= high')
        if n > self.randint_max:
            # too wide to branch on every value: first, middle, last
            alts = sorted({int(low), int(low) + n // 2, int(high) - 1})
            return alts[self.pick(len(alts))]
        return int(low) + self.pick(n)

    def normal(self):
        return self.normals[self.pick(len(self.normals))]

    def poisson(self, lam):
        alts = self.counts(lam) if self.counts else [0, max(1, int(round(lam)))]
        alts = [int(a) for a in alts]
        return alts[self.pick(len(alts))]

    def weight(self):
        w = Fraction(1)
        if self.weights is None:
            for _, n in self.trace:
                w /= n
        else:
            for k, n in self.trace:
                w *= self.weights[k] if n == len(self.values) else Fraction(1, n)
        return w


class Fixed(Chooser):
    """Never branches: every draw follows a deterministic sequence (a seed)."""

    def __init__(self, seed=0, grid=64, **kw):
        super().__init__((), grid=grid, **kw)
        self._r = _pyrandom.Random(seed)

    def pick(self, n):
        k = self._r.randrange(n)
        self.trace.append((k, n))
        return k


@contextlib.contextmanager
def active(chooser):
    global _ACTIVE
    old = _ACTIVE
    _ACTIVE = chooser
    try:
        yield chooser
    finally:
        _ACTIVE = old


def current():
    return _ACTIVE


# --------------------------------------------------------------------------
# replacement drawing functions

def _fill(size, fn, *params):
    """Broadcast params, draw elementwise, C order."""
    params = [np.asarray(p) for p in params]
    if size is None:
        shape = np.broadcast(*params).shape if params else ()
    else:
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
    if shape == ():
        return fn(*[p.item() if p.shape == () else p for p in params])
    bc = [np.broadcast_to(p, shape) for p in params]
    out = [fn(*[b[idx] for b in bc]) for idx in np.ndindex(*shape)]
    if not out:
        return np.empty(shape)
    return np.array(out).reshape(shape)


def _uniform(low=0.0, high=1.0, size=None):
    c = _ACTIVE
    if type(low) is float and type(high) is float and low == 0.0 and high == 1.0:
        return _random(size)
    return _fill(size, lambda a, b: a + (b - a) * c.u01(), low, high)


def _random(size=None, dtype=None, out=None):
    c = _ACTIVE
    if size is None:
        return c.u01()
    if isinstance(size, int):
        return np.array([c.u01() for _ in range(size)], dtype=float)
    return _fill(size, lambda: c.u01())


def _rand(*dims):
    return _random(dims if dims else None)


def _randint(low, high=None, size=None, dtype=int, endpoint=False):
    c = _ACTIVE
    if high is None:
        low, high = 0, low
    r = _fill(size, lambda a, b: c.integer(a, b + (1 if endpoint else 0)), low, high)
    return r.astype(dtype) if isinstance(r, np.ndarray) else int(r)


def _random_integers(low, high=None, size=None):
    if high is None:
        low, high = 1, low
    return _randint(low, np.asarray(high) + 1, size)


def _normal(loc=0.0, scale=1.0, size=None):
    c = _ACTIVE
    return _fill(size, lambda m, s: m + s * c.normal(), loc, scale)


def _standard_normal(size=None, dtype=None, out=None):
    return _normal(0.0, 1.0, size)


def _randn(*dims):
    return _normal(0.0, 1.0, dims if dims else None)


def _poisson(lam=1.0, size=None):
    c = _ACTIVE
    r = _fill(size, lambda l: c.poisson(l), lam)
    return r.astype(int) if isinstance(r, np.ndarray) else int(r)


def _binomial(n, p, size=None):
    c = _ACTIVE
    r = _fill(size, lambda k, q: sum(1 for _ in range(int(k)) if c.u01() < q), n, p)
    return r.astype(int) if isinstance(r, np.ndarray) else int(r)


def _exponential(scale=1.0, size=None):
    c = _ACTIVE
    return _fill(size, lambda s: -s * math.log(1.0 - c.u01()), scale)


def _choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    c = _ACTIVE
    if isinstance(a, (int, np.integer)):
        pop = np.arange(int(a))
    else:
        pop = np.asarray(a)
    n = len(pop)

    def one_index(avail, probs):
        if probs is None:
            return avail[c.pick(len(avail))]
        r = c.u01() * sum(probs)
        acc = 0.0
        for i, q in zip(avail, probs):
            acc += q
            if r < acc:
                return i
        return [i for i, q in zip(avail, probs) if q > 0][-1]

    shape = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
    count = int(np.prod(shape)) if shape else 1
    idx = []
    avail = list(range(n))
    probs = None if p is None else [float(x) for x in p]
    for _ in range(count):
        i = one_index(avail, probs)
        idx.append(i)
        if not replace:
            j = avail.index(i)
            avail.pop(j)
            if probs is not None:
                probs.pop(j)
    if shape == ():
        return pop[idx[0]]
    return pop[np.array(idx, dtype=int)].reshape(shape + pop.shape[1:])


def _permutation(x, axis=0):
    c = _ACTIVE
    arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
    avail = list(range(len(arr)))
    order = []
    while avail:
        order.append(avail.pop(c.pick(len(avail))))
    return arr[order]


def _shuffle(x, axis=0):
    p = _permutation(len(x))
    y = [x[i] for i in p]
    for i, v in enumerate(y):
        x[i] = v.copy() if isinstance(v, np.ndarray) else v


def _multinomial(n, pvals, size=None):
    def once():
        out = np.zeros(len(pvals), dtype=int)
        for i in _choice(len(pvals), size=int(n), p=pvals):
            out[i] += 1
        return out
    if size is None:
        return once()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    return np.array([once() for _ in range(int(np.prod(shape)))]).reshape(shape + (len(pvals),))


def _geometric(p, size=None):
    c = _ACTIVE
    return _fill(size, lambda q: 1 if q >= 1 else int(math.ceil(math.log(1.0 - c.u01()) / math.log(1.0 - q))), p)


_REPL = {
    'uniform': _uniform, 'random': _random, 'random_sample': _random, 'ranf': _random,
    'sample': _random, 'rand': _rand, 'randint': _randint, 'random_integers': _random_integers,
    'normal': _normal, 'standard_normal': _standard_normal, 'randn': _randn,
    'poisson': _poisson, 'binomial': _binomial, 'exponential': _exponential,
    'choice': _choice, 'permutation': _permutation, 'shuffle': _shuffle,
    'multinomial': _multinomial, 'geometric': _geometric,
}
# drawing functions that are not modelled: using one under exploration is a harness error
_UNMODELLED = ['beta', 'chisquare', 'dirichlet', 'f', 'gamma', 'gumbel', 'hypergeometric',
               'laplace', 'logistic', 'lognormal', 'logseries', 'multivariate_normal',
               'negative_binomial', 'noncentral_chisquare', 'noncentral_f', 'pareto', 'power',
               'rayleigh', 'standard_cauchy', 'standard_exponential', 'standard_gamma',
               'standard_t', 'triangular', 'vonmises', 'wald', 'weibull', 'zipf', 'bytes']


class _Gen:
    """Stand-in for Generator / RandomState objects."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if _ACTIVE is not None:
            if name == 'integers':
                return _randint
            if name in _REPL:
                return _REPL[name]
            if name in _UNMODELLED:
                raise HarnessError('unmodelled draw ' + name)
        return getattr(self._real, name)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R = np.random

    def wrap(name, real, repl):
        def f(*a, **k):
            if _ACTIVE is None:
                return real(*a, **k)
            if repl is None:
                raise HarnessError('unmodelled draw numpy.random.' + name)
            return repl(*a, **k)
        f.__name__ = name
        f.__doc__ = getattr(real, '__doc__', None)
        return f

    for name, repl in _REPL.items():
        if hasattr(R, name):
            setattr(R, name, wrap(name, getattr(R, name), repl))
    for name in _UNMODELLED:
        if hasattr(R, name):
            setattr(R, name, wrap(name, getattr(R, name), None))
    real_default_rng = R.default_rng
    R.default_rng = lambda *a, **k: _Gen(real_default_rng(*a, **k))
    real_rs = R.RandomState
    R.RandomState = lambda *a, **k: _Gen(real_rs(*a, **k))

    # the random module of the standard library
    P = _pyrandom

    def pw(name, repl):
        real = getattr(P, name)

        def f(*a, **k):
            return real(*a, **k) if _ACTIVE is None else repl(*a, **k)
        setattr(P, name, f)
    pw('random', lambda: float(_random()))
    pw('uniform', lambda a, b: float(_uniform(a, b)))
    pw('randint', lambda a, b: int(_randint(a, b + 1)))
    pw('randrange', lambda a, b=None, step=1: (
        range(a)[_ACTIVE.pick(a)] if b is None else range(a, b, step)[_ACTIVE.pick(len(range(a, b, step)))]))
    pw('choice', lambda s: s[_ACTIVE.pick(len(s))])
    pw('shuffle', _shuffle)
    pw('gauss', lambda m=0.0, s=1.0: float(_normal(m, s)))
    pw('normalvariate', lambda m=0.0, s=1.0: float(_normal(m, s)))


# --------------------------------------------------------------------------
# exhaustive exploration

def explore(fn, prefix=(), max_runs=2000000, **chooser_kw):
    """Yield (result, chooser) for every choice sequence of fn, depth first.

    fn takes the Chooser; it is run with that chooser active. ``prefix`` is a
    fixed list of (index, arity): only what comes after it is enumerated.
    """
    fixed = len(prefix)
    stack = list(prefix)
    runs = 0
    while True:
        ch = Chooser(stack, **chooser_kw)
        with active(ch):
            res = fn(ch)
        if ch.pos < len(stack):
            raise Divergence('execution ended before its recorded prefix')
        runs += 1
        if runs > max_runs:
            raise TooMany('exploration exceeded %d executions' % max_runs)
        yield res, ch
        tr = ch.trace
        i = len(tr) - 1
        while i >= fixed and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < fixed:
            return
        stack = tr[:i] + [(tr[i][0] + 1, tr[i][1])]


def distribution(fn, prefix=(), **kw):
    """Exact law of fn's (hashable) result: {result: Fraction}, and run count."""
    law = {}
    n = 0
    wp = None
    for res, ch in explore(fn, prefix, **kw):
        w = ch.weight()
        if prefix:
            if wp is None:
                c = Chooser((), **kw)
                c.trace = list(prefix)
                wp = c.weight()
            w = w / wp
        law[res] = law.get(res, 0) + w
        n += 1
    if sum(law.values()) != 1:
        raise HarnessError('weights do not add up to one: %s' % sum(law.values()))
    return law, n
