"""Enumerators and small helpers shared by the checks."""
from __future__ import annotations

import datetime as dt
import itertools
from fractions import Fraction

import numpy as np


def compositions(total, parts):
    """All tuples of `parts` non-negative integers adding up to `total`."""
    if parts == 1:
        yield (total,)
        return
    for first in range(total + 1):
        for rest in compositions(total - first, parts - 1):
            yield (first,) + rest


def pdf_of(comp):
    t = sum(comp)
    return np.array(comp, dtype=float) / t


def product_law(laws):
    """Joint law of independent finite laws: {tuple: Fraction}."""
    out = {(): Fraction(1)}
    for l in laws:
        out = {k + (v,): p * q for k, p in out.items() for v, q in l.items() if q}
    return out


def law_of(comp):
    t = sum(comp)
    return {i: Fraction(c, t) for i, c in enumerate(comp) if c}


def law_diff(got, want):
    keys = set(got) | set(want)
    return {str(k): (str(got.get(k, 0)), str(want.get(k, 0))) for k in sorted(keys, key=str)
            if got.get(k, 0) != want.get(k, 0)}


def chunks(seq, n):
    """Split seq in n roughly equal contiguous parts (for parallel scenarios)."""
    seq = list(seq)
    k = max(1, -(-len(seq) // n))
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def interleave(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


def ints(a):
    return tuple(int(x) for x in np.asarray(a).ravel())


_SKIP = ('logger', '_cache')


def fingerprint(obj, _depth=0, _seen=None):
    """A hashable rendering of all data an object holds (arrays, numbers,
    containers, nested objects); iterators, functions, caches and loggers are
    left out.  Two executions with equal fingerprints hold equal data."""
    if _seen is None:
        _seen = {}
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return repr(obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ('oa', obj.shape, tuple(fingerprint(x, _depth + 1, _seen) for x in obj.ravel()))
        return ('a', obj.dtype.kind, obj.shape, obj.tobytes())
    if isinstance(obj, np.generic):
        return repr(obj.item())
    if isinstance(obj, (dt.datetime, dt.date, dt.time, dt.timedelta)):
        return repr(obj)
    if id(obj) in _seen or _depth > 6:
        return 'seen'
    _seen[id(obj)] = True
    if isinstance(obj, dict):
        return ('d', tuple(sorted(((str(k), fingerprint(v, _depth + 1, _seen)) for k, v in obj.items()
                                   if k not in _SKIP), key=lambda x: x[0])))
    if isinstance(obj, (list, tuple)):
        return ('l', tuple(fingerprint(x, _depth + 1, _seen) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ('s', tuple(sorted(map(str, obj))))
    if callable(obj) or type(obj).__name__ in ('cycle', 'generator', 'module', 'dict_keyiterator'):
        return 'fn'
    if hasattr(obj, '__dict__'):
        return ('o', type(obj).__name__, fingerprint(vars(obj), _depth + 1, _seen))
    return 'x'


def same(a, b, tol=None):
    """Structural equality of values that may contain arrays."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(same(a[k], b[k], tol) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        try:
            if tol is None:
                return bool(np.array_equal(a, b, equal_nan=True))
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    return bool(np.array_equal(a, b))


def call_orders(names, k):
    """All sequences of length k over names."""
    return itertools.product(names, repeat=k)
