"""C29: helpers: distributions, overriding with external values, conversion to and from JSON."""
import itertools
import json
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

from mc.util import compositions, same

LEVEL = 'model_checking'
EPS = 1e-6


def quiet():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def validity(rec, scen):
    """All grids of values: accepted if and only if they are cumulative distributions."""
    from demod.utils.distribution_functions import check_valid_cdf
    values, shape = scen
    n = int(np.prod(shape))
    with quiet():
        for flat in itertools.product(values, repeat=n):
            cdf = np.array(flat, dtype=float).reshape(shape)
            rows = cdf.reshape(-1, shape[-1])
            good = all(abs(r[-1] - 1) < EPS and all(a <= b for a, b in zip(r, r[1:])) and all(0 <= x <= 1 + EPS for x in r) for r in rows)
            for arg in (cdf, cdf.tolist()):
                keep = np.array(arg)
                try:
                    ok = check_valid_cdf(arg) is True
                except ValueError:
                    ok = False
                rec.expect(ok == good, 'a valid cdf is refused, or an invalid one accepted', {'cdf': cdf, 'accepted': ok}, 'validity')
                rec.expect(np.array_equal(keep, np.array(arg), equal_nan=True), 'the cdf given is modified', cdf, 'argument')
                rec.transition()
            rec.state(flat)
    rec.trace()


def rescale(rec, scen):
    """All weights: the rescaled distribution has the same proportions and total one; far ones are refused."""
    from demod.utils.distribution_functions import rescale_pdf, rescale_cdf
    for kind, total, size, rows in scen:
        every = [c for g in range(0, total + 1 + total // 2) for c in compositions(g, size)] if rows == 1 else \
            [c for g in (total, total - 1, total + 1) for c in compositions(g, size)]
        for combo in itertools.product(every, repeat=rows):
            for eps in (None, .1, .3, .01):
                sums = [Fraction(sum(c), total) for c in combo]
                e = Fraction(eps or .1)
                if any(abs(abs(s - 1) - e) < Fraction(1, 10 ** 9) for s in sums):
                    continue
                good = all(abs(s - 1) < e for s in sums)
                base = np.array(combo, dtype=float) / total
                for shape in ((rows, size), (1, rows, size)) if rows > 1 else ((size,), (1, size)):
                    arg = base.reshape(shape) if kind == 'pdf' else np.cumsum(base, axis=-1).reshape(shape)
                    keep = arg.copy()
                    f = rescale_pdf if kind == 'pdf' else rescale_cdf
                    try:
                        got = f(arg) if eps is None else f(arg, eps)
                    except ValueError:
                        got = None
                    rec.transition()
                    if not rec.expect((got is not None) == good, 'a distribution far from one is rescaled, or a close one refused',
                                      {'kind': kind, 'value': arg, 'epsilon': eps, 'got': got}, 'refused'):
                        continue
                    rec.expect(np.array_equal(arg, keep), 'the distribution given is modified', keep, 'argument')
                    if not good:
                        continue
                    want = np.array([[Fraction(x, sum(c)) for x in c] for c in combo], dtype=float)
                    if kind == 'cdf':
                        want = np.cumsum(want, axis=-1)
                    rec.expect(got.shape == shape and np.allclose(got, want.reshape(shape), atol=1e-12, rtol=0),
                               'the rescaled distribution has not the same proportions', {'kind': kind, 'value': keep, 'got': got}, 'proportions')
                    if kind == 'cdf':
                        rec.expect(np.all(got[..., -1] == 1.), 'the rescaled cdf does not end at one', {'value': keep, 'got': got}, 'end')
            rec.state((kind, combo))
        rec.trace()


def overrides(rec, scen):
    """All external arrays with missing values over all bases."""
    from demod.simulators.util import assign_external_array as arr, assign_external_dict as dic
    vals = (0., 2.5, -1., np.nan)
    for n, kind in scen:
        for base in itertools.product((0, 3, 7), repeat=n):
            b = np.array(base, dtype=kind)
            rec.expect(arr(b, None) is b, 'nothing external does not keep the base', base, 'none')
            exts = list(itertools.product(vals, repeat=n))
            if n > 1:
                exts += [(v,) for v in vals]
            for ext in exts:
                e = np.array(ext) if len(ext) == n else np.float64(ext[0])
                eb = np.broadcast_to(e, (n,))
                want = [x if y != y else y for x, y in zip(base, eb)]
                kb, ke = b.copy(), np.array(e)
                got = arr(b, e)
                rec.expect(np.array_equal(got, want), 'external values do not override the base where they are given',
                           {'base': b, 'external': e, 'got': got, 'want': want}, 'override')
                rec.expect(np.array_equal(b, kb) and np.array_equal(np.array(e), ke, equal_nan=True), 'arguments are modified', [b, e], 'arguments')
                rec.transition()
                d = {'a': b, 'b': b + 1}
                for keys in ((), ('a',), ('b',), ('a', 'b')):
                    g = dic(dict(d), {k: e for k in keys})
                    ok = set(g) == {'a', 'b'}
                    for k in 'ab':
                        w = [x if y != y else y for x, y in zip(d[k], eb)] if k in keys else d[k]
                        ok = ok and np.array_equal(g[k], w)
                    rec.expect(ok, 'external values do not override those of their own key', {'base': d, 'keys': keys, 'external': e, 'got': g}, 'dict')
                    rec.transition()
                rec.state((n, kind, base, repr(ext)))
            rec.expect(dic({'a': b}, None)['a'] is b, 'nothing external does not keep the base', base, 'none dict')
        rec.trace()


def plain(x):
    """What the object holds, in plain Python."""
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray, pd.Series)):
        return [plain(v) for v in x]
    return x.item() if isinstance(x, np.generic) else x


LEAVES = [lambda: 3, lambda: 2.5, lambda: 'a b', lambda: True, lambda: np.int64(4), lambda: np.float64(.5), lambda: np.float32(.25),
          lambda: np.bool_(True), lambda: np.str_('x y'), lambda: None]
ARRAYS = [lambda: np.array([1, 2]), lambda: np.array([.5, -1.]), lambda: np.array(['a b', ' c']), lambda: np.array([[1, 2], [3, 4]]),
          lambda: np.array([True, False]), lambda: np.array([], dtype=float), lambda: np.array(['a b', 'c'], dtype=object),
          lambda: [1, 2, 3], lambda: (1, 2.5), lambda: ('a b', 'c'), lambda: ['p q', 'r'], lambda: [], lambda: [[1., 2.], [3., 4.]], lambda: pd.Series([1.5, 2.]),
          lambda: pd.Series(['u v', 'w']), lambda: pd.Series([1, 2], index=[5, 9])]


def objects(depth, thorough):
    """All objects of a depth (dictionaries of up to two entries)."""
    atoms = LEAVES + ARRAYS
    if depth == 0:
        return atoms
    inner = objects(depth - 1, thorough)
    if depth > 1 and not thorough:
        inner = inner[::7] + atoms[::3]
    out = list(atoms) + [lambda: {}]
    out += [lambda a=a: {'k': a()} for a in inner]
    out += [lambda a=a, b=b: {'k': a(), 'l m': b()} for a in inner for b in atoms[::2 if depth == 1 else 5]]
    return out


def json_trip(rec, scen):
    from demod.utils.parse_helpers import make_jsonable, lists_to_numpy_array
    depth, part, parts, thorough = scen
    for make in objects(depth, thorough)[part::parts]:
        obj, ref = make(), make()
        want = plain(ref)
        got = make_jsonable(obj)
        rec.expect(plain(obj) == want, 'the object given is modified', ref, 'argument')
        rec.expect(got == want and plain(json.loads(json.dumps(got))) == want, 'an object is not the same once saved',
                   {'object': ref, 'got': got}, 'saved')
        rec.transition()
        if isinstance(obj, dict):
            first = lists_to_numpy_array(obj)
            second = lists_to_numpy_array(json.loads(json.dumps(got)))
            rec.expect(plain(first) == want and plain(second) == want, 'an object is not the same once loaded', {
                'object': ref, 'before': first, 'loaded': second}, 'loaded')

            def kinds(a, b):
                if isinstance(a, dict):
                    return all(kinds(a[k], b[k]) for k in a)
                return isinstance(a, np.ndarray) == isinstance(b, np.ndarray)
            rec.expect(kinds(first, second), 'an object has arrays before it is saved and none once loaded, or the opposite', {
                'object': ref, 'before': first, 'loaded': second}, 'kinds')
            rec.transition()
        rec.state(repr(ref))
        rec.trace()
    for bad in (object(), {1, 2}, 1j, b'bytes'):
        for f in (make_jsonable, lists_to_numpy_array):
            try:
                f({'k': bad})
                rec.fail('an object that cannot be saved is accepted', {'object': bad, 'function': f.__name__}, 'cannot')
            except NotImplementedError:
                pass


def spaces(rec, scen):
    from demod.utils.parse_helpers import remove_spaces
    depth, thorough = scen

    def want(x):
        x = plain(x)
        if isinstance(x, dict):
            return {want(k): want(v) for k, v in x.items()}
        if isinstance(x, list):
            return [want(v) for v in x]
        return x.replace(' ', '') if isinstance(x, str) else x

    def skip(x):
        if isinstance(x, dict):
            return any(map(skip, x.values()))
        return x is None or isinstance(x, tuple) or (isinstance(x, np.ndarray) and x.dtype == object)      # announced as not handled
    for make in objects(depth, thorough):
        obj = make()
        if skip(obj):
            continue
        before = repr(obj)
        got = remove_spaces(obj)
        rec.expect(plain(got) == want(obj), 'spaces remain, or something else than spaces is removed', {'object': obj, 'got': got}, 'spaces')
        rec.expect(repr(obj) == before, 'the object given is modified', before, 'argument')
        rec.transition()
        rec.state(before)
        rec.trace()


def small(rec, scen):
    from demod.utils.converters import joules_to_kwh, kwh_to_joules
    from demod.utils.parse_helpers import translate_1d
    from demod.utils.countries import country_name_to_code, is_country_code
    for k in range(-64, 65):
        x = k / 8
        for v in (x, np.float64(x), np.array([x, 2 * x]), pd.Series([x, 1.])):
            j = kwh_to_joules(v)
            rec.expect(np.allclose(j, np.asarray(v) * 3600 * 1000, rtol=1e-14, atol=0)
                       and np.allclose(joules_to_kwh(j), v, rtol=1e-14, atol=0), 'conversion between kWh and Joules is wrong',
                       {'kwh': v, 'joules': j}, 'energy')
            rec.transition()
        rec.state(k)
    dic = {'a': 1, 'b': 'x', 3: None}
    for n in range(4):
        for seq in itertools.product(dic, repeat=n):
            for arg in (list(seq), np.array(seq, dtype=object)):
                got = translate_1d(arg, dic)
                rec.expect(list(got) == [dic[k] for k in seq], 'values are not translated', {'values': seq, 'got': got}, 'translate')
                rec.transition()
    for name, code in (('germany', 'DE'), ('switzerland', 'CH'), ('england', 'GB')):
        rec.expect(country_name_to_code(name) == code and is_country_code(code) and not is_country_code(name), 'country code is wrong', name, 'country')
    try:
        country_name_to_code('atlantis')
        rec.fail('an unknown country has a code', None, 'country')
    except NotImplementedError:
        pass
    rec.trace()


def build(ck):
    import demod.simulators.util  # noqa
    th = ck.thorough
    vals = (0., .25, 1., 1. - 1e-9, 1. + 1e-7, 1. - 1e-5, 1. + 1e-5, -.25, 2., np.nan)
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        ck.add('validity (%d)' % n, validity, (vals, (n,)))
    ck.add('validity (2, 2)', validity, (vals if th else vals[:8], (2, 2)))
    ck.add('validity (1, 2, 2)', validity, ((0., .5, 1., 1.5, -1.), (1, 2, 2)))
    ck.add('validity (3, 2)', validity, ((0., 1., 1. - 1e-5, -.25, 2.), (3, 2)))
    for kind in ('pdf', 'cdf'):
        ck.add('rescale one ' + kind, rescale, [(kind, g, n, 1) for g in (4, 16, 20) for n in ((1, 2, 3) if g > 4 or th else (1, 2, 3, 4))])
        ck.add('rescale two ' + kind, rescale, [(kind, 8, 2, 2), (kind, 16, 2, 2)] + ([(kind, 8, 3, 2), (kind, 8, 2, 3)] if th else []))
    for kind in ('float', 'int'):
        ck.add('overrides ' + kind, overrides, [(1, kind), (2, kind)] + ([(3, kind)] if th or kind == 'float' else []))
    for part in range(4):
        ck.add('json %d' % part, json_trip, (2, part, 4, th))
    ck.add('spaces', spaces, (2, th))
    ck.add('small', small, None)
    ck.rule = ('all arrays of up to 4 values over 10 for the validity; all weights of a total for the rescaling; all external values over 4; '
               'all objects of depth up to 2 over %d kinds of values' % len(LEAVES + ARRAYS))
