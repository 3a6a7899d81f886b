"""C22: metrics of load profiles and unit converters, over all small sets of profiles."""
import datetime as dt
import itertools

import numpy as np

from checks.c20 import close

LEVEL = 'model_checking'


def profiles(P, T, values):
    for v in itertools.product(values, repeat=P * T):
        yield v, np.array(v).reshape(P, T)


def one(rec, v, x):
    from demod.metrics import loads as L
    P, T = x.shape
    rows = [v[p * T:(p + 1) * T] for p in range(P)]
    agg = [sum(r[t] for r in rows) for t in range(T)]
    ctx = {'profiles': x}
    keep = x.copy()
    for step in (dt.timedelta(minutes=1), dt.timedelta(minutes=10), dt.timedelta(hours=25), dt.timedelta(seconds=.5)):
        w = [sum(r) * step.total_seconds() for r in rows]
        rec.expect(close(L.total_energy_consumed(x, step), w), 'energy of the profiles', {**ctx, 'step': step}, 'energy')
    rec.expect(close(L.total_energy_consumed(x), [60 * sum(r) for r in rows]), 'energy of the profiles', ctx, 'energy')
    if max(agg) > 0:
        df = sum(max(r) for r in rows) / max(agg)
        rec.expect(abs(L.diversity_factor(x) - df) < 1e-12 and abs(L.coincidence_factor(x) - 1 / df) < 1e-12
                   and abs(L.simultaneity_factor(x) - 1 / df) < 1e-12, 'diversity and coincidence factors',
                   lambda: {**ctx, 'got': L.diversity_factor(x), 'want': df}, 'diversity')
    rec.expect(abs(L.time_coincident_demand(x) - max(agg) / P) < 1e-12, 'time coincident demand', ctx, 'coincident demand')
    # duration curves
    for loads in (None, [1, 0], [2.5, -1, 1], [3], [1, 2, 1, 0, 2]):
        given = None if loads is None else np.array(loads)
        ls, d = L.load_duration(x, given)
        wl = sorted(set(v)) if loads is None else sorted(loads)
        rec.expect(close(ls, wl) and np.array_equal(d, [[sum(y >= l for y in r) for l in wl] for r in rows]),
                   'load duration curve', lambda: {**ctx, 'loads': loads, 'got': [ls, d]}, 'load duration')
        if P == 1:
            ls1, d1 = L.load_duration(x[0], given)
            rec.expect(close(ls1, wl) and np.array_equal(d1, d), 'load duration curve of one profile',
                       lambda: {**ctx, 'loads': loads, 'got': [ls1, d1]}, 'load duration 1d')
    # distribution of the changes
    if T > 1:
        ch = [abs(r[t + 1] - r[t]) for r in rows for t in range(T - 1)]
        top = max(ch)
        for norm in (False, True):
            c = [y / top for y in ch] if norm and top else ch
            for bins in (1, 3, 4, 100):
                given = {**({} if bins == 100 else {'bins': bins}), **({} if norm else {'normalize': False})}   # defaults left out
                cdf, edges = L.cumulative_changes_in_demand(x.copy(), **given)
                ok = len(cdf) == bins and len(edges) == bins + 1 and abs(cdf[-1] - 1) < 1e-12 and np.all(np.diff(edges) > 0)
                if top:
                    ok = ok and close(edges, np.linspace(0, 1 if norm else top, bins + 1))
                    # changes next to an edge (round-off) can be on either side
                    ok = ok and all(sum(y < e - 1e-9 for y in c) / len(c) - 1e-12 <= cdf[i]
                                    <= sum(y <= e + 1e-9 for y in c) / len(c) + 1e-12 for i, e in enumerate(edges[1:]))
                else:
                    ok = ok and edges[0] <= 0 <= edges[-1]
                rec.expect(ok, 'distribution of the changes in demand',
                           lambda: {**ctx, 'normalized': norm, 'bins': bins, 'cdf': cdf, 'edges': edges}, 'changes')
            for be in ([-.5, .1, .6, 70.], [0., 3.5, 50.], [0, .3, 1.5, 20, 90]):
                cdf, edges = L.cumulative_changes_in_demand(x.copy(), normalize=norm, bin_edges=be)
                w = [sum(y < e for y in c) / len(c) for e in be[1:]]
                rec.expect(close(edges, be) and close(cdf, w), 'distribution of the changes for given edges',
                           lambda: {**ctx, 'normalized': norm, 'edges': be, 'cdf': cdf, 'want': w}, 'changes edges')
            if top:
                for bad in ([0, top * .4 if not norm else .4], [1e-3 + min(c), 99.]):
                    try:
                        L.cumulative_changes_in_demand(x.copy(), normalize=norm, bin_edges=bad)
                        rec.fail('edges that do not contain all the changes are accepted', {**ctx, 'edges': bad},
                                 'changes bad edges')
                    except ValueError:
                        pass
    rec.expect(np.array_equal(x, keep), 'the profiles given are modified', ctx, 'caller profiles')
    rec.transition(6)
    rec.state((x.shape, str(x.dtype), v))


def single(rec, scen):
    for P, T, values, k, n in scen:
        for v, x in itertools.islice(profiles(P, T, values), k, None, n):
            one(rec, v, x)
            rec.trace()
    rec.sample({'profiles': P, 'times': T, 'values': values})


def pairs(rec, scen):
    from demod.metrics import loads as L
    for P, Q, T, values, k, n in scen:
        for (va, a), (vb, b) in itertools.islice(itertools.product(profiles(P, T, values), profiles(Q, T, values)), k, None, n):
            d = [[sum((x - y) ** 2 for x, y in zip(r, s)) ** .5 for s in b.tolist()] for r in a.tolist()]
            rec.expect(close(L.profiles_similarity(a, b), d), 'similarity of profiles', {'a': a, 'b': b}, 'similarity')
            d = [[sum(abs(x - y) for x, y in zip(r, s)) for s in b.tolist()] for r in a.tolist()]
            rec.expect(close(L.profiles_similarity(a, b, 'cityblock'), d), 'similarity of profiles', {'a': a, 'b': b},
                       'similarity')
            if P > 1:
                e = [sum((x - y) ** 2 for x, y in zip(a[i].tolist(), a[j].tolist())) ** .5
                     for i in range(P) for j in range(i + 1, P)]
                rec.expect(np.ndim(L.profiles_variety(a)) == 0 and abs(L.profiles_variety(a) - sum(e) / len(e)) < 1e-12 and close(L.profiles_variety(a, False), e),
                           'variety of profiles', {'profiles': a}, 'variety')
            rec.transition(2)
            rec.state((P, Q, T, va, vb))
            rec.trace()


def units(rec, _):
    from demod.utils import converters as C
    for k in range(-20, 200):
        x = k * 36000.
        rec.expect(abs(C.joules_to_kwh(x) - x / 3600000) <= 1e-9 * abs(x) and abs(C.kwh_to_joules(C.joules_to_kwh(x)) - x) <= 1e-9 * abs(x),
                   'Joules and kWh', x, 'units')
        a = np.array([x, 2 * x])
        rec.expect(np.all(np.abs(C.kwh_to_joules(a / 3.6e6) - a) <= 1e-9 * np.abs(a)), 'Joules and kWh', x, 'units')
        rec.transition()
        rec.state(k)
    rec.trace()


def build(ck):
    import demod.metrics.loads  # noqa
    th = ck.thorough
    f, i = (0., 1., 2.5), (0, 1, 3)
    sizes = [(1, t, f) for t in range(1, 6)] + [(2, 1, f), (2, 2, f), (2, 3, f), (3, 2, f), (2, 2, (0, 1, 2, 5)), (1, 4, i),
                                                (3, 1, i), (2, 3, i), (1, 5, (0., .25, .5)), (1, 6, (0., 40.)), (2, 2, (-1., 0., 2.)), (3, 2, (0., 1e-4, 3e-4)),
                                                (2, 2, (0., 40., 41.))]
    if th:
        sizes += [(3, 3, f), (2, 4, f), (1, 7, f), (2, 3, (0., 1., 2., 10.)), (1, 8, (0., .1, .3)), (4, 2, f)]
    ps = [(1, 1, 3, f), (2, 1, 2, f), (2, 2, 2, (0., 2.)), (1, 2, 3, (0., 1.)), (3, 1, 1, f)] + (
        [(2, 2, 3, (0., 2.)), (3, 1, 2, f), (3, 2, 2, (0., 3.))] if th else [])
    n = 16
    for j in range(n):
        ck.add('single #%d' % j, single, [(P, T, v, j, n) for P, T, v in sizes])
        ck.add('pairs #%d' % j, pairs, [(P, Q, T, v, j, n) for P, Q, T, v in ps])
    ck.add('units', units)
    ck.rule = 'all load profiles of the sizes (profiles, times, values) %s and all pairs of sizes %s' % (sizes, ps)
    ck.assumptions = ['sizes and values are bounded: the functions treat profiles and times uniformly']
