"""C21: metrics of state patterns, over all small sets of patterns."""
import itertools
from collections import Counter

import numpy as np

from checks.c20 import all_states, close

LEVEL = 'model_checking'


def stays(row):
    """(state, duration) of every stay of a cyclic pattern."""
    T = len(row)
    starts = [t for t in range(T) if row[t] != row[t - 1]]
    if not starts:
        return [(row[0], T)]
    return [(row[t], (starts[(k + 1) % len(starts)] - t) % T or T) for k, t in enumerate(starts)]


def network(st):
    """Nodes (time, state) and weighted edges between consecutive times (the end is followed by the start)."""
    P, T = st.shape
    edges = Counter((t, int(st[p][t - 1]), int(st[p][t])) for t in range(T) for p in range(P))
    nodes = {(t, int(st[p][t])) for t in range(T) for p in range(P)}
    return nodes, edges


def one(rec, st):
    from demod.metrics import states as M
    P, T = st.shape
    keep = st.copy()
    want = Counter(x for r in st for x in ((int(a), b) for a, b in stays(r)))
    d, s = M.get_states_durations(st)
    got = Counter(zip(np.asarray(s).tolist(), np.asarray(d).tolist()))
    ctx = {'states': st}
    rec.expect(got == want, 'durations of the states', lambda: {**ctx, 'got': got, 'want': want}, 'durations')
    by = M.get_durations_by_states(st)
    rec.expect({(k, x): c for k, v in by.items() for x, c in Counter(np.asarray(v).tolist()).items()} == dict(want),
               'durations by states', lambda: {**ctx, 'got': by, 'want': want}, 'durations by states')
    rec.expect(sorted((int(u), int(c)) for u, c in M.count(st)) == sorted(Counter(st.ravel().tolist()).items()),
               'counts', ctx, 'count')
    if T > 1:
        nodes, edges = network(st)
        n = len(set(st.ravel().tolist()))
        size, dens, cent, homo = M.graph_metrics(st)
        rec.expect(size == len(nodes), 'network size is not the number of observed states and times',
                   lambda: {**ctx, 'got': size, 'want': len(nodes)}, 'network size')
        rec.expect(abs(dens - len(edges) / (T * n * n)) < 1e-12, 'network density is not the fraction of possible edges',
                   lambda: {**ctx, 'got': dens, 'want': len(edges) / (T * n * n)}, 'network density')
        rec.expect(abs(cent - P * T / len(edges)) < 1e-12, 'centrality is not the mean weight of the edges',
                   lambda: {**ctx, 'got': cent, 'want': P * T / len(edges)}, 'centrality')
        h = sum(c for (t, a, b), c in edges.items() if a == b) / (P * T)
        rec.expect(abs(homo - h) < 1e-12, 'homophily is not the proportion of unchanged states',
                   lambda: {**ctx, 'got': homo, 'want': h}, 'homophily')
    rec.expect(np.array_equal(st, keep), 'the states given are modified', ctx, 'caller states')
    rec.transition(4)
    rec.state((st.shape, tuple(st.ravel().tolist())))


def patterns(rec, scen):
    for P, T, S, k, n in scen:
        for st in itertools.islice(all_states(P, T, S), k, None, n):
            one(rec, st)
            rec.trace()
    rec.sample({'patterns': P, 'times': T, 'states': S})


def pairs(rec, scen):
    """Metrics that compare two sets of patterns."""
    from demod.metrics import states as M
    from demod.metrics import errors as E
    for P, Q, T, S, k, n in scen:
        for a, b in itertools.islice(itertools.product(all_states(P, T, S), all_states(Q, T, S)), k, None, n):
            ctx = {'simulated': a, 'measured': b}
            w = [abs(sum(a[:, t]) / P - sum(b[:, t]) / Q) for t in range(T)]
            rec.expect(close(M.average_state_metric(a, b, average_over_timestep=False), w)
                       and abs(M.average_state_metric(a, b) - sum(w) / T) < 1e-12,
                       'average state error', lambda: {**ctx, 'want': w}, 'average state')
            wa, wb = [Counter((int(s), d) for r in x for s, d in stays(r)) for x in (a, b)]
            want = {}
            for s in {s for s, _ in wa} | {s for s, _ in wb}:
                cdfs = []
                for c in (wa, wb):
                    tot = sum(v for (x, _), v in c.items() if x == s)
                    cdfs.append([sum(v for (x, d), v in c.items() if x == s and d <= t) / max(tot, 1)
                                 for t in range(T + 1)])
                want[s] = [abs(x - y) for x, y in zip(*cdfs)]
            got = M.state_duration_distribution_metric(a, b, average_over_timestep=False)
            avg = M.state_duration_distribution_metric(a, b)
            rec.expect(set(got) == set(want) == set(avg) and all(close(got[s], want[s]) for s in want)
                       and all(abs(avg[s] - np.mean(want[s])) < 1e-12 for s in want),
                       'duration distribution error', lambda: {**ctx, 'got': got, 'average': avg, 'want': want},
                       'duration distribution')
            if P == Q:
                rec.expect(abs(E.RMSE(a, b) - np.mean([(float(x) - float(y)) ** 2 for x, y in zip(a.ravel(), b.ravel())]) ** .5)
                           < 1e-12, 'root mean square error', ctx, 'rmse')
            rec.transition(3)
            rec.state((tuple(a.ravel().tolist()), tuple(b.ravel().tolist()), P, T))
            rec.trace()


def sparse(rec, _):
    from demod.metrics import states as M
    for v in itertools.product((0., .25, 1.), repeat=8):
        for shape in ((8,), (2, 2, 2), (1, 4, 2)):
            x = np.array(v).reshape(shape)
            rec.expect(abs(M.sparsity(x) - sum(y == 0 for y in v) / 8) < 1e-12, 'sparsity', x, 'sparsity')
            rec.transition()
        rec.state(v)
    rec.trace()


def large(rec, _):
    """Many states, patterns and times; large, tiny and mixed values."""
    from demod.metrics import states as M
    from demod.metrics import errors as E
    for S in (5, 64, 65, 130, 300):
        for P, T in ((1, S), (2, S), (3, 144), (40, 7)):
            for mul in (1, 7, 11):
                st = (np.arange(P * T).reshape(P, T) * mul + np.arange(P)[:, None] // 2) % S
                one(rec, st)
                one(rec, np.repeat(st, 3, axis=1))
                rec.trace()
    for off in (0., 1e6, -3e7, 1e8):
        for d in itertools.product((0., 1., -2.5), repeat=4):
            a, b = off + np.arange(4.), off + np.arange(4.) + np.array(d)
            w = (sum(x * x for x in d) / 4) ** .5
            rec.expect(abs(E.RMSE(a, b) - w) < 1e-6 and abs(E.RMSE(a.reshape(2, 2), b.reshape(2, 2)) - w) < 1e-6,
                       'root mean square error', {'a': a, 'b': b}, 'rmse')
            rec.state((off, d))
            rec.transition()
    for v in itertools.product((0., 1e-300, 1e-17, 1.), repeat=4):
        rec.expect(abs(M.sparsity(np.array(v).reshape(1, 2, 2)) - sum(y == 0 for y in v) / 4) < 1e-12, 'sparsity', v, 'sparsity')
        rec.transition()
        rec.state(v)


def build(ck):
    import demod.metrics.states  # noqa
    th = ck.thorough
    sizes = [(1, t, 3) for t in range(1, 8)] + [(2, t, 3) for t in range(1, 5)] + [(3, 1, 3), (3, 2, 3), (3, 3, 2), (3, 4, 2),
                                                                               (4, 2, 3), (1, 10, 2), (2, 5, 2), (4, 3, 2)]
    if th:
        sizes += [(3, 3, 3), (2, 5, 3), (1, 9, 3), (2, 7, 2), (3, 5, 2), (4, 4, 2)]
    ps = [(1, 1, 4, 3), (1, 2, 3, 2), (2, 1, 3, 2), (2, 2, 2, 3), (2, 2, 3, 2), (1, 1, 5, 2), (2, 3, 2, 2), (3, 1, 1, 3)]
    if th:
        ps += [(2, 2, 3, 3), (2, 2, 4, 2), (1, 2, 3, 3)]
    n = 16
    for j in range(n):
        ck.add('patterns #%d' % j, patterns, [(P, T, S, j, n) for P, T, S in sizes])
        ck.add('pairs #%d' % j, pairs, [(P, Q, T, S, j, n) for P, Q, T, S in ps])
    ck.add('sparsity', sparse)
    ck.add('large', large)
    ck.rule = ('all state patterns of the sizes (patterns, times, states) %s and all pairs of sets of sizes (n1, n2, times, '
               'states) %s' % (sizes, ps))
    ck.assumptions = ['sizes are bounded: the functions treat patterns and times uniformly',
                      'levenshtein_edit_distance needs a library that is not a dependency and is left out']
