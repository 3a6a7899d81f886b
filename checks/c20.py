"""C20: transitions, transition matrices and durations parsed from diaries, over all small diaries."""
import itertools
from collections import Counter

import numpy as np

from mc.util import interleave, chunks

LEVEL = 'model_checking'


def all_states(P, T, S):
    for v in itertools.product(range(S), repeat=P * T):
        yield np.array(v).reshape(P, T)


def ref_transitions(st, same=False, ignore=False):
    """(time, person, new, old) of every transition, in the order of time then person."""
    P, T = st.shape
    return [(t, p, st[p][t], st[p][t - 1]) for t in range(T) for p in range(P)
            if not (t == 0 and ignore) and (same or st[p][t] != st[p][t - 1])]


def ref_duration(row, t, ignore):
    """Length of the stay that starts at t (diaries are cyclic; unknown, 0, if it is cut by the end)."""
    T = len(row)
    d = 1
    while t + d < T and row[t + d] == row[t]:
        d += 1
    if t + d < T:
        return d
    if row[0] != row[t]:
        return 0 if ignore else d
    k = 0
    while row[k] == row[t] and k < t:
        k += 1
    return d + k


def norm(c, default):
    s = c.sum(axis=-1, keepdims=True)
    return np.where(s == 0, default, c / np.where(s == 0, 1, s))


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12)


def eq(d, key, want):
    return np.array_equal(np.asarray(d[key]), np.asarray(want))


def one(rec, st, S):
    from demod.utils import parse_helpers as H
    P, T = st.shape
    orig, keep = st, st.copy()
    names = np.array(['b', 'a', 'zz', 'c'])
    for kind, arr in (('int', st), ('str', names[st])):
        for same, ignore in itertools.product((False, True), (False, True)):
            d = H.states_to_transitions(arr, include_same_state=same, ignore_end_start_transitions=ignore)
            want = ref_transitions(arr, same, ignore)
            ok = sorted(zip(d['times'].tolist(), d['persons'].tolist(), d['new_states'].tolist(),
                            d['old_states'].tolist())) == sorted((t, p, n.item() if hasattr(n, 'item') else n,
                                                                  o.item() if hasattr(o, 'item') else o)
                                                                 for t, p, n, o in want)
            ok = ok and set(d) == {'times', 'persons', 'new_states', 'old_states'}
            rec.expect(ok, 'transitions of diaries', lambda: {'states': arr, 'same': same, 'ignore end-start': ignore,
                                                              'got': d, 'want': want}, 'transitions')
            rec.transition()
            if same:
                continue
            d = H.states_to_transitions(arr, return_duration=True, ignore_end_start_transitions=ignore)
            got = sorted(zip(d['times'].tolist(), d['persons'].tolist(), d['durations'].tolist()))
            wd = sorted((t, p, ref_duration(arr[p], t, ignore)) for t, p, _, _ in want)
            rec.expect(got == wd, 'durations of the states after each transition',
                       lambda: {'states': arr, 'ignore end-start': ignore, 'got (time, person, duration)': got,
                                'want': wd}, 'durations')
            rec.transition()
    # transition matrices
    for labels in (None, list(range(S)) + ['never']):
        n = int(st.max()) + 1 if labels is None else S + 1
        for algo in ('nothing', 'last'):
            c = np.zeros((T, n, n))
            for t in range(T):
                for p in range(P):
                    c[t, st[p, t - 1], st[p, t]] += 1
            if algo == 'last':
                c[0] = c[-1]
            want = norm(c, np.eye(n))
            got = H.states_to_tpms(st, first_tpm_modification_algo=algo, labels=labels)
            ctx = {'states': st, 'labels': labels, 'first matrix': algo}
            rec.expect(close(got, want), 'transition matrices are not the frequencies of the diaries',
                       lambda: {**ctx, 'got': got, 'want': want}, 'tpms')
            # the diaries are reproduced: each distribution follows from the previous one
            for t in range(1, T):
                m0, m1 = [np.bincount(st[:, k], minlength=n) / P for k in (t - 1, t)]
                rec.expect(np.shape(got) == (T, n, n) and close(m0 @ got[t], m1),
                           'the matrices do not lead from one distribution of the diaries to the next',
                           lambda: {**ctx, 'time': t, 'matrices': got}, 'tpms marginals')
            rec.transition()
    # semi-Markov
    u, inv = np.unique(st, return_inverse=True)
    st = inv.reshape(st.shape)
    n0 = len(u)
    for ignore in (False, True):
        for algo in ('nothing', 'last'):
            for labels in (None, list(range(n0 + 1))):
                n = n0 + (labels is not None)
                c, dd, dp = np.zeros((T, n, n)), np.zeros((T, n, T + 1)), np.zeros((T, n, n, T + 1))
                for t, p, new, old in ref_transitions(st, ignore=ignore):
                    k = ref_duration(st[p], t, ignore)
                    c[t, old, new] += 1
                    dd[t, new, k] += 1
                    dp[t, old, new, k] += 1
                if algo == 'last':
                    c[0], dd[0], dp[0] = c[-1], dd[-1], dp[-1]
                for p in range(P):
                    if (st[p] == st[p, 0]).all():
                        i = st[p, 0]
                        c[0, i, i] += 1
                        dd[0, i, T] += 1
                        dp[0, i, i, T] += 1
                zero = np.eye(T + 1)[0]
                want = (norm(c, np.eye(n)), norm(dd, zero), norm(dp, zero))
                got = H.states_to_tpms_with_durations(st, first_tpm_modification_algo=algo, labels=labels,
                                                      ignore_end_start_transitions=ignore)
                rec.expect(len(got) == 3 and all(close(a, b) for a, b in zip(got, want)),
                           'semi-Markov matrices and durations are not the frequencies of the diaries',
                           lambda: {'states': st, 'first matrix': algo, 'labels': labels, 'ignore end-start': ignore,
                                    'got': got, 'want': want}, 'semi-markov')
                rec.transition()
    c = np.zeros((n0, T + 1))
    for row in st:
        k = 0
        while k < T and row[k] == row[0]:
            k += 1
        c[row[0], k] += 1
    got = H.get_initial_durations_pdfs(st)
    rec.expect(close(got, norm(c, np.eye(T + 1)[0])), 'initial durations',
               lambda: {'states': st, 'got': got, 'want': norm(c, np.eye(T + 1)[0])}, 'initial durations')
    rec.expect(np.array_equal(orig, keep), 'the diaries given are modified', {'given': keep, 'after': orig},
               'caller states')
    rec.state((st.shape, tuple(keep.ravel().tolist())))


def diaries(rec, scen):
    for P, T, S, k, n in scen:
        for st in itertools.islice(all_states(P, T, S), k, None, n):
            one(rec, st, S)
            rec.trace()
    rec.sample({'persons': P, 'times': T, 'states': S})


def secondary(rec, scen):
    """Transitions of primary and secondary states, grouped by households."""
    from demod.utils import parse_helpers as H
    for P, T, S, k, n in scen:
        groups = [(h, d) for h in itertools.product((10, 20), repeat=P) for d in itertools.product((1, 2), repeat=P)]
        for st, se in itertools.islice(itertools.product(all_states(P, T, S), all_states(P, T, S)), k, None, n):
            want = []
            for t in range(1, T):
                for p in range(P):
                    for old, new in ((st[p, t - 1], st[p, t]), (se[p, t - 1], se[p, t])):
                        if old not in (st[p, t], se[p, t]):
                            want.append((t, p, int(new), int(old)))
            d = H.states_to_transitions_secondary(st, se)
            got = sorted(zip(*[np.asarray(d[x]).tolist() for x in ('times', 'persons', 'new_states', 'old_states')]))
            rec.expect(got == sorted(want), 'transitions of primary and secondary states',
                       lambda: {'primary': st, 'secondary': se, 'got (time,person,new,old)': got, 'want': sorted(want)},
                       'secondary transitions')
            rec.transition()
            for h, dy in groups:
                hh, days = np.array(h), np.array(dy)
                for s2, tr in ((se, want), (None, [(t, p, int(a), int(b)) for t, p, a, b in ref_transitions(st)])):
                    if not tr:
                        continue
                    g = H.group_hh_transitions(st, hh, days, s2)
                    got = sorted(zip(*[np.asarray(g[x]).tolist() for x in
                                       ('times', 'households', 'new_states', 'old_states', 'day_nrs', 'counts')]))
                    w = sorted(k + (c,) for k, c in Counter((t, int(hh[p]), a, b, int(days[p])) for t, p, a, b in tr).items())
                    rec.expect(got == w, 'transitions of households',
                               lambda: {'primary': st, 'secondary': s2, 'households': hh, 'days': days, 'got': got,
                                        'want': w}, 'household transitions')
                    rec.transition()
            rec.state((P, T, tuple(st.ravel().tolist()), tuple(se.ravel().tolist())))
            rec.trace()


def others(rec, _):
    from demod.utils import parse_helpers as H
    # merging of states
    for raw in itertools.product((3, 7, 9, 12), repeat=4):
        arr = np.array(raw).reshape(2, 2)
        for merge in (None, {3: 'b', 7: 'a', 9: 'b', 12: 'c'}, {3: 1, 7: 1, 9: 1, 12: 1}, {3: 'x', 7: 'y', 9: 'a', 12: 'a'},
                      {3: 'A', 7: 'a', 9: 'b', 12: 'B '}, {3: 'longer label', 7: 'l', 9: 'longer', 12: ''}):
            want = arr if merge is None else np.array([[merge[x] for x in r] for r in raw and arr.tolist()])
            s, lab = H.convert_states(arr, merge)
            rec.expect(s.shape == arr.shape and np.array_equal(np.asarray(lab)[s], want)
                       and sorted(set(np.asarray(lab).tolist())) == np.asarray(lab).tolist()
                       and set(np.unique(s).tolist()) == set(range(len(lab))),
                       'merged states do not have the labels of the original states',
                       lambda: {'states': arr, 'merge': merge, 'got': s, 'labels': lab}, 'merged states')
            rec.state((raw, str(merge)))
            rec.transition()
    # pdfs from counts
    for c in itertools.product(range(4), repeat=4):
        for shape in ((1, 4), (2, 2), (4, 1), (2, 1, 2)):
            a = np.array(c, dtype=float).reshape(shape)
            got = H.counts_to_pdf(a.copy())
            want = norm(a, np.eye(shape[-1])[0])
            rec.expect(close(got, want), 'pdf of counts', lambda: {'counts': a, 'got': got, 'want': want}, 'counts')
            rec.transition()
    # statistics of bulbs
    nan = float('nan')
    for v in itertools.product((0., nan, 40., .5, 61.3), repeat=6):
        a = np.array(v).reshape(2, 3)
        bulbs = [x for x in v if x > 0]
        if not bulbs:
            continue
        n = [sum(x > 0 for x in r) for r in a]
        (m, s), (cons, pen) = H.bulbs_stats_from_config(a)
        w = sorted(Counter(bulbs).items())
        rec.expect(abs(m - sum(n) / 2) < 1e-12 and abs(s - abs(n[0] - n[1]) / 2) < 1e-12
                   and list(cons) == [x for x, _ in w] and close(pen, [c / len(bulbs) for _, c in w]),
                   'statistics of bulbs', lambda: {'config': a, 'got': [m, s, cons, pen]}, 'bulbs')
        rec.state(v)
        rec.transition()
    rec.trace()


def build(ck):
    import demod.utils.parse_helpers  # noqa
    th = ck.thorough
    sizes = [(1, t, 3) for t in range(1, 7)] + [(2, 1, 3), (2, 2, 3), (2, 3, 3), (2, 4, 2), (2, 5, 2), (3, 1, 3), (3, 2, 3),
                                                (3, 3, 2), (4, 2, 2), (3, 4, 2), (1, 8, 2)]
    if th:
        sizes += [(2, 4, 3), (3, 3, 3), (1, 7, 4), (2, 6, 2), (4, 3, 2), (1, 10, 2), (3, 5, 2)]
    sec = [(1, 3, 3), (2, 2, 2), (1, 5, 2), (2, 3, 2)] + ([(1, 4, 3), (3, 2, 2)] if th else [])
    n = 16
    for j in range(n):
        ck.add('diaries #%d' % j, diaries, [(P, T, S, j, n) for P, T, S in sizes])
        ck.add('secondary #%d' % j, secondary, [(P, T, S, j, n) for P, T, S in sec])
    ck.add('others', others)
    ck.rule = ('all diaries of the sizes (persons, times, states) %s; all pairs of primary and secondary diaries of sizes %s '
               'with all assignments to 2 households and 2 days' % (sizes, sec))
    ck.assumptions = ['sizes are bounded: the functions treat persons and times uniformly']
