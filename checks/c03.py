"""C03: semi-Markov simulators: joint law of whole trajectories against a reference."""
import itertools
from fractions import Fraction

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import compositions, pdf_of, law_of, product_law, law_diff, ints, interleave

LEVEL = 'model_checking'


def arr(nested):
    return np.array([[pdf_of(r) for r in m] for m in nested])


def arr4(nested):
    return np.array([[[pdf_of(r) for r in row] for row in m] for m in nested])


def reference(tpm, dur, start, dur0, depth, prev):
    """Law of the trajectory (s_0, ..., s_depth) of one household."""
    T = len(tpm)
    law = {}
    for s, p in law_of(start).items():
        for d, q in law_of(dur0[s]).items():
            k = ((s,), max(d, 1))
            law[k] = law.get(k, 0) + p * q
    for k in range(1, depth + 1):
        nxt = {}
        for (tr, left), p in law.items():
            left -= 1
            if left > 0:
                key = (tr + (tr[-1],), left)
                nxt[key] = nxt.get(key, 0) + p
                continue
            s = tr[-1]
            for s2, q in law_of(tpm[k % T][s]).items():
                dl = dur[k % T][s][s2] if prev else dur[k % T][s2]
                for d, r in law_of(dl).items():
                    key = (tr + (s2,), max(d, 1))
                    nxt[key] = nxt.get(key, 0) + p * q * r
        law = nxt
    out = {}
    for (tr, _), p in law.items():
        out[tr] = out.get(tr, 0) + p
    return out


def make(n, tpm, dur, start, dur0, prev):
    from demod.simulators.activity_simulators import SemiMarkovSimulator
    S = len(start)
    D = arr4(dur) if prev else arr(dur)
    sim = SemiMarkovSimulator(n, S, arr(tpm), D)
    sim.initialize_starting_state(pdf_of(start), np.array([pdf_of(d) for d in dur0]))
    return sim


def traj(rec, scen):
    for n, tpm, dur, start, dur0, depth, prev, g in scen:
        def run(ch):
            sim = make(n, tpm, dur, start, dur0, prev)
            h = [ints(sim.current_states)]
            for k in range(depth):
                sim.step()
                h.append(ints(sim.current_states))
            if sim.current_time_step != depth:
                return ('step counter', sim.current_time_step)
            return tuple(zip(*h))
        law, runs = distribution(run, grid=g)
        one = reference(tpm, dur, start, dur0, depth, prev)
        want = product_law([one] * n)
        rec.transition(runs * depth)
        rec.trace(runs)
        for s in law:
            rec.state((tpm, dur, n, s))
        rec.expect(law == want, 'law of the trajectories differs from the semi-Markov reference',
                   {'n_households': n, 'tpm': tpm, 'durations': dur, 'start': start, 'start durations': dur0,
                    'durations depend on previous state': prev, 'got,want': dict(list(law_diff(law, want).items())[:8])},
                   'trajectory %s' % ('4d' if prev else '3d'))
    rec.sample({'n': n, 'tpm': tpm, 'durations': dur, 'start': start, 'start durations': dur0, 'trajectories': len(law)})


def long_run(rec, scen):
    """Deterministic distributions over several passes; several households out of phase."""
    for T, prev in scen:
        S = 3
        tpm, dur = [], []
        for t in range(T):
            tpm.append([[1 if j == (i + 1 + (t * t + i) % 2) % S else 0 for j in range(S)] for i in range(S)])
            if prev:
                dur.append([[[1 if d == 1 + (2 * t + p + 2 * s) % 5 else 0 for d in range(7)]
                             for s in range(S)] for p in range(S)])
            else:
                dur.append([[1 if d == 1 + (2 * t + 3 * s) % 5 else 0 for d in range(7)] for s in range(S)])
        for s0 in range(S):
            for d0 in (1, 2, 5):
                start = [1 if i == s0 else 0 for i in range(S)]
                dur0 = [[1 if d == d0 else 0 for d in range(7)]] * S
                depth = 3 * T + 3
                (one,) = reference(tpm, dur, start, dur0, depth, prev)
                with active(Fixed(3)):
                    sim = make(2, tpm, dur, start, dur0, prev)
                    for k in range(depth + 1):
                        rec.expect(ints(sim.current_states) == (one[k],) * 2,
                                   'durations or schedule not followed', {'n_times': T, 'step': k, 'want': one[k],
                                                                          'got': sim.current_states}, 'cyclic')
                        rec.state((T, prev, s0, d0, k))
                        sim.step()
                        rec.transition()
                rec.trace()


def build(ck):
    import demod.simulators.activity_simulators  # noqa
    th = ck.thorough
    scen = []
    # two states that always alternate: only durations are random
    alt = [[(0, 2), (2, 0)]]
    durs = [((0, 1, 1, 0), (0, 2, 0, 0)), ((0, 0, 1, 1), (0, 1, 0, 1)), ((0, 1, 0, 1), (0, 0, 2, 0)),
            ((1, 1, 0, 0), (0, 0, 0, 2))]
    D = 6 if not th else 8
    for a in durs:
        for d0 in (((0, 1, 1, 0), (0, 0, 0, 2)), ((0, 2, 0, 0), (0, 1, 0, 1))):
            scen.append((1, alt, [a], (1, 1), d0, D, False, 2))
    for a, b in itertools.product(durs, repeat=2):
        scen.append((1, alt * 2, [a, b], (1, 1), ((0, 1, 1, 0), (0, 0, 1, 1)), D, False, 2))
    for a, b, c in itertools.product(durs[:3], repeat=3):
        scen.append((1, alt * 3, [a, b, c], (2, 0), ((0, 1, 1, 0), (0, 0, 2, 0)), D, False, 2))
    # three states, transitions and durations random and time dependent
    t3 = [[(0, 1, 1), (1, 0, 1), (2, 0, 0)], [(0, 2, 0), (0, 0, 2), (1, 1, 0)], [(0, 0, 2), (1, 0, 1), (0, 2, 0)]]
    d3 = [((0, 2, 0), (0, 1, 1), (0, 0, 2)), ((0, 1, 1), (0, 0, 2), (0, 2, 0)), ((0, 0, 2), (0, 2, 0), (0, 1, 1))]
    for T in (1, 2, 3):
        for ts in itertools.permutations(t3, T):
            for ds in itertools.permutations(d3, T):
                scen.append((1, list(ts), list(ds), (1, 0, 1), ((0, 1, 1), (0, 2, 0), (0, 0, 2)), 5, False, 2))
    # durations that depend on the previous state too
    p3 = [[[(0, 2, 0), (0, 1, 1), (0, 0, 2)], [(0, 0, 2), (0, 2, 0), (0, 1, 1)], [(0, 1, 1), (0, 0, 2), (0, 2, 0)]],
          [[(0, 0, 2), (0, 0, 2), (0, 1, 1)], [(0, 2, 0), (0, 2, 0), (0, 0, 2)], [(0, 1, 1), (0, 2, 0), (0, 1, 1)]]]
    for T in (1, 2):
        for ts in itertools.permutations(t3, T):
            for ds in itertools.permutations(p3, T):
                scen.append((1, list(ts), list(ds), (1, 0, 1), ((0, 1, 1), (0, 2, 0), (0, 0, 2)), 5, True, 2))
    # the same with two states, drawn with stays in the same state too
    t2 = [[(1, 1), (2, 0)], [(0, 2), (1, 1)]]
    p2 = [[[(0, 2, 0), (0, 1, 1)], [(0, 0, 2), (1, 0, 1)]], [[(0, 1, 1), (0, 0, 2)], [(0, 1, 1), (0, 2, 0)]]]
    for T in (1, 2):
        for ts in itertools.permutations(t2, T):
            for ds in itertools.permutations(p2, T):
                scen.append((1, list(ts), list(ds), (1, 1), ((0, 1, 1), (0, 0, 2)), 5, True, 2))
                scen.append((2, list(ts), list(ds), (1, 1), ((0, 1, 1), (0, 0, 2)), 2, True, 2))
    # joint law of two and three households
    for T in (1, 2):
        for ts in itertools.permutations(t3, T):
            scen.append((2, list(ts), d3[:T], (1, 0, 1), ((0, 1, 1), (0, 2, 0), (0, 0, 2)), 2 if not th else 3, False, 2))
            scen.append((2, list(ts), p3[:T], (0, 2, 0), ((0, 1, 1), (0, 2, 0), (0, 0, 2)), 2 if not th else 3, True, 2))
    scen.append((3, alt * 2, [durs[1], durs[0]], (1, 1), ((0, 1, 1, 0), (0, 0, 2, 0)), 2, False, 2))
    for j, s in enumerate(interleave(scen, 24)):
        ck.add('trajectories #%d' % j, traj, s)
    ck.add('long', long_run, [(T, p) for T in (1, 2, 3, 5, 7, 48) for p in (False, True)])
    ck.rule = ('trajectory laws: schedules of 1-3 times, 2-3 states, durations up to 3 steps with probabilities k/2, '
               '1-3 households, depth 2-%d; deterministic schedules over three passes up to 48 times' % D)
    ck.assumptions = ['draws come from numpy.random or random',
                      'a sampled duration of 0 steps counts as 1 step (the state is seen once)']
