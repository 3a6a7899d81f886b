"""C02: first-order Markov chain simulator against its reference chain."""
import itertools
from fractions import Fraction

import numpy as np

from mc.bfs import kernel_bfs
from mc.choice import distribution, Fixed, active
from mc.util import compositions, pdf_of, law_of, product_law, law_diff, ints, interleave

LEVEL = 'model_checking'
G = 4


def tpm_array(sched):
    """sched: per time, per state, a composition of G."""
    return np.array([[pdf_of(r) for r in m] for m in sched])


def make_sim(cls, n, sched, start, labels=None, **kw):
    S = len(start)
    sim = cls(n, S, tpm_array(sched), labels=labels, **kw)
    sim.initialize_starting_state(pdf_of(start))
    return sim


def chain(rec, scen):
    """Exact kernel from every reachable joint state, over two passes of the schedule."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder
    for n, sched, start, labels in scen:
        T, S = len(sched), len(start)
        init = product_law([law_of(start)] * n)

        def kernel(d, a):
            m = sched[(d + 1) % T]
            return product_law([law_of(m[s]) for s in a])

        def inv(o, d, a):
            if len(a) != n or any(not 0 <= s < S for s in a):
                return 'a household is in no labelled state'
            if o.current_time_step != d:
                return 'step counter is %s after %s steps' % (o.current_time_step, d)
            lab = list(range(S)) if labels is None else list(labels)
            for s in range(S):
                exp = [x == s for x in a]
                if list(map(bool, o.get_n_doing_state(s))) != exp:
                    return 'get_n_doing_state(%d) is not that of the current states' % s
                if list(map(bool, o.get_n_doing_activity(lab[s]))) != exp:
                    return 'get_n_doing_activity(%r) is not that of the current states' % lab[s]
            return None

        kernel_bfs(rec, lambda: make_sim(MarkovChain1rstOrder, n, sched, start,
                                         None if labels is None else np.array(labels)),
                   lambda o, d: o.step(), lambda o: ints(o.current_states), 2 * T + 2, init, kernel,
                   'first order chain', inv=inv, grid=G,
                   detail={'n_households': n, 'schedule': sched, 'start': start})
    rec.sample({'n_households': n, 'schedule (quarters)': sched, 'start': start})


def long_run(rec, scen):
    """Deterministic schedules: the state at step k is the k-th composition, for many passes."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder
    for T, S in scen:
        perms = list(itertools.permutations(range(S)))
        # one different permutation per time of the schedule
        for off in range(len(perms)):
            seq = [perms[(off + 5 * t + t * t) % len(perms)] for t in range(T)]
            tp = np.zeros((T, S, S))
            for t, p in enumerate(seq):
                for i, j in enumerate(p):
                    tp[t, i, j] = 1.0
            for s0 in range(S):
                start = np.eye(S)[s0]
                with active(Fixed(1)):
                    sim = MarkovChain1rstOrder(2, S, tp)
                    sim.initialize_starting_state(start)
                    s = s0
                    for k in range(3 * T + 2):
                        rec.expect(ints(sim.current_states) == (s, s), 'schedule is not followed cyclically',
                                   {'n_times': T, 'step': k, 'want': s, 'got': sim.current_states}, 'cyclic')
                        rec.state((T, S, off, s0, k, s))
                        sim.step()
                        s = seq[(k + 1) % T][s]
                        rec.transition()
                rec.trace()


def relabelled(rec, scen):
    """New matrices with other labels in mid-simulation: exact law of the labels over the steps before and after."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder
    if not hasattr(MarkovChain1rstOrder, '_set_tpm'):
        return
    for n, old, labels, start, new, new_labels, k in scen:

        def names(sim):
            by_name = tuple(tuple(map(bool, sim.get_n_doing_activity(lab))) for lab in sim.state_labels)
            got = tuple(str(sim.state_labels[i]) for i in sim.current_states)
            want = tuple(tuple(x == str(lab) for x in got) for lab in sim.state_labels)
            return got if by_name == want else ('states and labels differ', by_name, got)

        def run(ch):
            sim = make_sim(MarkovChain1rstOrder, n, old, start, np.array(labels))
            for _ in range(k):
                sim.step()
            out = [names(sim)]
            sim._set_tpm(tpm_array(new), new_labels=np.array(new_labels))
            out.append(names(sim))
            for _ in range(2):
                sim.step()
                out.append(names(sim))
            return tuple(out)
        got, runs = distribution(run, grid=G)
        rec.transition(runs)
        rec.trace(runs)
        pick = lambda ch, c: (lambda u: next(i for i in range(len(c)) if u < sum(c[:i + 1]) / G))(ch.u01())  # noqa: E731

        def ref(ch):
            s = [pick(ch, start) for _ in range(n)]
            for t in range(k):
                s = [pick(ch, old[(t + 1) % len(old)][i]) for i in s]
            out = [tuple(labels[i] for i in s)] * 2
            # a label that no longer exists is replaced by the first one, the dead state
            s = [new_labels.index(labels[i]) if labels[i] in new_labels else 0 for i in s]
            out[-1] = tuple(new_labels[i] for i in s)
            for t in range(2):
                s = [pick(ch, new[(t + 1) % len(new)][i]) for i in s]
                out.append(tuple(new_labels[i] for i in s))
            return tuple(out)
        want, _ = distribution(ref, grid=G)
        for s in got:
            rec.state((n, labels, new_labels, k, s))
        rec.expect(got == want, 'households do not keep their labelled state when the matrices are changed',
                   lambda: {'labels': labels, 'new labels': new_labels, 'schedule': old, 'new schedule': new, 'steps before': k,
                            'got,want': dict(list(law_diff(got, want).items())[:4])}, 'relabel')


def isolation(rec, scen):
    """The inputs of the simulator are not modified, and two simulators do not share state."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder
    sched, start = scen
    tp = tpm_array(sched)
    keep = tp.copy()
    pdf = pdf_of(start)
    T = len(sched)

    def run(ch):
        a = MarkovChain1rstOrder(1, len(start), tp)
        a.initialize_starting_state(pdf)
        b = MarkovChain1rstOrder(1, len(start), tp)
        b.initialize_starting_state(pdf)
        out = []
        for k in range(2):
            a.step()
            out.append(int(a.current_states[0]))
        b.step()
        out.append(int(b.current_states[0]))
        return tuple(out)
    law, n = distribution(run, grid=G)
    rec.transition(n)
    rec.trace(n)
    want = {}
    L = lambda k, s: law_of(sched[k % T][s])
    for s0, p0 in law_of(start).items():
        for a1, p1 in L(1, s0).items():
            for a2, p2 in L(2, a1).items():
                for t0, q0 in law_of(start).items():
                    for b1, q1 in L(1, t0).items():
                        k = (a1, a2, b1)
                        want[k] = want.get(k, 0) + p0 * p1 * p2 * q0 * q1
    for s in law:
        rec.state(s)
    rec.expect(law == want, 'two simulators are not independent', law_diff(law, want), 'isolation')
    rec.expect(np.array_equal(tp, keep) and np.array_equal(pdf, pdf_of(start)), 'inputs modified', None, 'inputs')


def reject(rec, _):
    """Inconsistent shapes and invalid distributions are refused."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder as M
    good = tpm_array([[(2, 2), (1, 3)]] * 2)
    for what, fn in {
        'non square': lambda: M(1, 2, np.ones((2, 2, 3)) / 3),
        'n_states mismatch': lambda: M(1, 3, good),
        'labels mismatch': lambda: M(1, 2, good, labels=['a']),
        'not an array': lambda: M(1, 2, good.tolist()),
        'row sums': lambda: M(1, 2, good * 0.9).initialize_starting_state(np.array([.5, .5])),
        'start pdf size': lambda: M(1, 2, good).initialize_starting_state(np.array([.5, .25, .25])),
        'start pdf sum': lambda: M(1, 2, good).initialize_starting_state(np.array([.5, .25])),
        'negative entry': lambda: M(1, 2, np.array([[[1.5, -.5], [0., 1.]]])).initialize_starting_state(
            np.array([.5, .5])),
    }.items():
        rec.transition()
        rec.state(what)
        try:
            with active(Fixed(1)):
                fn()
        except (ValueError, TypeError, AssertionError):
            rec.trace()
            continue
        rec.fail('invalid input accepted: ' + what, None, 'reject ' + what)


def build(ck):
    import demod.simulators.activity_simulators  # noqa
    th = ck.thorough
    rows = list(compositions(G, 2))
    mats = list(itertools.product(rows, repeat=2))
    scen = []
    # every 2-state matrix, alone and in every schedule of two
    for m in mats:
        scen.append((1, (m,), (1, 3), None))
    for a, b in itertools.product(mats, repeat=2):
        scen.append((1, (a, b), (2, 2), ('u', 'v')))
    # three different times, two households (joint law)
    few = [((4, 0), (0, 4)), ((0, 4), (4, 0)), ((1, 3), (3, 1)), ((2, 2), (1, 3)), ((0, 4), (1, 3))]
    for ms in itertools.product(few, repeat=3 if not th else 4):
        scen.append((1, ms, (3, 1), (10, 7)))
    for ms in itertools.product(few, repeat=2):
        scen.append((2, ms, (1, 3), ('b', 'a')))
    # three states
    three = [((2, 1, 1), (0, 3, 1), (1, 0, 3)), ((0, 4, 0), (0, 0, 4), (4, 0, 0)), ((1, 2, 1), (4, 0, 0), (0, 2, 2))]
    for ms in itertools.product(three, repeat=2):
        scen.append((1, ms, (1, 2, 1), ('home', 'away', 'asleep')))
        scen.append((2, ms, (1, 2, 1), None))
    for ms in itertools.product(three, repeat=3):
        scen.append((1, ms, (0, 2, 2), (3, 1, 2)))
    for ms in (three if th else []):
        scen.append((3, (ms, three[0]), (1, 2, 1), None))
    if th:
        c3 = list(compositions(G, 3))
        for r in itertools.product(c3[::2], repeat=3):
            scen.append((1, (r, three[0]), (1, 2, 1), None))
    for j, s in enumerate(interleave(scen, 24)):
        ck.add('chain #%d' % j, chain, s)
    ck.add('long', long_run, [(T, S) for T in (1, 2, 3, 5, 7, 144) for S in (2, 3)])
    rl = []
    m3 = (three[0], three[2])
    for new in itertools.permutations(('a', 'b', 'c')):
        for k in (0, 1, 2):
            rl.append((1, m3, ('a', 'b', 'c'), (1, 2, 1), (three[2], three[1], three[0]), new, k))
        rl.append((2, m3, ('b', 'c', 'a'), (1, 2, 1), (three[1], three[1]), new, 0))
    four = (((1, 1, 1, 1), (0, 2, 2, 0), (4, 0, 0, 0), (0, 0, 1, 3)),) * 2
    for new in itertools.permutations(('a', 'b', 'c', 'd')):
        rl.append((1, m3, ('a', 'b', 'c'), (1, 2, 1), four, new, 1))
    for new in itertools.permutations(('a', 'b', 'd')):  # 'c' does not exist any more
        for k in (0, 1):
            rl.append((1, m3, ('a', 'b', 'c'), (1, 2, 1), (three[2], three[1], three[0]), new, k))
        rl.append((2, m3, ('c', 'b', 'a'), (1, 2, 1), (three[1], three[1]), new, 0))
    for j, s in enumerate(interleave(rl, 6)):
        ck.add('relabelled #%d' % j, relabelled, s)
    ck.add('isolation', isolation, ((((1, 3), (4, 0)), ((2, 2), (0, 4)), ((3, 1), (1, 3))), (1, 3)))
    ck.add('reject', reject)
    ck.rule = ('all schedules of 1 and 2 two-state matrices with entries k/4; schedules of 3 times / 3 states / '
               '2 households over selected matrices; depth 2*n_times+2; every draw outcome; %d changes of matrices and labels in mid-simulation' % len(rl))
    ck.assumptions = ['draws come from numpy.random or random']
