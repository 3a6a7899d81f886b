"""C08: a multi-simulator is the concatenation of its parts."""
import itertools

import numpy as np

from mc.choice import Fixed, active
from mc.util import same, interleave

LEVEL = 'model_checking'


def sub_class():
    from demod.simulators.base_simulators import Simulator, cached_getter

    class Sub(Simulator):
        """State: accumulated inputs; the last inputs are remembered as given."""

        def __init__(self, n, tag, subgroup=None, n_residents=None, logger=None):
            super().__init__(n, logger=logger)
            self.tag = tag
            self.level = np.arange(n, dtype=float) + 100 * tag
            self.seen = []
            if subgroup is not None:
                self.subgroup = subgroup
            if n_residents is not None:
                self.n_residents = n_residents
            self.initialize_starting_state()

        def step(self, a, b=None, *, c=None):
            self.seen.append((np.array(a), None if b is None else np.array(b), None if c is None else np.array(c)))
            self.level = self.level * 2 + a
            if b is not None:
                self.level = self.level + np.sum(b, axis=1) * 1000
            if c is not None:
                self.level = self.level - c
            super().step()

        def get_level(self):
            return self.level

        @cached_getter
        def get_cached(self):
            """Doc of the cached getter."""
            return self.level + 0.5

        def get_matrix(self):
            return np.stack([self.level, -self.level], axis=1)

        def get_flag(self):
            return self.level % 2 == 0

        def get_steps(self):
            return np.full(self.n_households, self.current_time_step)

    return Sub


GETTERS = ['get_level', 'get_cached', 'get_matrix', 'get_flag', 'get_steps']
FORMS = ['pos1', 'pos2', 'kw', 'all']


def inputs(form, k, N):
    i = np.arange(N)
    a = (i + 1) * (k + 1)
    b = np.stack([i + k, 3 * i], axis=1)
    c = i % 3 + k * 0.25
    return {'pos1': ((a,), {}), 'pos2': ((a, b), {}), 'kw': ((a,), {'c': c}), 'all': ((a,), {'c': c, 'b': b})}[form]


class Ref:
    """The reference: one array over all the households."""

    def __init__(self, sizes):
        self.level = np.concatenate([np.arange(n) + 100.0 * t for t, n in enumerate(sizes)])
        self.k = 0

    def step(self, a, b=None, c=None):
        self.level = self.level * 2 + a
        if b is not None:
            self.level = self.level + np.sum(b, axis=1) * 1000
        if c is not None:
            self.level = self.level - c
        self.k += 1

    def get(self, g):
        l = self.level
        return {'get_level': l, 'get_cached': l + .5, 'get_matrix': np.stack([l, -l], axis=1), 'get_flag': l % 2 == 0,
                'get_steps': np.full(len(l), self.k)}[g]


def histories(rec, scen):
    from demod.simulators.base_simulators import MultiSimulator, SimLogger
    sizes, depth = scen
    N = sum(sizes)
    Sub = sub_class()
    ops = [('step', f) for f in FORMS] + [('get', g) for g in GETTERS] + [('one', 'get_cached'), ('one', 'get_level')]
    for seq in itertools.product(ops, repeat=depth):
        sim = MultiSimulator([Sub(n, t) for t, n in enumerate(sizes)])
        sim.initialize_starting_state()
        ref = Ref(sizes)
        k = 0
        for op, x in seq:
            ctx = {'sizes': sizes, 'operations': seq}
            if op == 'step':
                args, kw = inputs(x, k, N)
                keep = [np.array(v) for v in list(args) + list(kw.values())]
                sim.step(*args, **kw)
                rec.expect(all(np.array_equal(u, v) for u, v in zip(keep, list(args) + list(kw.values()))),
                           'a step modifies its inputs', ctx, 'inputs')
                ref.step(*args, **kw)
                k += 1
            elif op == 'get':
                if not rec.expect(same(getattr(sim, x)(), ref.get(x)),
                                  'a getter is not the concatenation of the parts, in order',
                                  lambda: {**ctx, 'getter': x, 'got': getattr(sim, x)(), 'want': ref.get(x)}, 'getter'):
                    return
            else:
                for i in range(-N, N):
                    if not rec.expect(same(getattr(sim, x)(i), ref.get(x)[i]), 'a getter for one household differs',
                                      lambda: {**ctx, 'getter': x, 'household': i, 'got': getattr(sim, x)(i),
                                               'want': ref.get(x)[i]}, 'getter one'):
                        return
            rec.transition()
            rec.state((sizes, k, ref.level.tobytes(), op))
        for g in GETTERS:
            if not rec.expect(same(getattr(sim, g)(), ref.get(g)), 'a getter is not the concatenation of the parts',
                              lambda: {'sizes': sizes, 'operations': seq, 'getter': g, 'got': getattr(sim, g)(),
                                       'want': ref.get(g)}, 'getter'):
                return
        rec.expect(sim.current_time_step == k and sim.n_households == N
                   and [s.current_time_step for s in sim.simulators] == [k] * len(sizes),
                   'step counters of the parts differ', {'sizes': sizes, 'operations': seq}, 'counters')
        rec.trace()
    rec.sample({'sizes': sizes, 'operations': seq})


def logged(rec, scen):
    """Logger and per-part histories."""
    from demod.simulators.base_simulators import MultiSimulator, SimLogger
    Sub = sub_class()
    for sizes in scen:
        N = sum(sizes)
        for agg in (True, False):
            sim = MultiSimulator([Sub(n, t) for t, n in enumerate(sizes)],
                                 logger=SimLogger('get_cached', 'get_level', aggregated=agg))
            sim.initialize_starting_state()
            ref = Ref(sizes)
            want = [ref.get('get_cached')]
            for k, f in enumerate(FORMS * 2):
                a, kw = inputs(f, k, N)
                sim.step(*a, **kw)
                ref.step(*a, **kw)
                want.append(ref.get('get_cached'))
                rec.transition()
            w = np.array(want)[:-1]
            rec.expect(same(sim.logger.get('get_cached'), w.sum(axis=1) if agg else w, 1e-12),
                       'the logged history is not that of the parts', {'sizes': sizes, 'aggregated': agg}, 'logged')
            rec.state((sizes, agg))
            rec.trace()


def masks(rec, scen):
    """get_mask_subgroup, n_residents, and the getters a class defines itself."""
    from demod.simulators.base_simulators import MultiSimulator
    Sub = sub_class()
    groups = [{'n_residents': 1}, {'n_residents': 2}, {'n_residents': 1, 'household_type': 1}, {'household_type': 1}]
    asks = groups + [{}, {'n_residents': 3}, {'other': 1}, {'n_residents': 2, 'household_type': 1}]
    for sizes in scen:
        for gs in itertools.product(range(len(groups)), repeat=len(sizes)):
            sim = MultiSimulator([Sub(n, t, subgroup=groups[g], n_residents=g + 1)
                                  for t, (n, g) in enumerate(zip(sizes, gs))])
            rec.state((sizes, gs))
            rec.expect(np.array_equal(sim.n_residents, np.repeat([g + 1 for g in gs], sizes)),
                       'n_residents of the households', {'sizes': sizes, 'groups': gs, 'got': sim.n_residents},
                       'n_residents')
            for ask in asks:
                want = np.concatenate([np.full(n, all(k in groups[g] and groups[g][k] == v for k, v in ask.items()))
                                       for n, g in zip(sizes, gs)])
                got = sim.get_mask_subgroup(ask)
                rec.expect(same(got, want), 'mask of a subgroup', {'sizes': sizes, 'groups': [groups[g] for g in gs],
                                                                  'asked': ask, 'got': got, 'want': want}, 'mask')
                rec.transition()
            rec.trace()

    class Own(MultiSimulator):
        def get_level(self):
            return 'own'
    sim = Own([Sub(2, 0), Sub(1, 1)])
    rec.expect(sim.get_level() == 'own' and same(sim.get_flag(), np.array([True, False, True])),
               'getters defined by the class itself are kept', None, 'own getter')


def nested(rec, scen):
    """Multi-simulators of multi-simulators."""
    from demod.simulators.base_simulators import MultiSimulator
    Sub = sub_class()
    for sizes in scen:
        N = sum(sizes)
        for cut in range(1, len(sizes)):
            t = iter(range(len(sizes)))
            parts = []
            for group in (sizes[:cut], sizes[cut:]):
                m = MultiSimulator([Sub(n, next(t)) for n in group])
                m.initialize_starting_state()
                parts.append(m)
            sim = MultiSimulator(parts)
            sim.initialize_starting_state()
            ref = Ref(sizes)
            for k, f in enumerate(FORMS * 2):
                a, kw = inputs(f, k, N)
                sim.step(*a, **kw)
                ref.step(*a, **kw)
                for g in GETTERS:
                    rec.expect(same(getattr(sim, g)(), ref.get(g)), 'nested multi-simulators differ',
                               lambda: {'sizes': sizes, 'cut': cut, 'step': k, 'getter': g}, 'nested')
                rec.transition()
                rec.state((sizes, cut, k))
            rec.trace()


def activities(rec, scen):
    """The population of activity simulators, in the order of the subgroups given."""
    from demod.simulators.sparse_simulators import SparseStatesSimulator, SubgroupsActivitySimulator
    from demod.utils.sparse import SparseTPM

    class Sub(SparseStatesSimulator):
        """Everyone does activity k at step k + n_residents."""

        def __init__(self, n, subgroup):
            self.n_residents, self.subgroup = subgroup['n_residents'], subgroup
            self.activity_labels = np.array(['a', 'b', 'c'])
            tpm = SparseTPM(*[np.array(v) for v in zip(*[(t, i, (i + 1) % 3, 1.) for t in range(3) for i in range(3)])], n_states=3, n_times=3)
            labels = np.array([(subgroup['n_residents'] * 7 ** ((k + subgroup['n_residents']) % 3)) for k in range(3)])
            super().__init__(n, tpm, np.eye(3)[0], labels=labels)

        def get_who(self):
            return np.arange(self.n_households) + 100 * self.n_residents
    for order, numbers in scen:
        sgs = [{'n_residents': n} for n in order]
        with active(Fixed(1)):
            sim = SubgroupsActivitySimulator(sgs, list(numbers), subsimulator=Sub)
            ns = [n for n, k in zip(order, numbers) for _ in range(k)]
            who = [100 * n + i for n, k in zip(order, numbers) for i in range(k)]
            for k in range(4):
                ctx = {'residents': order, 'numbers': numbers, 'step': k}
                rec.expect(sim.n_households == len(ns) and np.asarray(sim.get_who()).tolist() == who, 'households of a population',
                           lambda: {**ctx, 'got': sim.get_who()}, 'population order')
                for j, act in enumerate('abc'):
                    want = [n * ((k + n) % 3 == j) for n in ns]
                    for ask, f in ((act, sim.get_n_doing_state), (j, sim.get_n_doing_state), (act, sim.get_n_doing_activity)):
                        got = np.asarray(f(ask)).tolist()
                        rec.expect(got == want, 'numbers of residents doing an activity', lambda: {**ctx, 'asked': ask, 'got': got, 'want': want},
                                   'population activities')
                got = [np.asarray(x).tolist() for x in sim.get_n_doing_state(['c', 0])]
                rec.expect(got == [[n * ((k + n) % 3 == j) for n in ns] for j in (2, 0)], 'numbers of residents doing several activities',
                           lambda: {**ctx, 'got': got}, 'population activities')
                sim.step()
                rec.transition()
                rec.state((order, numbers, k))
        rec.trace()


def build(ck):
    import demod.simulators.base_simulators  # noqa
    th = ck.thorough
    sizes = [s for n in range(1, 5) for s in itertools.product((1, 2, 3), repeat=n) if sum(s) <= 6]
    for s in sizes:
        ck.add('history %s' % (s,), histories, (s, 4 if th else 3))
    ck.add('history deep', histories, ((2, 1), 5 if th else 4))
    ck.add('history deep2', histories, ((1, 3, 2), 5 if th else 4))
    ck.add('logged', logged, sizes)
    ck.add('masks', masks, [s for s in sizes if len(s) <= 3])
    ck.add('activities', activities, [(o, k) for m in (1, 2, 3) for o in itertools.product((1, 2, 3, 4), repeat=m)
                                      for k in itertools.product((0, 1, 2), repeat=m) if any(k)])
    ck.add('nested', nested, [s for s in sizes if len(s) > 1])
    ck.rule = 'all splits of up to 6 households in parts of 1-3; all operation sequences of length 3-4 over 11 operations'
