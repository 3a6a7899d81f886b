"""C07: the history a SimLogger holds, over all sequences of operations."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import Fixed, active
from mc.util import same, interleave

LEVEL = 'model_checking'

ATTRS = ['num', 'arr', 'd', 'get_arr', 'get_d', 'current_time', 'flags', 'mat', 'lst']


def sim_class():
    from demod.simulators.base_simulators import TimeAwareSimulator, cached_getter

    class S(TimeAwareSimulator):
        """Everything it exposes is mutated in place by its steps."""

        def __init__(self, n=3, logger=None, n_init=0):
            super().__init__(n, logger=logger)
            self.num = 0.0
            self.arr = np.arange(n)
            self.flags = np.arange(n) % 2 == 0
            self.mat = np.arange(2 * n).reshape(n, 2)
            self.lst = [1, 2, 3]
            self.d = {'a': np.arange(n) * 10, 'b': np.arange(n) * 0.5}
            self.ops = 0
            self.initialize_starting_state(initialization_time=self.current_time - n_init * self.step_size)

        def step(self):
            self.num += 1.5
            self.arr += 1
            self.flags[:] = ~self.flags
            self.mat *= 2
            self.lst[0] += 1
            for v in self.d.values():
                v += 2
            super().step()

        def get_arr(self):
            return self.arr

        @cached_getter
        def get_d(self):
            return self.d

        @cached_getter
        def get_double(self):
            return self.arr * 2

    return S


def value(k, attr, agg, n=3):
    """What the simulator shows after k steps."""
    i = np.arange(n)
    v = {
        'num': 1.5 * k, 'arr': i + k, 'get_arr': i + k, 'get_double': 2 * (i + k),
        'flags': (i % 2 == 0) if k % 2 == 0 else (i % 2 == 1),
        'mat': np.arange(2 * n).reshape(n, 2) * 2 ** k,
        'lst': [1 + k, 2, 3],
        'd': {'a': i * 10 + 2 * k, 'b': i * .5 + 2 * k},
        'current_time': dt.datetime(2014, 1, 1, 4) + dt.timedelta(minutes=k),
    }
    v['get_d'] = v['d']
    x = v[attr]
    if attr == 'current_time':
        return x
    if agg:
        return {a: np.sum(b) for a, b in x.items()} if isinstance(x, dict) else np.sum(x)
    return x


def expected(hist, attr, agg):
    """Everything but the last record."""
    if not hist:
        return np.array([])
    vals = [value(k, attr, agg) for k in hist]
    if isinstance(vals[0], dict):
        return {key: np.array([v[key] for v in vals])[:-1] for key in vals[0]}
    return np.array(vals)[:-1]


OPS = ['step', 'read', 'scribble', 'clear', 'clear first', 'clear last', 'clear list', 'copy', 'restart', 'foreign']


def compare(rec, lg, hist, attrs, aggs, ctx, key):
    for a, g in zip(attrs, aggs):
        got = lg.get(a)
        want = expected(hist[a], a, g)
        if not rec.expect(same(got, want, None), 'logged history of %s differs from what the simulator showed' % a,
                          lambda: {**ctx, 'attribute': a, 'aggregated': g, 'got': got, 'want': want}, key):
            return False
    return True


def scribble(x):
    for v in (x.values() if isinstance(x, dict) else [x]):
        if isinstance(v, np.ndarray) and v.size:
            if v.dtype == object:
                v[0] = None
            elif v.dtype == bool:
                v[:] = ~v
            else:
                v[...] = 99


def histories(rec, scen):
    from demod.simulators.base_simulators import SimLogger
    attrs, agg, first, depth = scen
    S = sim_class()
    aggs = list(agg) if isinstance(agg, (list, tuple)) else [agg and a != 'current_time' for a in attrs]
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        # operations that end an execution uninterestingly early
        user = SimLogger(list(attrs), aggregated=list(agg) if isinstance(agg, tuple) else agg)
        sim = S(logger=user)
        k = 0
        hist = {a: [0] for a in attrs}
        lg = sim.logger
        ctx = {'attributes': attrs, 'aggregated': agg, 'operations': seq}
        for op in seq:
            if op == 'step':
                sim.step()
                k += 1
                for a in attrs:
                    hist[a].append(k)
            elif op == 'read':
                if not compare(rec, lg, hist, attrs, aggs, ctx, 'history'):
                    return
            elif op == 'scribble':  # what get returned belongs to the caller
                for a in attrs:
                    x = lg.get(a)
                    if not isinstance(x, np.ndarray) or x.dtype != object:
                        continue
                    scribble(x)
            elif op == 'clear':
                lg.clear()
                hist = {a: [] for a in attrs}
            elif op == 'clear first':
                lg.clear(attrs[0])
                hist[attrs[0]] = []
            elif op == 'clear last':
                lg.clear(attrs[-1])
                hist[attrs[-1]] = []
            elif op == 'clear list':
                lg.clear(list(attrs[:2]))
                for a in attrs[:2]:
                    hist[a] = []
            elif op == 'copy':
                c = lg.copy()
                rec.expect(c.attributes_list == list(attrs) and c.aggregated == aggs
                           and all(len(c.get(a)) == 0 for a in attrs),
                           'the copy of a logger is not an empty logger of the same attributes', ctx, 'copy')
                c.visit_simulator(sim)
                c.visit_simulator(sim)
                compare(rec, c, {a: [k, k] for a in attrs}, attrs, aggs, {**ctx, 'logger': 'copy'}, 'copy')
            elif op == 'restart':  # a new initialisation starts a new history
                sim.initialize_starting_state()
                hist = {a: [k] for a in attrs}
            elif op == 'foreign':  # the logger given by the user, and another simulator's copy of it
                other = S(logger=user, n_init=0)
                other.step()
                rec.expect(all(len(user.get(a)) == 0 for a in attrs) and other.logger is not sim.logger,
                           'a simulator logs in the logger it was given instead of its own', ctx, 'user logger')
                compare(rec, other.logger, {a: [0, 1] for a in attrs}, attrs, aggs, {**ctx, 'logger': 'other'},
                        'user logger')
            rec.transition()
            rec.state((attrs, tuple(sorted((a, tuple(h)) for a, h in hist.items()))))
        if not compare(rec, lg, hist, attrs, aggs, ctx, 'history'):
            return
        rec.trace()
    rec.sample({'attributes': attrs, 'aggregated': agg, 'operations': seq})


def single(rec, _):
    """All attributes, both aggregations, initialisation steps, constructor forms, refusals."""
    from demod.simulators.base_simulators import SimLogger
    S = sim_class()
    for attrs in itertools.chain(([a] for a in ATTRS), itertools.permutations(ATTRS, 2), [ATTRS]):
        attrs = list(attrs)
        forms = [(SimLogger(attrs), [a != 'current_time' for a in attrs]),
                 (SimLogger(*attrs), [a != 'current_time' for a in attrs]),
                 (SimLogger(*attrs, aggregated=False), [False] * len(attrs)),
                 (SimLogger(attrs, aggregated=[i % 2 == 0 and a != 'current_time' for i, a in enumerate(attrs)]),
                  [i % 2 == 0 and a != 'current_time' for i, a in enumerate(attrs)])]
        for lg, aggs in forms:
            for n_init in (0, 2):
                sim = S(logger=lg, n_init=n_init)
                base = n_init
                for m in range(4):
                    # the clock ends at the start time, whatever the initialisation
                    for a, g in zip(attrs, aggs):
                        ks = [base + i for i in range(m + 1)]
                        want = expected(ks if a != 'current_time' else list(range(m + 1)), a, g)
                        got = sim.logger.get(a)
                        rec.expect(same(got, want), 'logged history of %s differs' % a,
                                   lambda: {'attributes': attrs, 'initial steps': n_init, 'steps': m, 'got': got,
                                            'want': want}, 'single')
                    rec.state((tuple(attrs), tuple(aggs), n_init, m))
                    rec.transition()
                    sim.step()
                if len(attrs) == 1:
                    rec.expect(same(sim.logger.get(), sim.logger.get(attrs[0])), 'get() of a single attribute', None,
                               'get()')
                rec.trace()
    sim = S(logger=SimLogger('arr', 'num'))
    for what, fn, err in (('unknown attribute', lambda: sim.logger.get('d'), ValueError),
                          ('clear unknown', lambda: sim.logger.clear('d'), ValueError),
                          ('ambiguous get', lambda: sim.logger.get(), ValueError),
                          ('aggregated length', lambda: SimLogger(['a', 'b'], aggregated=[True]), ValueError),
                          ('type', lambda: SimLogger(3), TypeError),
                          ('aggregated type', lambda: SimLogger('a', aggregated='yes'), TypeError),
                          ('logger type', lambda: S(logger='num'), TypeError),
                          ('add type', lambda: sim.logger + 3, TypeError)):
        rec.transition()
        try:
            fn()
        except err:
            rec.trace()
            continue
        rec.fail('invalid use is accepted: ' + what, None, 'reject ' + what)


def merge(rec, _):
    """Adding two loggers gives the attributes of both, when they have the same length."""
    from demod.simulators.base_simulators import SimLogger
    S = sim_class()
    for k1, k2 in itertools.product(range(4), repeat=2):
        for a1, a2 in ((('num', 'd'), ('arr',)), (('get_arr',), ('get_d', 'flags'))):
            for agg1, agg2 in itertools.product((True, False), repeat=2):
                s1, s2 = S(logger=SimLogger(list(a1), aggregated=agg1)), S(logger=SimLogger(list(a2), aggregated=agg2))
                for _ in range(k1):
                    s1.step()
                for _ in range(k2):
                    s2.step()
                rec.state((k1, k2, a1, agg1, agg2))
                rec.transition()
                try:
                    lg = s1.logger + s2.logger
                except ValueError:
                    rec.expect(k1 != k2, 'loggers of the same length cannot be merged', {'steps': [k1, k2]}, 'merge')
                    rec.trace()
                    continue
                rec.expect(k1 == k2, 'loggers of different lengths are merged', {'steps': [k1, k2]}, 'merge')
                if k1 == k2:
                    compare(rec, lg, {a: list(range(k1 + 1)) for a in a1 + a2}, a1 + a2,
                            [agg1] * len(a1) + [agg2] * len(a2), {'merged': [a1, a2]}, 'merge')
                    c = lg.copy()
                    rec.expect(list(c.attributes_list) == list(a1 + a2), 'copy of a merged logger', None, 'merge')
                    compare(rec, s2.logger, {a: list(range(k2 + 1)) for a in a2}, a2, [agg2] * len(a2),
                            {'after': 'merge'}, 'merge')
                rec.trace()
    # copies of a used logger can be merged with a fresh one
    s = S(logger=SimLogger('num'))
    s.step()
    lg = s.logger.copy() + SimLogger('arr')
    rec.expect(len(lg.get('num')) == 0 and len(lg.get('arr')) == 0, 'empty loggers', None, 'merge')


def build(ck):
    import demod.simulators.base_simulators  # noqa
    depth = 6 if ck.thorough else 5
    for attrs, agg in ((('num', 'arr'), False), (('d', 'get_arr'), False), (('get_d', 'flags', 'current_time'), True),
                       (('arr', 'get_d', 'num'), (True, False, True)), (('mat', 'd'), (False, True)),
                       (('current_time', 'get_double'), False)):
        for f in OPS:
            ck.add('history %s %s' % ('+'.join(attrs), f), histories, (attrs, agg, f, depth if len(attrs) < 3 else depth - 1))
    ck.add('single', single)
    ck.add('merge', merge)
    ck.rule = 'all operation sequences of length %d over %d operations for 6 attribute sets; all pairs of attributes' % (
        depth, len(OPS))
