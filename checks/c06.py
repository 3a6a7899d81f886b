"""C06: getters report the current step, over all interleavings of steps and getter calls."""
import copy
import itertools
import datetime as dt

import numpy as np

from mc.choice import Fixed, active
from mc.util import same

LEVEL = 'model_checking'

# Getters which need an argument, and the arguments given
ARGS = {'get_n_doing_activity': [('home',), ('sleep',), ('cook',)], 'get_n_doing_state': [(0,), (1,)],
        'get_mask_subgroup': []}
SEED = 3


def call(sim, name):
    g, args = name
    return copy.deepcopy(getattr(sim, g)(*args))


def getters(sim):
    """Getters that can be called, found on the simulator itself."""
    out = []
    for n in sorted(dir(sim)):
        if not n.startswith('get_') or not callable(getattr(sim, n)):
            continue
        for args in ARGS.get(n, [()]):
            try:
                v = call(sim, (n, args))
            except Exception:   # not available on these data: not compared
                continue
            if v is not None:
                out.append((n, args))
    return out


def play(make, step, n_steps, visit, logger=None):
    """Run; visit(sim, k) is called after k steps.  Same random numbers whatever is visited."""
    with active(Fixed(SEED)):
        sim = make(**({'logger': logger} if logger is not None else {}))
        visit(sim, 0)
        for k in range(n_steps):
            step(sim, k)
            visit(sim, k + 1)
    return sim


def truth(make, step, gs, K):
    """Value of each getter after k steps, in a run where nothing else was ever asked."""
    out = {}
    for g in gs:
        for k in range(K + 1):
            got = []
            play(make, step, k, lambda s, j: got.append(call(s, g)) if j == k else None)
            out[g, k] = got[0]
    return out


def scen_kept(make, step, sname, K):
    """What was obtained stays as it was, whatever is simulated later."""
    def f(rec, scen):
        with active(Fixed(SEED)):
            gs = getters(make())
        for order in (1, -1):
            kept = []

            def visit(sim, k):
                for g in gs[::order]:
                    v = getattr(sim, g[0])(*g[1])
                    kept.append((g, k, v, copy.deepcopy(v)))
                for g, j, v, was in kept:
                    rec.transition()
                    rec.expect(same(v, was), f'{sname}.{name_of(g)}: what was obtained does not change later',
                               lambda: f'obtained after {j} steps: {was!r}; after {k} steps it has become {v!r}',
                               key=f'{sname}.{g[0]} kept')
            play(make, step, K, visit)
            rec.trace()
        rec.state((sname, len(gs)))
    return f


def name_of(g):
    return g[0] + (str(g[1]) if g[1] else '')


class Run:
    def __init__(self, rec, sname, tr):
        self.rec, self.name, self.tr = rec, sname, tr

    def ask(self, sim, g, k, why):
        v = call(sim, g)
        self.rec.transition()
        self.rec.expect(same(v, self.tr[g, k], 1e-9), f'{self.name}.{name_of(g)} is the value of the current step',
                        lambda: f'after {k} steps, {why}: {v!r}, where a run in which only this was asked gives {self.tr[g, k]!r}',
                        key=f'{self.name}.{g[0]}')
        return v


def scen_subsets(make, step, sname, K):
    """All getters, asked after any subset of steps, in two orders, once or twice."""
    def f(rec, scen):
        with active(Fixed(SEED)):
            gs = getters(make())
        rec.state((sname, len(gs)))
        tr = truth(make, step, gs, K)
        run = Run(rec, sname, tr)
        for sub in itertools.product((0, 1), repeat=K):
            for order, twice in (((1), 1), ((-1), 2)):
                def visit(sim, k, sub=sub, order=order, twice=twice):
                    if k == K or sub[k]:
                        for _ in range(twice):
                            for g in gs[::order]:
                                run.ask(sim, g, k, f'asked all after steps {sub}, order {order}')
                play(make, step, K, visit)
                rec.trace()
        # each getter alone, with any subset of steps
        for g in gs:
            for sub in itertools.product((0, 1), repeat=K):
                def visit(sim, k, sub=sub, g=g):
                    if k == K or sub[k]:
                        run.ask(sim, g, k, f'asked only this, after steps {sub}')
                play(make, step, K, visit)
                rec.trace()
        rec.sample({'simulator': sname, 'getters': [name_of(g) for g in gs], 'steps': K})
    return f


def scen_pairs(make, step, sname, K):
    """A getter asked after step i, another at step j >= i, for every pair."""
    def f(rec, scen):
        with active(Fixed(SEED)):
            gs = getters(make())
        tr = truth(make, step, gs, K)
        run = Run(rec, sname, tr)
        for a, b in itertools.permutations(gs, 2):
            def visit(sim, k, a=a, b=b):
                run.ask(sim, a, k, f'{name_of(a)} before {name_of(b)}, after each step')
                run.ask(sim, b, k, f'{name_of(a)} before {name_of(b)}, after each step')
            play(make, step, K, visit)
            rec.trace()
            for i in range(K):
                def visit(sim, k, a=a, b=b, i=i):
                    if k == i:
                        run.ask(sim, a, k, 'first')
                    if k > i:
                        run.ask(sim, b, k, f'{name_of(a)} was asked after {i} steps')
                play(make, step, K, visit)
                rec.trace()
    return f


def scen_logger(make, step, sname, K):
    """With a logger on each getter, on all: what is logged, and what getters report meanwhile."""
    from demod.simulators.base_simulators import SimLogger

    def f(rec, scen):
        with active(Fixed(SEED)):
            gs = [g for g in getters(make()) if not g[1]]
        if not gs:
            return
        tr = truth(make, step, gs, K)
        run = Run(rec, sname, tr)
        sets = [[g] for g in gs] + ([gs, gs[::-1]] if len(gs) > 1 else [])
        for which in sets:
            for asked in (False, True):
                log = SimLogger(*[g[0] for g in which], aggregated=False)

                def visit(sim, k):
                    if asked:
                        for g in gs:
                            run.ask(sim, g, k, f'logging {[g[0] for g in which]}')
                log = play(make, step, K, visit, log).logger
                rec.trace()
                for g in which:
                    out = log.get(g[0])
                    rec.transition()
                    for k in range(K):
                        want = tr[g, k]
                        got = {a: v[k] for a, v in out.items()} if isinstance(want, dict) else out[k]
                        rec.expect(same(got, want, 1e-9), f'{sname}: the record of a step is the value of {g[0]} at this step',
                                   lambda: f'record {k} {got!r}, a run without logger gives {want!r}',
                                   key=f'{sname}.{g[0]} logged')
        rec.state((sname, len(gs)))
    return f


def scen_ieth(make, step, sname, K):
    """Households asked one by one, before or after the full result, in any subset of steps."""
    def f(rec, scen):
        with active(Fixed(SEED)):
            gs = [g for g in getters(make()) if not g[1]]
        tr = truth(make, step, gs, K)
        for g in gs:
            full = tr[g, 0]
            if not isinstance(full, np.ndarray) or full.ndim == 0:
                continue

            def visit(sim, k):
                n = len(tr[g, k])
                for i in [*range(n), -1]:
                    try:
                        v = copy.deepcopy(getattr(sim, g[0])(i))
                    except TypeError:   # takes no household
                        return
                    rec.transition()
                    rec.expect(same(v, tr[g, k][i], 1e-9), f'{sname}.{g[0]}(i) is the entry of household i',
                               lambda: f'after {k} steps, i={i}: {v!r}, all: {tr[g, k]!r}', key=f'{sname}.{g[0]}(i)')
            for mode in ('only', 'full before', 'full after'):
                def visit2(sim, k):
                    if mode == 'full before':
                        call(sim, g)
                    visit(sim, k)
                    if mode == 'full after':
                        v = call(sim, g)
                        rec.expect(same(v, tr[g, k], 1e-9), f'{sname}.{g[0]} after one household was asked', f'{v!r}',
                                   key=f'{sname}.{g[0]} after one')
                play(make, step, K, visit2)
                rec.trace()
    return f


def custom():
    """A getter of a user, caching what it reads from every kind of state."""
    from demod.simulators.base_simulators import Simulator, TimeAwareSimulator, cached_getter

    class Plain(Simulator):
        def __init__(self, n=3, logger=None):
            super().__init__(n, logger=logger)
            self.x = np.arange(n)
            self.initialize_starting_state()

        def step(self):
            self.x = self.x + 1
            super().step()

        @cached_getter
        def get_x(self):
            return self.x * 1

        @cached_getter
        def get_y(self):
            return self.get_x() * 2

        @cached_getter
        def get_dict(self):
            return {'a': self.get_x() + 1}

    class Timed(TimeAwareSimulator):
        n_init = 2

        def __init__(self, n=3, logger=None):
            super().__init__(n, logger=logger, start_datetime=dt.datetime(2014, 1, 1, 3, 58))
            self.x = np.arange(n) - 50
            self.get_y()    # as a constructor might
            self.x = np.arange(n)
            self.initialize_starting_state(initialization_time=self.current_time - self.n_init * self.step_size)

        def step(self):
            self.x = self.x + 1
            super().step()

        get_x, get_y, get_dict = Plain.get_x, Plain.get_y, Plain.get_dict

    class Now(Timed):
        n_init = 0

    return Plain, Timed, Now


def scen_custom(which, K):
    def f(rec, scen):
        cls = custom()[which]
        base = (0, 2, 0)[which]

        def val(g, k):
            x = np.arange(3) + k + base
            return {'get_x': x, 'get_y': 2 * x, 'get_dict': {'a': x + 1}}[g]
        names = ['get_x', 'get_y', 'get_dict']
        asks = [(), *[(g,) for g in names], *itertools.permutations(names, 2)]
        for hist in itertools.product(asks, repeat=K):
            sim = cls()
            for k, gs in enumerate(hist):
                for g in gs:
                    v = getattr(sim, g)()
                    rec.transition()
                    rec.expect(same(v, val(g, k)), f'{g} of a user-defined simulator', lambda: f'{hist}, step {k}: {v!r}',
                               key=f'custom {g}')
                sim.step()
            for g in names:
                v = getattr(sim, g)()
                rec.expect(same(v, val(g, K)), f'{g} of a user-defined simulator', lambda: f'{hist}, end: {v!r}',
                           key=f'custom {g}')
            rec.trace()
            rec.state(hist)
        # two instances never share their caches
        for order in itertools.product((0, 1), repeat=K + 1):
            sims, done = [cls(), cls()], [0, 0]
            sims[1].x = sims[1].x + 100
            for s in sims:
                s.step()
            done = [1, 1]
            for w in order:
                for j, s in enumerate(sims):
                    v = s.get_y()
                    rec.expect(same(v, val('get_y', done[j]) + 200 * j), 'instances have their own caches', f'{order}: {v!r}',
                               key='custom instances')
                sims[w].step()
                done[w] += 1
            rec.trace()
    return f


def build(ck):
    from mc.zoo import ZOO
    K = 6 if ck.thorough else 3
    ck.rule = 'every getter of every simulator, every subset of the steps at which it, or all, are asked'
    ck.assumptions = ['getters are found by their name (get_*); those which cannot be called on the stub datasets are '
                      'left out', 'results which are dictionaries are not asked for one household']
    for name, make, step in ZOO:
        slow = name in ('SubgroupsActivitySimulator',)
        k = min(K, 2) if slow else K
        ck.add(f'subsets of steps: {name}', lambda r, s, a=(make, step, name, k): scen_subsets(*a)(r, s), {'steps': k})
        ck.add(f'kept: {name}', lambda r, s, a=(make, step, name, 2 * k): scen_kept(*a)(r, s), {'steps': 2 * k})
        ck.add(f'logger: {name}', lambda r, s, a=(make, step, name, k): scen_logger(*a)(r, s), {'steps': k})
        ck.add(f'households: {name}', lambda r, s, a=(make, step, name, 2): scen_ieth(*a)(r, s), {'steps': 2})
        kp = 4 if ck.thorough and not slow else 1
        ck.add(f'pairs: {name}', lambda r, s, a=(make, step, name, kp): scen_pairs(*a)(r, s), {'steps': kp})
    for w in (0, 1, 2):
        ck.add(f'user-defined simulator {w}', scen_custom(w, 5 if ck.thorough else 3), {'steps': 3})
