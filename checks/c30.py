"""C30: variable thermostats of the living lab."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import active, Fixed, distribution
from mc.util import interleave, law_diff, product_law

LEVEL = 'model_checking'
LABELS = ('Cool Conservers', 'Steady and Savvy', 'Hot and Cold Fluctuators', 'On-Demand Sizzlers', 'On-off Switchers',
          'Toasty Cruisers')
MEAN = (17, 18.5, 20, 23, 20, 21)
DEV = (1.5, 1, 2, 2, 0.5, 1)
COMFORT = (0.1, 0.05, 0.1, 0.1, 0, 0.05)
LOW = 16.0
SHARE = (6, 24, 17, 12, 28, 13)
T0 = dt.datetime(2014, 3, 1, 4, 0)
OCC = ((0, 0), (1, 0), (1, 1), (3, 2))  # occupants, active occupants


def comfort(p, ch, T):
    """Sets of temperatures to which an active household adjusts."""
    if ch.u01() < COMFORT[p]:
        return MEAN[p] + ch.integer(0, int(2 * DEV[p]) + 1) / 2.0
    return T


def adjust(p, T, last, now, ch):
    """Households that adjust their thermostat themselves."""
    (o0, a0), (o, a) = last, now
    if LABELS[p] == 'On-off Switchers':
        return float(MEAN[p]) if o > 0 else LOW
    if o == 0 and o0 > 0:
        T = LOW
    elif o > 0 and o0 == 0:
        T = MEAN[p] + DEV[p]
    elif a == 0 and a0 > 0:
        T = float(MEAN[p])
    elif a > 0 and a0 == 0:
        T = MEAN[p] + DEV[p]
    return comfort(p, ch, T) if a > 0 else T


def simulator(n, label, occ, start=T0, arrays=None, **kw):
    from demod.simulators.heating_simulators import VariableThermostatTemperatureSimulator
    o, a = arrays or (np.array([o for o, _ in occ]), np.array([a for _, a in occ]))
    return VariableThermostatTemperatureSimulator(n, o, a, start, pattern_attribution_method=label, **kw)


def drive(sim, occ, arrays=None):
    o, a = np.array([x for x, _ in occ]), np.array([x for _, x in occ])
    if arrays is not None:  # the caller fills its arrays again
        arrays[0][:], arrays[1][:] = o, a
        o, a = arrays
    sim.step(o, a)
    assert list(o) == [x for x, _ in occ] and list(a) == [x for _, x in occ]
    return tuple(round(float(t), 6) for t in sim.get_thermostat_temperatures())


def fluctuators(rec, scen):
    """Law of the temperatures for every history of occupancies of n households with the same pattern."""
    for p, n, hist, reuse, *grid in scen:
        grid = grid or [0.02, 0.6]
        def run(ch):
            arrays = [np.array([x[i] for x in hist[0]]) for i in (0, 1)] if reuse else None
            with active(Fixed(1)):
                sim = simulator(n, LABELS[p], hist[0], arrays=arrays)
                first = tuple(float(t) for t in sim.get_thermostat_temperatures())
            return (first,) + tuple(drive(sim, occ, arrays) for occ in hist[1:])

        def ref_one(h):
            def ref(ch):
                T, out = float(MEAN[p]), [float(MEAN[p])]
                for last, now in zip(hist, hist[1:]):
                    T = adjust(p, T, last[h], now[h], ch)
                    out.append(round(T, 6))
                return tuple(out)
            return distribution(ref, grid=grid)[0]
        got, runs = distribution(run, grid=grid)
        got = {tuple(zip(*k)): w for k, w in got.items()}
        rec.trace(runs)
        rec.transition(runs)
        rec.state((p, hist))
        want = product_law([ref_one(h) for h in range(n)])
        if not rec.expect(got == want, 'law of the thermostat temperatures differs',
                          lambda: {'pattern': LABELS[p], 'history (occupants, active)': hist, 'arrays used again': reuse,
                                   'got,want': dict(list(law_diff(got, want).items())[:5])}, 'fluctuators'):
            return


def day(p, wake, wake_min, change, stay, away, bed, bed_min, start, steps):
    """Temperatures of a household with a constant pattern over a number of steps of ten minutes."""
    w = 60 * wake + wake_min
    leave = w + stay
    back = leave + away
    b = 60 * bed + bed_min
    m = 1440
    T, out = float(MEAN[p]), []
    for k in range(1, steps + 1):
        now = (start.hour * 60 + start.minute + 10 * k) % m
        if change and now == leave % m:
            T = MEAN[p] - DEV[p]
        if now == back % m:
            T = MEAN[p] + DEV[p]
        if now == b % m:
            T = float(MEAN[p])
        if now == w % m:
            T = MEAN[p] + DEV[p]
        out.append(T)
    return tuple(out)


def constant(rec, scen):
    """Constant patterns: law of the whole days, with the hours drawn for each household."""
    for p, start, grid, steps in scen:
        occ = [(2, 1)]

        def q(u, pdf):
            return next(i for i in range(len(pdf)) if u < sum(pdf[:i + 1]))

        def run(ch):
            sim = simulator(1, LABELS[p], occ, start)
            return tuple(drive(sim, [OCC[k % 4]])[0] for k in range(steps))

        def ref(ch):
            ten = [0.5] + [0.1] * 5
            a = [6 + q(ch.u01(), [0.25] * 4), 10 * q(ch.u01(), ten), q(ch.u01(), [0.5] * 2), 30 + 10 * q(ch.u01(), [0.05] * 20),
                 240 + 10 * q(ch.u01(), [0.05] * 20), (20 + q(ch.u01(), [0.2] * 5)) % 24, 10 * q(ch.u01(), ten)]
            return day(p, *a, start, steps)
        # only the draws of the hours are explored: nothing else depends on the draws
        got, runs = distribution(run, grid=grid)
        want, _ = distribution(ref, grid=grid)
        rec.trace(runs)
        rec.transition(runs * steps)
        rec.state((p, start, tuple(grid)))
        rec.expect(got == want, 'law of the days of a constant pattern differs',
                   lambda: {'pattern': LABELS[p], 'start': start, 'grid': grid, 'n differing': len(law_diff(got, want)),
                            'example': list(set(got) ^ set(want))[:2]}, 'constant')


def mixed(rec, scen):
    """Each household follows its own pattern, whatever its neighbours (hours read from the simulator)."""
    for types, seed, steps in scen:
        n = len(types)
        with active(Fixed(seed)):
            sim = simulator(n, 'random', [(2, 1)] * n)
            sim.pattern_type = np.array(types)
            sim.initialize_starting_state(0)
        f = sim.fixed_pattern_dict

        class Never:  # no change for comfort
            values = weights = None

            def u01(self):
                return 0.99
        got = []
        last = [(2, 1)] * n
        T = [float(MEAN[p]) for p in types]
        want, log = [], []
        minutes = [day(p, f['wake up hour'][h], f['wake up minutes'][h], f['change during day'][h], f['minutes before leaving'][h],
                       f['minutes before returning'][h], f['bed time hour'][h], f['bed time minutes'][h], T0, steps)
                   for h, p in enumerate(types)]
        for k in range(steps):
            occ = [OCC[(k // (2 + h) + h) % 4] for h in range(n)]
            before = sim.get_thermostat_temperatures()
            snap = before.copy()
            with active(Fixed(0, grid=[0.99])):
                got.append(drive(sim, occ))
            rec.expect(np.array_equal(before, snap), 'temperatures obtained earlier have changed', {'types': types}, 'kept')
            T = [minutes[h][k] if p in (1, 5) else adjust(p, T[h], last[h], occ[h], Never()) for h, p in enumerate(types)]
            last = occ
            want.append(tuple(round(float(t), 6) for t in T))
            rec.transition()
        rec.trace()
        rec.state((types, seed))
        bad = [k for k in range(steps) if got[k] != want[k]]
        if not rec.expect(not bad, 'a household does not follow its pattern',
                          lambda: {'patterns': [LABELS[p] for p in types], 'seed': seed, 'step': bad[0], 'got': got[bad[0]],
                                   'want': want[bad[0]], 'hours': f}, 'mixed'):
            return


def attribution(rec, scen):
    """Law of the patterns attributed."""
    from demod.simulators.heating_simulators import VariableThermostatTemperatureSimulator

    class Sub(VariableThermostatTemperatureSimulator):
        def initialize_fixed_patterns(self):
            pass  # the hours are explored elsewhere
    for method, n in scen:
        z = np.ones(n, dtype=int)

        def run(ch):
            sim = Sub(n, z, z, T0, **({} if method is None else {'pattern_attribution_method': method}))
            return tuple(zip((sim.pattern_labels[i] for i in sim.pattern_type),
                             (float(t) for t in sim.get_thermostat_temperatures())))
        edges = np.cumsum((0,) + SHARE) / 100.0
        grid = {float((a + b) / 2): int(round((b - a) * 100)) for a, b in zip(edges, edges[1:])}
        got, runs = distribution(run, grid=1 if method == 'random' else grid)
        from fractions import Fraction as F
        if method in LABELS:
            one = {(method, float(MEAN[LABELS.index(method)])): F(1)}
        else:
            one = {(l, float(m)): (F(1, 6) if method == 'random' else F(s, 100)) for l, m, s in zip(LABELS, MEAN, SHARE)}
        want = product_law([one] * n)
        rec.trace(runs)
        rec.transition(runs)
        rec.state((method, n))
        if method in (None, 'living lab') and n == 1:   # both sides of every edge of the law
            for e in edges[1:-1]:
                for u in (e - .004, e + .004):
                    with active(Fixed(0, grid=[float(u)])):
                        sim = Sub(1, z, z, T0)
                    w = LABELS[int(np.searchsorted(edges[1:], u))]
                    rec.transition()
                    rec.expect(sim.pattern_labels[sim.pattern_type[0]] == w, 'quantiles of the law of the patterns differ',
                               lambda: {'quantile': u, 'got': sim.pattern_labels[sim.pattern_type[0]], 'want': w}, 'attribution')
        rec.expect(got == want, 'law of the patterns differs', lambda: {'method': method, 'got,want': law_diff(got, want)}, 'attribution')


def build(ck):
    import demod.simulators.heating_simulators  # noqa
    th = ck.thorough
    hs = []
    for p in (0, 2, 3, 4):
        hs += [(p, 1, tuple((o,) for o in h)) for h in itertools.product(OCC, repeat=4 if th else 3)]
        hs += [(p, 1, ((a,), (b,), (c,), (d,))) for a, b, c, d in itertools.product(OCC[:3], repeat=4)]
        hs += [(p, 2, ((a, b), (c, d))) for a, b, c, d in itertools.product(OCC, repeat=4)]
        if th:
            hs += [(p, 2, h) for h in itertools.product([(x, y) for x in OCC[:3] for y in OCC[:3]], repeat=3)]
    hs = [h + (False,) for h in hs] + [h + (True,) for h in hs if h[1] == 1 and len(h[2]) == 3]
    # both sides of the probability of a change for comfort
    hs += [(p, 1, h, False, COMFORT[p] - 0.004, COMFORT[p] + 0.004) for p in (0, 2, 3)
           for h in (((OCC[1],), (OCC[2],), (OCC[3],)), ((OCC[2],), (OCC[2],)))]
    for j, s in enumerate(interleave(hs, 24)):
        ck.add('adjusting patterns #%d' % j, fluctuators, s)
    grids = ([0.11, 0.62], [0.03, 0.47], [0.53, 0.97]) + (([0.22, 0.78], [0.21, 0.51, 0.93]) if th else ())
    for p in (1, 5):
        for g in grids:
            for start, steps in ((T0, 150), (dt.datetime(2014, 3, 1, 23, 30), 60)):
                ck.add('constant %d %s %d' % (p, g, start.hour), constant, [(p, start, g, steps)])
    # both sides of every edge of the laws of the hours (multiples of 0.05)
    for p in (1, 5):
        for k in range(1, 20):
            ck.add('edges %d %d' % (p, k), constant, [(p, T0, [k / 20 - .01, k / 20 + .01], 145)])
    sets = list(itertools.product(range(6), repeat=2)) + [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (1, 1, 5, 5), (4, 1, 4)]
    for j, s in enumerate(interleave([(t, seed, 150) for t in sets for seed in range(12 if th else 4)], 8)):
        ck.add('mixed #%d' % j, mixed, s)
    ck.add('attribution', attribution, [(m, n) for m in (None, 'living lab', 'random') + LABELS for n in (1, 2, 3)])
    ck.rule = ('every history of %d occupancies for one household and every pair for two, for each adjusting pattern, all '
               'changes for comfort; law of whole days of the constant patterns; every pair of patterns side by side' % (4 if th else 3))
    ck.assumptions = ['two to three values of the uniform draws (quantiles) per draw']
