"""C14: lighting simulators."""
import itertools
import math

import numpy as np

from mc.choice import distribution, active, Fixed
from mc.util import law_diff, interleave

LEVEL = 'model_checking'

MIN_S, MAX_S = 'irradiation_threshold_min', 'irradiation_threshold_max'


# ------------------------------------------------------------------ Fisher
class FisherData:
    def __init__(self, lo, hi, use):
        self.d = {MIN_S: lo, MAX_S: hi, 'individual_light_use': use}

    def load_fisher_lighting(self):
        return dict(self.d)


def fisher_law(lo, hi, use, occ, irr):
    out = []
    for o in occ:
        if irr <= lo:
            f = 1.0
        elif irr >= hi:
            f = 0.0
        else:
            f = (hi - irr) / (hi - lo)
        out.append(o * use * f)
    return np.array(out)


def fisher(rec, scen):
    from demod.simulators.lighting_simulators import FisherLightingSimulator as Sim
    for lo, hi, use, n in scen:
        occs = list(itertools.product((0, 1, 3), repeat=n))
        irrs = [0.0, lo, (lo + hi) / 2, lo + (hi - lo) / 8, hi, hi + 100.0]
        # initial values
        for occ in [None] + occs:
            for irr in (None, 0.0, lo, (lo + hi) / 2, hi + 1):
                mine = None if occ is None else np.array(occ)
                sim = Sim(n, data=FisherData(lo, hi, use), initial_active_occupancy=mine, initial_irradiance=irr)
                if mine is not None:
                    mine[:] = 7
                want = fisher_law(lo, hi, use, (1,) * n if occ is None else occ, irr or 0.0)
                got = sim.get_power_consumption()
                rec.state((lo, hi, use, occ, irr))
                rec.transition()
                rec.expect(np.shape(got) == (n,) and np.allclose(got, want, rtol=1e-12, atol=1e-12),
                           'initial lighting demand differs from the formula',
                           {'thresholds': (lo, hi), 'use': use, 'active occupants': occ, 'irradiance': irr, 'got': got,
                            'want': want}, 'fisher init')
        # histories
        steps = [(o, i) for o in occs[:: max(1, len(occs) // 4)] for i in irrs]
        for h in itertools.product(steps, repeat=2):
            sim = Sim(n, data=FisherData(lo, hi, use), initial_active_occupancy=np.array(occs[0]), initial_irradiance=lo)
            mine = np.array(occs[0])
            for k, (occ, irr) in enumerate(h):
                mine[:] = occ  # the caller fills its array again
                sim.step(mine, irr)
                mine[:] = 7
                got = sim.get_power_consumption()
                want = fisher_law(lo, hi, use, occ, irr)
                rec.transition()
                rec.expect(np.shape(got) == (n,) and np.allclose(got, want, rtol=1e-12, atol=1e-12),
                           'lighting demand differs from the formula',
                           {'thresholds': (lo, hi), 'use': use, 'history (active occupants, irradiance)': h[:k + 1],
                            'got': got, 'want': want}, 'fisher step')
                rec.state((lo, hi, use, occ, irr))
            rec.trace()


# ------------------------------------------------------------------ CREST
LOW = np.array([1, 4, 2], dtype=int)
HIGH = np.array([1, 6, 3], dtype=int)


class CrestData:
    def __init__(self, configs=None, stats=None, bulbs=None, mean=60.0, std=10.0, cal=0.1, cdf=(0.25, 0.5, 1.0),
                 eff=(0.0, 1.0, 1.5, 9.0), low=LOW, high=HIGH):
        self.configs, self.stats, self.bulbs = configs, stats, bulbs
        self.light = dict(irradiance_threshold_mean=mean, irradiance_threshold_std=std, calibration_scalar=cal,
                          effective_occupancy=np.array(eff), durations_cdf=np.array(cdf),
                          durations_minutes_low=np.array(low), durations_minutes_high=np.array(high))

    def load_crest_lighting(self):
        return dict(self.light)

    def load_bulbs_config(self):
        return np.array(self.configs, dtype=float)

    def load_installed_bulbs_stats(self):
        return self.stats

    def load_bulbs(self):
        return np.array(self.bulbs[0], dtype=float), np.array(self.bulbs[1], dtype=float)


def pick(ch, cdf):
    u = ch.u01()
    return next(i for i, c in enumerate(cdf) if u < c)


def reference(ch, data, n, algo, seq, rounding, factor):
    """The documented behaviour, bulb by bulb: the demand of every household at every step."""
    L = data.light
    if algo == 'config':
        bulbs = [[p for p in data.configs[ch.integer(0, len(data.configs))]] for _ in range(n)]
    else:
        counts = [max(1, int(data.stats[0] + data.stats[1] * ch.normal())) for _ in range(n)]
        cum = np.cumsum(data.bulbs[1])
        bulbs = [[data.bulbs[0][pick(ch, cum)] for _ in range(c)] for c in counts]
    use = [[-factor * math.log(ch.u01()) for _ in b] for b in bulbs]
    thr = [L['irradiance_threshold_mean'] + L['irradiance_threshold_std'] * ch.normal() for _ in range(n)]
    left = [[0 for _ in b] for b in bulbs]

    def demand():
        return tuple(float(sum(p for p, t in zip(b, l) if t > 0 and not math.isnan(p))) for b, l in zip(bulbs, left))
    out = [demand()]
    for occ, irr in seq:
        for h in range(n):
            for b, p in enumerate(bulbs[h]):
                left[h][b] = max(left[h][b] - 1, 0)
                if occ[h] == 0:
                    left[h][b] = 0
                    continue
                if math.isnan(p) or left[h][b] > 0:
                    continue
                i = irr[h] if isinstance(irr, tuple) else irr
                if not (i < thr[h] or ch.u01() < 0.05):
                    continue
                if ch.u01() < L['effective_occupancy'][occ[h]] * use[h][b] * L['calibration_scalar']:
                    e = pick(ch, L['durations_cdf'])
                    left[h][b] = rounding(LOW[e] + ch.u01() * (HIGH[e] - LOW[e]))
        out.append(demand())
    return tuple(out)


def maker(version, dkw, n, algo):
    """The data, the factor of the relative uses and a constructor of the simulator."""
    from demod.simulators import lighting_simulators, crest_simulators
    data = CrestData(**dkw)
    if version == 'lighting':
        return data, 2.30258509299404, lambda: lighting_simulators.CrestLightingSimulator(n, data=data, bulbs_sampling_algo=algo)

    class Old(crest_simulators.CRESTLightingSimulator):
        def get_bulbs_configuration(self, data=None):
            return np.array(dkw['configs'], dtype=float)[np.random.randint(0, len(dkw['configs']), size=self.n_households)]
    Old.get_durations_cdf = lambda self, *a, **k: (data.light['durations_cdf'], LOW.copy(), HIGH.copy())
    data.light.update(CRESTLIKE)
    return data, 1.0, lambda: Old(n)


def crest(rec, scen):
    for version, dkw, n, algo, occs, irrs, depth, grid in scen:
        data, factor, make = maker(version, dkw, n, algo)
        for seq in itertools.product(itertools.product(itertools.product(occs, repeat=n), irrs), repeat=depth):
            def run(ch):
                sim = make()
                out = [sim.get_power_demand()]
                for occ, irr in seq:
                    sim.step(np.array(occ), np.array(irr) if isinstance(irr, tuple) else irr)
                    out.append(sim.get_power_demand())
                    if not np.array_equal(out[-1], sim.get_thermal_gains()):
                        return 'thermal gains are not the lighting demand'
                rec.transition(depth)
                return tuple(tuple(float(x) for x in r) for r in out)
            got, runs = distribution(run, grid=grid)
            rec.trace(runs)
            want, _ = distribution(lambda ch: reference(ch, data, n, algo, seq, int, factor), grid=grid)
            for s in got:
                rec.state((version, n, algo, repr(dkw), s))
            if not rec.expect(got == want, 'law of the lighting demand differs',
                              lambda: {'simulator': version, 'bulbs': algo, 'data': dkw,
                                       'history (active occupants, irradiance)': seq,
                                       'got,want': dict(list(law_diff(got, want).items())[:4])},
                              'crest %s %s' % (version, algo)):
                return
    rec.sample({'simulator': version, 'n': n, 'bulbs': algo, 'history': seq})


CRESTLIKE = dict(irradiance_threshold_mean=60.0, irradiance_threshold_std=10.0, calibration_scalar=0.008153686396677,
                 effective_occupancy=np.array([0.000, 1.000, 1.528, 1.694, 1.983, 2.094]))


def durations(rec, scen):
    """How long bulbs switched on together burn, for every duration interval and draw."""
    for version, cdf, grid, powers, n in scen:
        data, _, make = maker(version, dict(configs=[powers], cal=1e9, cdf=cdf), n, 'config')

        def run(ch):
            with active(Fixed(3)):
                sim = make()
            sim.calibration_scalar = 1e9
            out = []
            for k in range(9):
                if k:
                    # after the first step the bulbs cannot be switched on again
                    sim.calibration_scalar = 0.0
                    with active(Fixed(k)):
                        sim.step(np.full(n, 1), 0.0)
                else:
                    sim.step(np.full(n, 1), 0.0)
                out.append(tuple(map(float, sim.get_power_demand())))
            rec.transition(9)
            return tuple(out)

        def ref(ch):
            ds = []
            for _ in range(n * len(powers)):
                e = pick(ch, cdf)
                ds.append(int(LOW[e] + ch.u01() * (HIGH[e] - LOW[e])))
            m = len(powers)
            return tuple(tuple(float(sum(p for p, d in zip(powers, ds[h * m:]) if d > k)) for h in range(n))
                         for k in range(9))
        got, runs = distribution(run, grid=grid)
        want, _ = distribution(ref, grid=grid)
        rec.trace(runs)
        rec.state((version, cdf, grid))
        rec.expect(got == want, 'durations of the bulbs differ', lambda: {'simulator': version, 'cdf': cdf, 'got,want': law_diff(got, want)},
                   'durations')


def long_durations(rec, scen):
    """Durations of hours."""
    for low, high, cdf in scen:
        data, _, make = maker('lighting', dict(configs=[[40.0]], cal=1e9, cdf=cdf, low=low, high=high), 1, 'config')

        def run(ch):
            with active(Fixed(3)):
                sim = make()
            for k in range(400):
                if k:
                    sim.calibration_scalar = 0.0
                    with active(Fixed(k)):
                        sim.step(np.full(1, 1), 0.0)
                else:
                    sim.step(np.full(1, 1), 0.0)
                if sim.get_power_demand()[0] == 0.0:
                    break
            rec.transition(k)
            rec.state((low, high, cdf, k))
            return k

        def ref(ch):
            e = pick(ch, cdf)
            return int(low[e] + ch.u01() * (high[e] - low[e]))
        got, runs = distribution(run, grid=8)
        want, _ = distribution(ref, grid=8)
        rec.trace(runs)
        rec.expect(got == want, 'durations of the bulbs differ', lambda: {'low': low, 'high': high, 'cdf': cdf, 'got,want': law_diff(got, want)},
                   'durations')


def drawn(rec, scen):
    """The joint law of the bulbs, relative uses and thresholds that households are given."""
    for version, dkw, n, algo, irrs, cals in scen:
        data, factor, make = maker(version, dkw, n, algo)
        L = data.light

        def run(ch):
            sim = make()
            ch.set_grid([0.5])  # no more choices
            out = []
            for cal, irr in itertools.product(cals, irrs):
                sim.calibration_scalar = cal
                sim.step(np.full(n, 1), irr)
                out.append(tuple(map(float, sim.get_power_demand())))
            rec.transition(len(out))
            return tuple(out)

        def ref(ch):
            if algo == 'config':
                bulbs = [data.configs[ch.integer(0, len(data.configs))] for _ in range(n)]
            else:
                counts = [max(1, int(data.stats[0] + data.stats[1] * ch.normal())) for _ in range(n)]
                bulbs = [[data.bulbs[0][pick(ch, np.cumsum(data.bulbs[1]))] for _ in range(c)] for c in counts]
            use = [[-factor * math.log(ch.u01()) for _ in b] for b in bulbs]
            thr = [L['irradiance_threshold_mean'] + L['irradiance_threshold_std'] * ch.normal() for _ in range(n)]
            # bulbs burn a step
            return tuple(tuple(float(sum(p for p, u in zip(b, us) if irr < t and 0.5 < L['effective_occupancy'][1] * u * cal))
                               for b, us, t in zip(bulbs, use, thr)) for cal, irr in itertools.product(cals, irrs))
        grid = {0.2: 1, 0.7: 1}
        got, runs = distribution(run, grid=grid)
        want, _ = distribution(ref, grid=grid)
        rec.trace(runs)
        for s in got:
            rec.state((version, n, algo, repr(dkw), s))
        rec.expect(got == want, 'joint law of bulbs, relative uses and irradiance thresholds differs',
                   lambda: {'simulator': version, 'bulbs': algo, 'data': dkw, 'got,want': dict(list(law_diff(got, want).items())[:4])},
                   'drawn %s %s' % (version, algo))


def build(ck):
    import demod.simulators.lighting_simulators, demod.simulators.crest_simulators  # noqa
    th = ck.thorough
    fi = list(itertools.product((0.0, 10.0), (60.0, 200.0), (1.0, 37.5), (1, 2, 3) if th else (1, 2)))
    for j, s in enumerate(interleave(fi, 6)):
        ck.add('Fisher #%d' % j, fisher, s)
    g = {0.01: 1, 0.3: 9, 0.8: 10}
    g2 = {0.04: 1, 0.6: 19}
    one = dict(configs=[[40.0]])
    two = dict(configs=[[40.0, 7.0], [15.0, float('nan')]])
    rn = dict(stats=(1.5, 0.6), bulbs=((60.0, 8.0), (0.25, 0.75)))
    sc = []
    for irr in (0.0, 55.0, 60.0, 65.0, 80.0):
        sc.append(('lighting', one, 1, 'config', (0, 1, 2), (irr,), 2, g2))
        sc.append(('crest', one, 1, 'config', (0, 1, 2), (irr,), 2, {0.0001: 1, 0.6: 19}))
        sc.append(('lighting', {**one, 'cal': 0.4}, 1, 'config', (0, 1, 2), (irr,), 1, g))
        sc.append(('lighting', two, 1, 'config', (0, 1, 3), (irr,), 1, g2))
        sc.append(('lighting', rn, 1, 'randn', (1, 2), (irr,), 1, g2))
        sc.append(('lighting', {**one, 'std': 0.0}, 2, 'config', (0, 1), (irr,), 1, g2))
    sc.append(('lighting', {**one, 'std': 0.0}, 2, 'config', (0, 1), ((0.0, 80.0), (80.0, 0.0)), 1, g2))
    sc.append(('lighting', {**one, 'mean': 1000.0}, 1, 'config', (1,), (0.0,), 3, g2))
    sc.append(('crest', {**one}, 1, 'config', (1,), (0.0,), 3, {0.0001: 1, 0.6: 19}))
    sc.append(('lighting', {**rn, 'std': 0.0, 'mean': 1000.0}, 2, 'randn', (1,), (0.0,), 0, g2))
    sc.append(('lighting', {**two, 'std': 0.0, 'mean': 1000.0}, 2, 'config', (1,), (0.0,), 0, g2))
    if th:
        for irr in (0.0, 65.0, 80.0):
            sc.append(('lighting', one, 1, 'config', (0, 1, 2), (irr,), 2, g))
            sc.append(('lighting', {**two, 'std': 0.0}, 1, 'config', (0, 1), (irr,), 2, g2))
            sc.append(('lighting', {**one, 'std': 0.0}, 2, 'config', (0, 1), (irr,), 2, g2))
    for j, s in enumerate(sc):
        ck.add('bulbs #%d' % j, crest, [s])
    ck.add('durations', durations, [(v, c, k, (40.0,), 1) for v in ('lighting', 'crest')
                                    for c in ((0.25, 0.5, 1.0), (0.0, 1.0, 1.0), (0.5, 0.5, 1.0), (1.0, 1.0, 1.0))
                                    for k in ((4, 8) if th else (4,))])
    ck.add('long durations', long_durations, [((1, 17, 92), (1, 50, 259), (0.25, 0.5, 1.0)), ((28, 50, 60), (49, 59, 120), (0.125, 0.5, 1.0))])
    short = dict(cdf=(1.0, 1.0, 1.0))
    for j, (v, dkw, n, algo, cals) in enumerate([
            ('lighting', dict(configs=[[40.0, 7.0], [15.0, 3.0]]), 2, 'config', (1e9, 0.25)),
            ('lighting', rn, 2, 'randn', (1e9, 0.25)), ('lighting', one, 3, 'config', (1e9, 0.25)),
            ('crest', dict(configs=[[40.0, 7.0], [15.0, 3.0]]), 2, 'config', (1e9, 0.6)), ('crest', one, 3, 'config', (1e9, 0.6))]):
        ck.add('drawn %d' % j, drawn, [(v, {**dkw, **short}, n, algo, (45.0, 55.0, 65.0, 75.0), cals)])
    half = {0.2: 1, 0.7: 1}
    for j, (powers, n) in enumerate([((40.0, 7.0), 1), ((40.0,), 2)] + ([((40.0, 7.0, 3.0), 1), ((40.0,), 3)] if th else [])):
        ck.add('common durations %d' % j, durations, [(v, c, half, powers, n) for v in ('lighting', 'crest')
                                                       for c in ((0.5, 1.0, 1.0), (0.0, 1.0, 1.0), (0.5, 0.5, 1.0))])
    ck.rule = ('Fisher formula on every grid point and history of 2 steps; CREST bulbs: %d configurations, every sequence of '
               'active occupants and outcome of the draws, exact law of the household demand' % len(sc))
    ck.assumptions = ['stub lighting data; draws on weighted finite grids']
