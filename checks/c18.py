"""C18: heat demand, and the heating simulator composed of the five modules."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import active, Fixed, HarnessError
from mc.util import interleave
from checks._heat import (Data, SYSTEMS, BUILDINGS, DEADBAND, dynamics, demand, controls, outputs, consumption, thermostat, clip,
                          close)
from checks.c17 import make, scalar

LEVEL = 'model_checking'
NODES = ('building', 'interior', 'emitter', 'cylinder')
nan = float('nan')
ALGOS = ('heat_max_emmiters', 'room_estimation')


def alone(rec, scen):
    """HeatDemand on a grid of temperatures and targets; delivering it brings the nodes to the end of their dead bands."""
    from demod.simulators.heating_simulators import HeatDemand
    for kinds, minutes, algo, band in scen:
        sim, lanes = make(*kinds, minutes=minutes)
        n = len(lanes)

        class HS:  # the coefficients read from the heating system
            C_cyl = np.array([4200.0 * SYSTEMS[s]['cyl_volume'] for s, _ in lanes])
            h_loss = np.array([SYSTEMS[s]['cyl_loss'] for s, _ in lanes])
        hd = HeatDemand(n, HS, sim, step_size=dt.timedelta(minutes=minutes), heatdemand_algo=algo, deadbands=band)
        d0 = hd.get_heat_demand()
        rec.expect(close(d0['dhw'], [0.0] * n) and close(d0['space_heating'], [0.0] * n), 'heat is demanded before the first step',
                   {'demand': d0}, 'initial')
        grid = list(itertools.product((15.0, 21.0), (30.0, 55.0), (45.0, 58.0), (0.0, 600.0), (-5.0, 18.0), (19.0, 24.0)))
        for i in range(len(grid)):
            sel = [grid[(i + 11 * h) % len(grid)] for h in range(n)]
            out = grid[i][4]
            col = lambda j: np.array([s[j] for s in sel])  # noqa: E731
            T = {'interior': col(0), 'emitter': col(1), 'cylinder': col(2), 'building': col(0) - 3, 'cold_water': 10.0}
            tg = {'space_heating': col(5), 'dhw': np.full(n, 52.0), 'emitter': np.full(n, 48.0)}
            prev = hd.get_heat_demand()
            snap = {k: np.array(v) for k, v in prev.items()}
            hd.step(T, tg, col(3), out)
            got = hd.get_heat_demand()
            want = [demand(BUILDINGS[b], SYSTEMS[s], minutes * 60.0, scalar(T, h), scalar(tg, h), sel[h][3], out, algo, band)
                    for h, (s, b) in enumerate(lanes)]
            rec.transition()
            rec.state((lanes, minutes, algo, i))
            ok = rec.expect(all(close(got[k], [w[k] for w in want]) for k in ('dhw', 'space_heating')), 'heat demand differs',
                            lambda: {'lanes': lanes, 'minutes': minutes, 'algo': algo, 'temperatures': T, 'targets': tg,
                                     'dhw': col(3), 'outside': out, 'got': got, 'want': want}, 'demand')
            ok &= rec.expect(all(np.array_equal(prev[k], snap[k]) for k in snap), 'a demand obtained earlier has changed',
                             {'before': snap, 'now': prev}, 'history')
            # closed loop with the real building simulator
            sim.temperatures = {k: np.array(v) if np.ndim(v) else v for k, v in T.items()}
            z = np.zeros(n)
            sim.step(out, 0.0, col(3), z, z, z, {'space_heating': got['space_heating'], 'dhw': got['dhw']})
            new = sim.get_temperatures()
            ok &= rec.expect(close(new['cylinder'], tg['dhw'] + band['hot_water'], 1e-7),
                             'delivering the hot water demand does not bring the cylinder to its target',
                             lambda: {'minutes': minutes, 'got': new['cylinder'], 'target': tg['dhw'] + band['hot_water']}, 'loop dhw')
            if algo == ALGOS[0]:
                ok &= rec.expect(close(new['emitter'], tg['emitter'] + band['emitter'], 1e-7),
                                 'delivering the space heating demand does not bring the emitters to their target',
                                 lambda: {'minutes': minutes, 'got': new['emitter'], 'target': tg['emitter'] + band['emitter']},
                                 'loop space')
            if not ok:
                return
        rec.trace()


def five(systems, buildings, minutes, algo, homes=(20.0,), **kw):
    from demod.simulators.heating_simulators import FiveModulesHeatingSimulator
    n = max(len(systems), len(buildings))
    data = Data(systems=systems, buildings=buildings, homes=homes)
    key = (systems, buildings, minutes, algo, homes)
    for seed in [SEEDS[key]] if key in SEEDS else range(20000):
        with active(Fixed(seed)):
            sim = FiveModulesHeatingSimulator(n, 5.0, heatdemand_algo=algo, data=data,
                                              step_size=dt.timedelta(minutes=minutes), **kw)
        a, b = sim.heatingsystem.heating_types, sim.building_sim.building_types
        if set(a) == set(range(len(systems))) and set(b) == set(range(len(buildings))):
            SEEDS[key] = seed
            return sim, tuple((systems[i], buildings[j]) for i, j in zip(a, b))
    raise HarnessError('no draw gives all systems and buildings')


SEEDS = {}
# what a household gets in a step; fields: outside, irradiance (of the first household), dhw, occupants, light, appliances
WEATHER = ((-5.0, 0.0), (14.0, 500.0))
GAINS = ((0.0, 0.0, 0.0, 0.0), (400.0, 147.0, 60.0, 300.0), (900.0, 84.0, 0.0, 50.0))
# external inputs: name -> values for a household; the name is common to the households, the values are not
EXT = {
    'none': [{}],
    'target': [dict(target=nan), dict(target=26.0), dict(target=12.0)],
    'targets': [dict(tdict=(nan, nan)), dict(tdict=(25.0, nan)), dict(tdict=(nan, 35.0)), dict(tdict=(15.0, 70.0))],
    'total': [dict(total=nan), dict(total=0.0), dict(total=800.0), dict(total=9000.0), dict(total=1e6)],
    'outputs': [dict(odict=(nan, nan)), dict(odict=(500.0, nan)), dict(odict=(nan, 3000.0)), dict(odict=(0.0, 1200.0))],
    'space only': [dict(osh=nan), dict(osh=0.0), dict(osh=2500.0)],
    'dhw': [dict(dhw=nan), dict(dhw=0.0), dict(dhw=4000.0)],
    'sh': [dict(sh=nan), dict(sh=0.0), dict(sh=3000.0)],
    'total+dhw+sh': [dict(total=5000.0, dhw=nan, sh=nan), dict(total=nan, dhw=700.0, sh=nan), dict(total=2000.0, dhw=100.0, sh=nan),
                     dict(total=nan, dhw=nan, sh=1000.0), dict(total=nan, dhw=nan, sh=nan)],
    'outputs+dhw+sh': [dict(odict=(nan, 600.0), dhw=900.0, sh=nan), dict(odict=(800.0, nan), dhw=nan, sh=300.0),
                       dict(odict=(nan, nan), dhw=nan, sh=nan)],
    'outputs+dhw': [dict(odict=(500.0, nan), dhw=nan), dict(odict=(nan, 100.0), dhw=1500.0)],
    'space only+dhw': [dict(osh=nan, dhw=700.0), dict(osh=2500.0, dhw=nan), dict(osh=0.0, dhw=0.0)],
    'cylinder': [dict(cyl=nan), dict(cyl=35.0), dict(cyl=62.0)],
    'cylinder+target+dhw': [dict(cyl=nan, target=24.0, dhw=2000.0), dict(cyl=40.0, target=nan, dhw=nan),
                            dict(cyl=58.0, target=21.0, dhw=0.0)],
}


def ext_kwargs(sel):
    f = sel[0]
    a = lambda k: np.array([s[k] for s in sel])  # noqa: E731
    kw = {}
    if 'target' in f:
        kw['external_target_temperature'] = a('target')
    if 'tdict' in f:
        kw['external_target_temperature'] = {'space_heating': a('tdict')[:, 0], 'dhw': a('tdict')[:, 1]}
    if 'total' in f:
        kw['external_heat_outputs'] = a('total')
    if 'odict' in f:
        kw['external_heat_outputs'] = {'space_heating': a('odict')[:, 0], 'dhw': a('odict')[:, 1]}
    if 'osh' in f:
        kw['external_heat_outputs'] = {'space_heating': a('osh')}
    for k, name in (('dhw', 'external_dhw_outputs'), ('sh', 'external_sh_outputs'), ('cyl', 'external_cylinder_temperature')):
        if k in f:
            kw[name] = a(k)
    return kw


def isnan(x):
    return x is None or x != x


def share(total, c, d):
    """Split of an external heat output: hot water first, then space heating, what is left goes to the water."""
    dhw = clip(d['dhw'], 0.0, total) if c['heat_water_on'] and c['heater_on'] else 0.0
    sh = clip(d['space_heating'], 0.0, total - dhw) if c['space_heating_on'] and c['heater_on'] else 0.0
    return {'dhw': total - sh, 'space_heating': sh}


class Model:
    """Reference model of one household."""

    def __init__(self, system, building, minutes, algo, sim, h):
        self.s, self.b, self.dt, self.algo = SYSTEMS[system], BUILDINGS[building], minutes * 60.0, algo
        self.T = scalar(sim.get_temperatures(), h)
        self.tg = scalar(sim.get_target_temperatures(), h)
        self.th = {k: bool(v[h]) for k, v in sim.get_thermostat_states().items()}
        self.cyl = False
        self.c, self.d = controls(False, False, 0.0, dict.fromkeys(self.th, False)), {'dhw': 0.0, 'space_heating': 0.0}

    def step(self, weather, gains, e, seen):
        """seen: the states of the thermostats of the simulator, used only where round-off decides."""
        T, tg, band = self.T, self.tg, DEADBAND
        outside, irr = weather
        dhw, free = gains[0], sum(gains[1:])
        # an external output answers the demand and controls it could know: those before the step
        ext = {} if isnan(e.get('total')) else share(e['total'], self.c, self.d)
        if 'cyl' in e:
            self.cyl = not isnan(e['cyl'])
            if self.cyl:
                T['cylinder'] = e['cyl']
        for k, v in ([('space_heating', e.get('target'))] + list(zip(('space_heating', 'dhw'), e.get('tdict', ())))):
            if not isnan(v):
                tg[k] = v
        for k, node, t in (('hot_water', 'cylinder', 'dhw'), ('space_heating', 'interior', 'space_heating'),
                           ('emitter', 'emitter', 'emitter')):
            limit = tg[t] + band[k] if self.th[k] else tg[t] - band[k]
            tie = abs(T[node] - limit) < 1e-6
            self.th[k] = bool(seen[k]) if tie else thermostat(self.th[k], T[node], tg[t], band[k])
        self.c = controls(self.s['is_combi'], self.cyl, dhw, self.th)
        self.d = demand(self.b, self.s, self.dt, T, tg, dhw, outside, self.algo, band)
        own = outputs(self.s, self.c, self.d)
        for k, v in list(zip(('space_heating', 'dhw'), e.get('odict', ()))) + [('space_heating', e.get('osh')),
                                                                               ('dhw', e.get('dhw')), ('space_heating', e.get('sh'))]:
            if not isnan(v):
                ext[k] = v
        out = {**own, **ext}
        out['total'] = out['dhw'] + out['space_heating']
        self.out = out
        self.power = 0.0 if ext else consumption(self.s, self.c, own)['power']
        self.T = dynamics(self.b, self.s, self.dt, T, outside, irr, dhw, free, out)
        water = self.d['dhw']
        if self.cyl:
            water = dhw * (tg['dhw'] - self.T['cold_water']) + self.s['cyl_loss'] * (self.T['cylinder'] - self.T['interior'])
        self.water = water if self.c['heat_water_on'] else 0.0
        self.space = self.d['space_heating'] if self.c['space_heating_on'] else 0.0


def observe(sim):
    o = {'get_' + k: getattr(sim, 'get_' + k)() for k in
         ('room_temperature', 'dhw_heat_demand', 'sh_heat_demand', 'total_heat_demand', 'power_demand', 'energy_consumption')}
    for k in ('controls', 'heat_outputs', 'temperatures', 'target_temperatures', 'thermostat_states'):
        o.update({'%s %s' % (k, x): v for x, v in getattr(sim, 'get_' + k)().items()})
    return o


def expected(ms):
    """Observables of the reference models after a step."""
    a = lambda f: np.array([f(m) for m in ms], dtype=float)  # noqa: E731
    o = {'get_room_temperature': a(lambda m: m.T['interior']), 'get_dhw_heat_demand': a(lambda m: m.water),
         'get_sh_heat_demand': a(lambda m: m.space), 'get_total_heat_demand': a(lambda m: m.water + m.space),
         'get_power_demand': a(lambda m: m.power), 'get_energy_consumption': a(lambda m: m.power)}
    for k in ms[0].c:
        o['controls ' + k] = a(lambda m: m.c[k])
    for k in ms[0].out:
        o['heat_outputs ' + k] = a(lambda m: m.out[k])
    for k in NODES:
        o['temperatures ' + k] = a(lambda m: m.T[k])
    for k in ms[0].tg:
        o['target_temperatures ' + k] = a(lambda m: m.tg[k])
    for k in ms[0].th:
        o['thermostat_states ' + k] = a(lambda m: m.th[k])
    return o


def composed(rec, scen):
    """Histories of inputs, one variety of external inputs (or none) per step."""
    for kinds, minutes, algo, hist, start in scen:
        sim, lanes = five(*kinds, minutes, algo)
        n = len(lanes)
        if start is not None:
            # start where thermostats, controls and capacities matter
            sim.building_sim.temperatures = {k: np.full(n, v) for k, v in start.items()}
            sim.building_sim.temperatures['cold_water'] = 10.0
        models = [Model(s, b, minutes, algo, sim, h) for h, (s, b) in enumerate(lanes)]
        rec.expect(all(np.all(np.asarray(sim.get_heat_outputs()[k]) == 0) for k in ('dhw', 'space_heating', 'total')),
                   'heat is delivered before the first step', {}, 'initial')
        kept = None
        for t, (w, g, name, v) in enumerate(hist):
            sel = [EXT[name][(v + h) % len(EXT[name])] for h in range(n)]
            gains = [GAINS[(g + h) % len(GAINS)] for h in range(n)]
            kw = ext_kwargs(sel)
            given = {k: {x: y.copy() for x, y in a.items()} if isinstance(a, dict) else a.copy() for k, a in kw.items()}
            G = np.array(gains)
            sim.step(*WEATHER[w], G[:, 0], G[:, 1], G[:, 2], G[:, 3], **kw)
            seen = sim.get_thermostat_states()
            for h, m in enumerate(models):
                m.step(WEATHER[w], gains[h], sel[h], {k: y[h] for k, y in seen.items()})
            got, want = observe(sim), expected(models)
            bad = [k for k in want if k not in got or not close(got[k], want[k], 1e-7)]
            rec.transition()
            ok = rec.expect(not bad, 'heating simulation differs from the composition of its modules: %s' % ', '.join(bad[:1]),
                            lambda: {'lanes': lanes, 'minutes': minutes, 'algo': algo, 'start': start,
                                     'history (weather, gains, external, variant)': hist[:t + 1], 'external': sel, 'differs': bad,
                                     'got': {k: got.get(k) for k in bad}, 'want': {k: want[k] for k in bad}}, 'step')
            same_in = all(a.keys() == given[k].keys() for k, a in kw.items() if isinstance(a, dict)) and all(np.array_equal(a[x], y, equal_nan=True) for k, a in kw.items() if isinstance(a, dict)
                          for x, y in given[k].items()) and all(
                np.array_equal(a, given[k], equal_nan=True) for k, a in kw.items() if not isinstance(a, dict))
            ok &= rec.expect(same_in, 'the external inputs given were modified', lambda: {'given': given, 'now': kw}, 'inputs')
            if kept is not None:
                ok &= rec.expect(all(np.array_equal(kept[0][k], kept[1][k]) for k in kept[0]),
                                 'values obtained earlier have changed',
                                 lambda: {'which': [k for k in kept[0] if not np.array_equal(kept[0][k], kept[1][k])]}, 'kept')
            kept = got, {k: np.array(x) for k, x in got.items()}
            rec.state((lanes, minutes, algo, start is None, hist[:t + 1]))
            if not ok:
                return
        rec.trace()


def replaced(rec, scen):
    """An external heating system given once: the coefficients of its cylinder and its controls are used."""
    from demod.simulators.heating_simulators import HeatingSystem
    for kinds, other, minutes, hist in scen:
        sim, lanes = five(*kinds, minutes, ALGOS[0])
        n = len(lanes)
        with active(Fixed(0)):
            new = HeatingSystem(n, data=Data(systems=(other,)))
        sim.set_external_heating_system(new)
        p = sim.get_power_demand()
        rec.expect(close(p, [0.0] * n), 'power is demanded with an external heating system', {'power': p}, 'external power')
        models = [Model(other, b, minutes, ALGOS[0], sim, h) for h, (_, b) in enumerate(lanes)]
        for t, (w, g, v) in enumerate(hist):
            gains = [GAINS[(g + h) % len(GAINS)] for h in range(n)]
            G = np.array(gains)
            out = np.array([(0.0, 4000.0, 20000.0)[(v + h) % 3] for h in range(n)])
            sim.step(*WEATHER[w], G[:, 0], G[:, 1], G[:, 2], G[:, 3], external_heat_outputs=out)
            seen = sim.get_thermostat_states()
            for h, m in enumerate(models):
                m.step(WEATHER[w], gains[h], dict(total=out[h]), {k: y[h] for k, y in seen.items()})
            got, want = observe(sim), expected(models)
            bad = [k for k in want if k not in got or not close(got[k], want[k], 1e-7)]
            rec.transition()
            rec.state((lanes, other, minutes, hist[:t + 1]))
            if not rec.expect(not bad, 'with an external heating system, the simulation differs from its modules',
                              lambda: {'lanes': lanes, 'external system': other, 'history': hist[:t + 1], 'differs': bad,
                                       'got': {k: got.get(k) for k in bad}, 'want': {k: want[k] for k in bad}}, 'replaced'):
                return
        rec.trace()


def build(ck):
    import demod.simulators.heating_simulators  # noqa
    th = ck.thorough
    lanes = ((('gas',), ('house',)), (('pump',), ('flat',)), (('combi',), ('house',)),
             (('combi', 'pump', 'gas'), ('house', 'flat')))
    bands = (DEADBAND, {'space_heating': 2.0, 'hot_water': 3.0, 'emitter': 6.0})
    ck.add('heat demand alone', alone, list(itertools.product(lanes, (1, 10, 0.5), ALGOS, bands)))
    one = [(w, g, name, v) for name in EXT for v in range(len(EXT[name])) for w in range(2) for g in range(3)]
    few = [(w, g, name, v) for name in EXT for v in range(len(EXT[name])) for w, g in ((0, 0), (1, 1))]
    cold = dict(building=12.0, interior=17.0, emitter=30.0, cylinder=40.0)
    hot = dict(building=19.0, interior=22.0, emitter=55.0, cylinder=60.0)
    hs = []
    for l, m, a in itertools.product(lanes, (1, 10), ALGOS):
        for st in (None, cold, hot):
            hs += [(l, m, a, (x,), st) for x in one]
        # pairs; the cylinder is external in all steps or in none
        for x, y in itertools.product(few, repeat=2):
            if ('cylinder' in x[2]) == ('cylinder' in y[2]) and (m, a) in ((1, ALGOS[0]), (10, ALGOS[1])):
                hs.append((l, m, a, (x, y), cold if x[1] else hot))
    plain = [(w, g, 'none', 0) for w in range(2) for g in range(3)]
    for l in lanes:
        hs += [(l, 10, ALGOS[0], h, cold) for h in itertools.product(plain, repeat=4 if th else 3)]
    if th:
        hs += [(l, 10, ALGOS[0], h, cold) for l in lanes[::3] for h in itertools.product(few, repeat=3)
               if len({'cylinder' in x[2] for x in h}) == 1 and len({x[2] for x in h}) > 1]
    for j, s in enumerate(interleave(hs, 64 if th else 24)):
        ck.add('composition #%d' % j, composed, s)
    ck.add('external heating system', replaced, [(l, o, m, h) for l in lanes for o in ('gas', 'combi', 'heater') for m in (1, 10)
                                                 for h in itertools.product(itertools.product(range(2), range(2), range(3)), repeat=2)])
    ck.rule = ('every step from 3 starting points over %d inputs (weather, gains, hot water, %d varieties of external targets, '
               'outputs and cylinders with and without nan), every pair of %d of them, every sequence of %d plain steps; '
               'heat demand on a grid of %d points in closed loop with the building' % (len(one), len(EXT), len(few), 4 if th else 3, 64))
    ck.assumptions = ['stub buildings and heating systems', 'external cylinders are external in all the steps of a history or in none',
                      'equality to 1e-7 relative; a thermostat within 1e-6 degrees of its limit may be on or off']
