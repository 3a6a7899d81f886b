"""C27: the full load simulator against the composition of its parts, by hand."""
import datetime as dt
import itertools

import numpy as np

from checks import _heat
from checks.c14 import CrestData
from checks.c26 import Real, Crest, GEO
from checks.c31 import CrestWorld
from mc import zoo
from mc.choice import Fixed, active
from mc.util import same

LEVEL = 'model_checking'
M1 = dt.timedelta(minutes=1)
SGS = [{'n_residents': 1}, {'n_residents': 3}, {'n_residents': 1, 'household_type': 1}]
NAN = float('nan')
POWER, TOTAL, DHW, SH, TEMP = ('get_power_demand', 'get_total_heat_demand', 'get_dhw_heat_demand', 'get_sh_heat_demand',
                               'get_temperatures')


class Const(Fixed):
    """Every draw takes the same quantile: what is drawn does not depend on the order of the draws."""

    def __init__(self, u):
        super().__init__(0, grid=16, normals=[-.5, 1.])
        self.u = u

    def pick(self, n):
        k = min(int(self.u * n), n - 1)
        self.trace.append((k, n))
        return k


class Clear(Crest):
    def __init__(self):
        super().__init__(list(GEO)[0] if isinstance(GEO, dict) else 0, np.ones((2, 2)) / 2)

    def load_clearness_tpms(self):
        return self.tpm.copy(), np.array([.4, .99]), M1


class Data:
    """All what a full load simulator reads, in small."""

    def __init__(self, pdf, activity='transit', climate='real'):
        self.pdf = pdf
        self.parts = [zoo.app_data(zoo.APPS), CrestData(stats=(2., 1.), bulbs=([40., 11.], [.5, .5]), mean=1000., cal=.5),
                      _heat.Data(systems=zoo.HEAT[0], buildings=zoo.HEAT[1]),
                      zoo.Transit() if activity == 'transit' else CrestWorld([.3, .7], 2),
                      Real(144) if climate == 'real' else Clear()]
        self.transit, self.real = activity == 'transit', climate == 'real'

    def __getattr__(self, name):
        if name == 'step_size':
            return M1
        if name.startswith('__') or name == 'parts':
            raise AttributeError(name)
        for p in self.parts:
            if hasattr(p, name):
                return getattr(p, name)
        if name.startswith('load_'):
            def missing(*a, **k):
                raise NotImplementedError(name)
            return missing
        raise AttributeError(name)

    def load_population_subgroups(self, population_type=None, **k):
        if population_type == 'resident_number':
            return self.parts[3].load_population_subgroups(population_type)
        return [dict(s) for s in SGS], np.array(self.pdf), 1000


class Parts:
    """The parts of a full load, stepped by hand."""

    def __init__(self, n, start, data, heating=True, climate=True, temperature=5.):
        from demod.simulators.util import sample_population
        from demod.simulators import sparse_simulators as sp, crest_simulators as cs, weather_simulators as w
        from demod.simulators.appliance_simulators import OccupancyApplianceSimulator
        from demod.simulators.lighting_simulators import CrestLightingSimulator
        from demod.simulators.heating_simulators import FiveModulesHeatingSimulator
        sgs, pdf, _ = data.load_population_subgroups()
        counts = sample_population(n, pdf)
        if data.transit:
            self.act = sp.SubgroupsActivitySimulator(sgs, counts, subsimulator=sp.SparseTransitStatesSimulator,
                                                     start_datetime=start, data=data)
        else:
            self.act = cs.Crest4StatesModel(n, data=data, start_datetime=start)
        self.app = OccupancyApplianceSimulator(sgs, counts, initial_active_occupancy=self.act.get_active_occupancy(),
                                               start_datetime=start, data=data)
        self.cl = None
        if climate:
            self.cl = (w.RealInterpolatedClimate(start_datetime=start, step_size=M1, data=data) if data.real
                       else w.CrestClimateSimulator(data, start))
            temperature = self.cl.get_outside_temperature()
        self.light = CrestLightingSimulator(n, data=data, bulbs_sampling_algo='randn')
        self.heat = FiveModulesHeatingSimulator(n, temperature, data=data) if heating else None
        self.k, self.n = 0, n

    def step(self, temperature=None, irradiance=None, **ext):
        if self.cl:
            self.cl.step()
        temperature = self.cl.get_outside_temperature() if temperature is None else temperature
        irradiance = self.cl.get_irradiance() if irradiance is None else irradiance
        if self.k % 10 == 0:
            self.act.step()
        occ = self.act.get_active_occupancy()
        self.app.step(occ)
        self.light.step(occ, irradiance)
        if self.heat:
            self.heat.step(temperature, irradiance, self.app.get_dhw_heating_demand(), self.act.get_thermal_gains(),
                           self.light.get_thermal_gains(), self.app.get_thermal_gains(), **ext)
        self.k += 1

    def get(self, name):
        if name == POWER:
            return (self.app.get_power_demand() + self.light.get_power_demand()
                    + (self.heat.get_power_demand() if self.heat else 0.))
        return getattr(self.heat, name)()


def inputs(n):
    """External inputs of a step."""
    a = np.arange(n) * 400.
    return [{}, {'external_outside_temperature': -8.}, {'external_irradiance': 0.}, {'external_outside_temperature': 0.},
            {'external_target_temperature': np.where(np.arange(n) % 2, NAN, 27.)},
            {'external_heat_outputs': np.where(np.arange(n) % 2, a, NAN)},
            {'external_dhw_outputs': a + 100., 'external_sh_outputs': np.where(np.arange(n) % 2, NAN, 900.)},
            {'external_cylinder_temperature': np.where(np.arange(n) % 2, 40., NAN)}]


def by_hand(ext):
    out = dict(ext)
    return {('temperature' if k == 'external_outside_temperature' else 'irradiance' if k == 'external_irradiance' else k): v
            for k, v in out.items()}


def compare(rec, sim, ref, names, detail, key):
    for name in names:
        got, want = getattr(sim, name)(), ref.get(name)
        ok = (same(got, want, 1e-9) if not isinstance(want, dict)
              else set(got) == set(want) and all(same(got[k], want[k], 1e-9) for k in want))
        if not rec.expect(ok, '%s differs from the composition of the parts' % name,
                          lambda: {**detail(), 'getter': name, 'got': got, 'want': want}, key + ' ' + name):
            return False
    return True


def run(rec, data, n, start, u, exts, key, heating=True, climate=True, asked=None, base={}):
    from demod.simulators.load_simulators import LoadSimulator
    names = [POWER] + ([TOTAL, DHW, SH, TEMP] if heating else [])
    done = []

    def detail():
        return {'n': n, 'start': str(start), 'quantile': u, 'heating': heating, 'climate': climate,
                'inputs': [sorted(e) for e in done], 'pdf': data.pdf}
    with active(Const(u)):
        ref = Parts(n, start, data, heating, climate)
        sim = LoadSimulator(n, start_datetime=start, include_heating=heating, include_climate=climate, data=data)
        if not compare(rec, sim, ref, names, detail, key):
            return False
        for k, e in enumerate(exts):
            e = {**base, **e}
            done.append(e)
            sim.step(**{a: (v.copy() if hasattr(v, 'copy') else v) for a, v in e.items()})
            ref.step(**by_hand(e))
            rec.transition()
            if not rec.expect(sim.current_time == start + (k + 1) * M1 and sim.current_time_step == k + 1,
                              'the clock of the load simulator is wrong',
                              lambda: {**detail(), 'time': str(sim.current_time), 'step': sim.current_time_step}, 'clock'):
                return False
            ask = names if asked is None else [x for i, x in enumerate(names) if asked[k % len(asked)] >> i & 1]
            if not compare(rec, sim, ref, ask, detail, key):
                return False
            rec.state((n, str(start), u, heating, climate, k, tuple(np.round(sim.get_power_demand(), 6))) if POWER in ask
                      else (n, u, k))
        ok = compare(rec, sim, ref, names, detail, key)
    rec.trace()
    return ok


def histories(depth):
    """All the histories of external inputs."""
    def f(rec, scen):
        for pdf, n, start, u, kinds in scen:
            ins = inputs(n)
            for h in itertools.product(range(len(ins)) if kinds is None else kinds, repeat=depth):
                if not run(rec, Data(pdf), n, start, u, [ins[i] for i in h], 'inputs'):
                    return
        rec.sample({'inputs': [sorted(i) for i in ins], 'depth': depth})
    return f


def long(rec, scen):
    """Through several steps of the activities and through 4 am and midnight."""
    for pdf, n, start, u, steps, flags in scen:
        ins = inputs(n) if flags[0] else inputs(n)[:4]
        base = {} if flags[1] else {'external_outside_temperature': 3., 'external_irradiance': 50.}
        if not run(rec, Data(pdf), n, start, u, [ins[(k * k + 2 * k) // 3 % len(ins)] if k % 5 == 4 else {} for k in range(steps)],
                   'long', heating=flags[0], climate=flags[1], base=base):
            return
    rec.sample({'start': str(start), 'steps': steps})


def asking(rec, scen):
    """Whatever getters are called or not at each step."""
    for pdf, n, start, u, depth in scen:
        for asked in itertools.product((0, 1, 2, 4 + 8 + 16, 31), repeat=depth):
            if not run(rec, Data(pdf), n, start, u, [{}] * depth, 'asked', asked=asked):
                return


def datasets(rec, scen):
    """Other kinds of activity and climate data."""
    for activity, climate, n, start, u, steps in scen:
        if not run(rec, Data((.3, .7) if activity != 'transit' else (.25, .5, .25), activity, climate), n, start, u,
                   [{}] * steps, 'datasets %s %s' % (activity, climate)):
            return
    rec.sample({'activity': activity, 'climate': climate})


def missing(rec, scen):
    """Without climate, irradiance and temperature are needed; a step that is refused changes nothing."""
    from demod.simulators.load_simulators import LoadSimulator
    for pdf, n, start, u in scen:
        data = Data(pdf)
        full = {'external_outside_temperature': 3., 'external_irradiance': 50.}
        for h in itertools.product((0, 1, 2, 3), repeat=3):
            with active(Const(u)):
                sim = LoadSimulator(n, start_datetime=start, include_climate=False, data=data)
                ref = Parts(n, start, data, climate=False)
                for i in h:
                    if i == 3:
                        sim.step(**full)
                        ref.step(**by_hand(full))
                    else:
                        try:
                            sim.step(**dict(list(full.items())[:i] if i < 2 else list(full.items())[1:]))
                            rec.fail('a step without climate is accepted', {'given': i, 'history': h}, 'missing climate')
                            return
                        except ValueError:
                            pass
                    rec.transition()
                    rec.expect(sim.current_time == start + M1 * ref.k, 'a step that is refused advances the clock',
                               {'history': h}, 'refused clock')
                    if not compare(rec, sim, ref, [POWER, TOTAL, TEMP], lambda: {'history': h}, 'refused'):
                        return
                rec.state((h, n))
            rec.trace()


def logged(rec, scen):
    """The logger records one value per step: the one of the time the step starts from."""
    from demod.simulators.load_simulators import LoadSimulator
    from demod.simulators.base_simulators import SimLogger
    for pdf, n, start, u, steps, aggregated in scen:
        data = Data(pdf)
        with active(Const(u)):
            sim = LoadSimulator(n, start_datetime=start, data=data,
                                logger=SimLogger(POWER, TOTAL, 'current_time', aggregated=aggregated))
            ref = Parts(n, start, data)
            want = []
            for k in range(steps):
                want.append((ref.get(POWER), ref.get(TOTAL)))
                ref.step()
                sim.step()
                rec.transition()
        for i, name in enumerate((POWER, TOTAL)):
            got = np.asarray(sim.logger.get(name))
            w = np.array([x[i] for x in want])
            w = w.sum(axis=1) if aggregated else w
            rec.expect(got.shape == w.shape and np.allclose(got, w, rtol=1e-9, atol=1e-9),
                       'the logger of a load simulator does not record its history',
                       lambda: {'getter': name, 'got': got, 'want': w}, 'logged ' + name)
        rec.expect([str(t) for t in sim.logger.get('current_time')] == [str(start + k * M1) for k in range(steps)],
                   'the logged times are wrong', None, 'logged times')
        rec.trace()
        rec.state((n, u, steps, aggregated))


def build(ck):
    import demod.simulators.load_simulators  # noqa
    th = ck.thorough
    pdfs = [(.25, .5, .25), (.5, 0., .5), (0., 1., 0.)]
    four, odd = dt.datetime(2014, 1, 2, 4), dt.datetime(2014, 1, 2, 3, 52)
    us = (.1, .45, .8) if not th else (.03, .1, .2, .3, .45, .6, .7, .8, .95)
    hs = [(p, n, s, u, None) for p in pdfs[:2] for n in (3,) for s in (four,) for u in us]
    for j, h in enumerate(hs):
        ck.add('histories %d' % j, histories(2), [h])
    if th:
        for j, u in enumerate(us):
            ck.add('histories of 3 steps %d' % j, histories(3), [(pdfs[0], 2, four, u, None)])
    ls = [(p, n, s, u, 34 if not th else 130, fl) for p in pdfs for n in (1, 4) for s in (four, odd, dt.datetime(2014, 1, 3, 23, 45))
          for u in us for fl in ((True, True), (True, False), (False, True), (False, False))]
    for j in range(24):
        ck.add('long %d' % j, long, ls[j::24])
    for j, (u, fl) in enumerate(zip(us, ((True, True), (False, True), (True, False)))):
        ck.add('days %d' % j, long, [(pdfs[0], 2, (four, odd, dt.datetime(2014, 1, 3, 23, 45))[j], u, 1460 if not th else 4400, fl)])
    for j, u in enumerate(us):
        ck.add('asking %d' % j, asking, [(pdfs[0], 2, four, u, 3 if th else 2)])
        ck.add('missing %d' % j, missing, [(pdfs[0], 2, four, u)])
        ck.add('logged %d' % j, logged, [(p, n, s, u, 23, a) for p in pdfs for n in (1, 3) for s in (four, odd) for a in (False, True)])
        ck.add('datasets %d' % j, datasets, [('crest', 'real', 3, four, u, 12), ('transit', 'crest', 2, four, u, 12),
                                             ('crest', 'crest', 2, odd, u, 12)])
    ck.rule = ('all histories of %d steps of the external inputs (none, outside temperature, irradiance, target temperatures, '
            'heat outputs, hot water and space heating outputs, cylinder temperature) for %d quantiles of the draws; runs of %d '
            'steps from %d start times with and without heating and climate; all subsets of getters asked over %d steps; all '
            'sequences of 3 complete or incomplete steps without climate' % (3 if th else 2, len(us), 130 if th else 34, 3, 3 if th else 2))
    ck.assumptions = ['all draws of a run take the same quantile, so that the results do not depend on the order of the '
                          'draws; the laws of the parts are decided by their own checks',
                     'the activity simulator makes one step of 10 minutes every ten steps, the first with the first step']
