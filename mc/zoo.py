"""Small instances of the simulators, on stub datasets, driven by deterministic inputs.

An entry is (name, make, step): make(**kw) builds a simulator (kw: a logger, for those that accept one),
step(sim, k) performs its k-th step.  Everything random is drawn from numpy.random, by make and step only.
"""
import datetime as dt

import numpy as np

from checks import _apps, _heat, _indiv
from mc.util import pdf_of

M1, M10 = dt.timedelta(minutes=1), dt.timedelta(minutes=10)
OCC = np.array([[1, 0, 2], [0, 0, 2], [2, 1, 0], [1, 3, 1], [0, 1, 1], [2, 2, 2]])


def occ(k):
    return OCC[k % len(OCC)].copy()


V = 0   # the datasets made are different ones for each value


def rnd_tpm(T, S, seed, v=None):
    seed += 5 * (V if v is None else v)
    return np.array([[pdf_of([1 + (3 * t + 5 * i + 7 * j * j + seed) % 4 for j in range(S)]) for i in range(S)]
                     for t in range(T)])


def markov(**kw):
    from demod.simulators.activity_simulators import MarkovChain1rstOrder
    s = MarkovChain1rstOrder(3, 3, rnd_tpm(4, 3, 1), labels=np.array(['home', 'out', 'sleep']), **kw)
    s.initialize_starting_state(pdf_of([1, 1, 2]))
    return s


def semi(**kw):
    from demod.simulators.activity_simulators import SemiMarkovSimulator
    s = SemiMarkovSimulator(3, 3, rnd_tpm(4, 3, 2), rnd_tpm(4, 3, 5), **kw)
    s.initialize_starting_state(pdf_of([1, 1, 2]), rnd_tpm(1, 3, 0)[0])
    return s


def crest_occupancy(**kw):
    """As its docstring says, with its file access replaced."""
    from demod.simulators.crest_simulators import CrestOccupancySimulator

    class Sim(CrestOccupancySimulator):
        def __init__(self, n, **kw):
            from demod.simulators.activity_simulators import MarkovChain1rstOrder
            MarkovChain1rstOrder.__init__(self, n, 3, rnd_tpm(4, 3, 3), labels=np.array([0, 11, 1]), **kw)
    s = Sim(3, **kw)
    s.initialize_starting_state(pdf_of([1, 1, 1]))
    return s


def example(**kw):
    from demod.simulators.base_simulators import ExampleSimulator
    return ExampleSimulator(3, 4, **kw)


def time_example(**kw):
    from demod.simulators.base_simulators import TimeAwareExampleSimulator
    return TimeAwareExampleSimulator(3, 4, start_datetime=dt.datetime(2014, 1, 31, 3, 20), step_size=M10, **kw)


def individuals(semi=False):
    def make(**kw):
        from demod.simulators.activity_simulators import (MarkovChain1rstOrder, SemiMarkovSimulator,
                                                          SubgroupsIndividualsActivitySimulator)
        act, v = np.array(['away', 'sleeping', 'cook']), V

        def tpm(sg):
            seed = len(str(sorted(sg.items())))
            return rnd_tpm(144, 3, seed, v), act, pdf_of([1, 2, 1])

        def dur(sg):
            seed = len(str(sorted(sg.items())))
            return (rnd_tpm(144, 3, seed, v), rnd_tpm(144, 3, seed + 1, v), act, pdf_of([1, 2, 1]), rnd_tpm(1, 3, seed, v)[0])
        return SubgroupsIndividualsActivitySimulator(
            [{'n_residents': 1, 'household_type': 1}, {'n_residents': 2, 'household_type': 2}], [1, 2],
            data=_indiv.Data(tpm=tpm, semi=dur), start_datetime=dt.datetime(2014, 1, 31, 23, 40),
            step_size=M10, subsimulator=SemiMarkovSimulator if semi else MarkovChain1rstOrder, **kw)
    return make


class Transit:
    """Sparse occupancy data with random transitions."""

    def __init__(self):
        from checks.c31 import World
        self.w, self.v = World(1), V

    def load_sparse_tpm(self, subgroup):
        from demod.utils.sparse import SparseTPM
        _, lab, acts, pdf = self.w.load_sparse_tpm(subgroup)
        L = len(lab)
        rows = [(t, i, j, p) for t in range(144) for i in range(L) for j, p in
                zip(range(L), rnd_tpm(1, L, t + L, self.v)[0][i])]
        ti, fr, to, va = zip(*rows)
        return (SparseTPM(np.array(ti), np.array(fr), np.array(to), np.array(va), n_states=L, n_times=144), lab, acts,
                np.ones(L) / L)


def transit(**kw):
    from demod.simulators.sparse_simulators import SubgroupsActivitySimulator
    return SubgroupsActivitySimulator([{'n_residents': 1}, {'n_residents': 3}], [1, 2], data=Transit(),
                                      start_datetime=dt.datetime(2014, 1, 4, 3, 30), **kw)


def transit_one(**kw):
    from demod.simulators.sparse_simulators import SparseTransitStatesSimulator
    return SparseTransitStatesSimulator(3, {'n_residents': 3}, data=Transit(), start_datetime=dt.datetime(2014, 1, 4, 4, 20),
                                        **kw)


def four_states(**kw):
    from demod.simulators.crest_simulators import Crest4StatesModel
    from checks.c31 import CrestWorld
    return Crest4StatesModel(3, data=CrestWorld([.3, .7] if not V else [.6, .4], 2 - V), start_datetime=dt.datetime(2014, 1, 3, 23, 40), **kw)


APPS = [dict(type='k', mean_duration=2.0, after_cycle_delay=2, standby_consumption=3, switch_on_prob_crest=.5,
             mean_water_consumption=1.5, equipped_prob=.7),
        dict(type='tap', uses_water=True, mean_water_consumption=2.0, poisson_sampling_lambda_liters=4.0,
             switch_on_prob_crest=.5, mean_elec_consumption=0.0, related_activity='cook'),
        dict(type='fridge', related_activity='level', switch_on_prob_crest=.5),
        dict(type='tv', related_activity='cook', inactive_switch_off=True, switch_on_prob_crest=.5, standby_consumption=1)]
PROF = {'switchedON': {'tv': {'a': [100, 200, 300], 'e': [5, 6]}, 'k': {'b': [10, 20], 'c': [7, 7, 7], 'd': [1, 2]}}, 'full': {'fridge': {'f': [80, 0, 90, 5]}}}


def app_data(rows):
    half = np.array([[.5, .75, 1., .5], [.25, .5, .5, .5]]) / (1 + V)
    prof = {k: {t: {n: [x * (1 + V) for x in v] + [33] * V for n, v in d.items()} for t, d in f.items()} for k, f in PROF.items()}
    lev = .5 / (1 + V)
    rows = [{**r, 'mean_elec_consumption': r.get('mean_elec_consumption', 100.) * (1 + V)} for r in rows]
    return _apps.Data(rows, profiles=prof, refresh=dt.time(4),
                      ownership=lambda sg: {r['type']: r.get('equipped_prob', 1.) for r in rows},
                      activity=lambda sg: {k: np.full((4, 4), lev) for k in ('active_occupancy', 'cook', 'level')},
                      targets=lambda sg: {'oven': 50000., 'dish': 300., 'k': 100.},
                      act_probs=lambda sg: {'cook': half[0], 'wash': half[1]},
                      act_starts=lambda sg: {'cook': np.array([.5, .25, .25]), 'wash': np.array([.5, .5])})


SGS = [{'n_residents': 1}, {'n_residents': 2}]


def occupancy_apps(**kw):
    from demod.simulators.appliance_simulators import OccupancyApplianceSimulator
    return OccupancyApplianceSimulator([dict(s) for s in SGS], [1, 2], initial_active_occupancy=occ(0), data=app_data(APPS),
                                       start_datetime=dt.datetime(2014, 1, 1, 4, 2), **kw)


def states(k):
    o = occ(k)
    return {'cook': (o > 0).astype(float) * o, 'wash': (o > 1).astype(float)}


def activity_apps(**kw):
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator
    return ActivityApplianceSimulator(3, states(0), data=app_data(APPS), subgroups_list=[dict(s) for s in SGS],
                                      n_households_list=[1, 2], step_size=M1, **kw)


PROB = [dict(type='oven', related_activity='cook', mean_duration=2.0, inactive_switch_off=True, probabilistic=True,
             previous_activity='nan', previous_appliance_type='nan', standby_consumption=1),
        dict(type='dish', related_activity='cook', mean_duration=2.0, probabilistic=True, previous_activity='cook',
             previous_appliance_type='nan', mean_water_consumption=2.0),
        dict(type='tv', related_activity='cook', inactive_switch_off=True, probabilistic=False, previous_activity='nan',
             previous_appliance_type='nan', standby_consumption=1)]


def probabilistic_apps(**kw):
    from demod.simulators.appliance_simulators import ProbabiliticActivityAppliancesSimulator
    return ProbabiliticActivityAppliancesSimulator(
        3, states(0), data=app_data(PROB), subgroups_list=[dict(s) for s in SGS], n_households_list=[1, 2], step_size=M1,
        **kw)


def fisher(**kw):
    from demod.simulators.lighting_simulators import FisherLightingSimulator
    from checks.c14 import FisherData
    return FisherLightingSimulator(3, data=FisherData(10. - 5 * V, 200. + 40 * V, 37.5 / (1 + V)), initial_active_occupancy=occ(0),
                                   initial_irradiance=20., **kw)


def crest_light(**kw):
    from demod.simulators.lighting_simulators import CrestLightingSimulator
    from checks.c14 import CrestData
    return CrestLightingSimulator(3, data=CrestData(configs=[[40. + V, 7.], [15., 11. - V]], mean=1000., cal=.5 - .1 * V), **kw)


def irr(k):
    return (0., 30., 60., 500.)[k % 4]


HEAT = (('combi', 'pump', 'gas'), ('house', 'flat'))


def heat_data():
    return _heat.Data(systems=HEAT[0][V % 3:] + HEAT[0][:V % 3], buildings=HEAT[1][V % 2:] + HEAT[1][:V % 2],
                      homes=(20. + V,), deadband={k: d * (1 + V) for k, d in _heat.DEADBAND.items()})


def thermostats(**kw):
    from demod.simulators.heating_simulators import Thermostats
    return Thermostats(3, temps(0), data=_heat.Data(homes=(19. + V, 21.), waters=(50. + V,)), **kw)


def temps(k):
    return {'cylinder': np.array([40., 50., 60.]) + 7 * (k % 3) - 5, 'interior': np.array([18., 20., 22.]) + 2 * (k % 3) - 2,
            'emitter': np.array([40., 48., 56.]) - 6 * (k % 3), 'building': np.full(3, 16. + k), 'cold_water': 10.}


def th_step(s, k):
    s.step(temps(k + 1), np.array([19., 23., 24.]) if k % 2 else None)


def controls(**kw):
    from demod.simulators.heating_simulators import SystemControls
    return SystemControls(3, np.array([True, False, False]), **kw)


def onoff(k):
    f = lambda j: np.array([(k >> j) % 2, (k + j) % 2, 1], dtype=bool)  # noqa: E731
    return {'hot_water': f(0), 'space_heating': f(1), 'emitter': f(2)}


def heating_system(**kw):
    from demod.simulators.heating_simulators import HeatingSystem
    return HeatingSystem(3, data=heat_data(), **kw)


def hs_step(s, k):
    f = onoff(k + 1)
    s.step({'heater_on': f['hot_water'] | f['space_heating'], 'heat_water_on': f['hot_water'],
            'space_heating_on': f['space_heating']},
           {'dhw': np.array([0., 3000., 90000.]) * (k + 1), 'space_heating': np.array([5000., 0., 900.])})


def building(**kw):
    from demod.simulators.heating_simulators import BuildingThermalDynamics
    return BuildingThermalDynamics(3, heating_system(), 5., M10, target_temperatures=np.full(3, 20.),
                                   data=heat_data(), **kw)


def bd_step(s, k):
    a = np.array([0., 500., 1000.])
    s.step(-5. + k, irr(k), a, a[::-1].copy(), a / 3, a / 7, {'space_heating': a * 5, 'dhw': a * 3, 'total': a * 8})


def demand(**kw):
    from demod.simulators.heating_simulators import HeatDemand
    return HeatDemand(3, heating_system(), building(), step_size=M10, deadbands=_heat.DEADBAND, **kw)


def dm_step(s, k):
    s.step(temps(k + 1), {'space_heating': np.array([19., 20., 21.]), 'dhw': np.full(3, 52.), 'emitter': np.full(3, 48.)},
           np.array([0., 300., 600.]) * k, 5.)


def five(**kw):
    from demod.simulators.heating_simulators import FiveModulesHeatingSimulator
    return FiveModulesHeatingSimulator(3, 5., data=heat_data(), step_size=M10, **kw)


def fv_step(s, k):
    a = np.array([0., 500., 1000.])
    nan = float('nan')
    ext = [{'external_cylinder_temperature': np.array([nan, 45., 58.])}, {'external_target_temperature': np.array([nan, 25., 15.])}, {'external_heat_outputs': np.array([nan, 800., 0.])},
           {'external_dhw_outputs': np.array([100., nan, nan])}, {}][k % 5]
    s.step(-5. + k, irr(k), a, a[::-1].copy(), a / 3, a / 7, **ext)


def variable_thermostat(**kw):
    from demod.simulators.heating_simulators import VariableThermostatTemperatureSimulator
    return VariableThermostatTemperatureSimulator(3, occ(0), np.minimum(occ(0), 1), dt.datetime(2014, 1, 1, 3, 40),
                                                  **kw)


def real():
    from checks.c26 import Real

    class Other(Real):
        def all(self):
            return {k: v if k == 'datetime' else v + self.v for k, v in super().all().items()}
    d = Other()
    d.v = V
    return d


def climate(cls, **opts):
    def make(**kw):
        import demod.simulators.weather_simulators as W
        return getattr(W, cls)(data=real(), start_datetime=dt.datetime(2014, 1, 2, 3, 0), **opts, **kw)
    return make


def crest_climate(cls):
    def make(**kw):
        import demod.simulators.weather_simulators as W
        from checks.c26 import Crest, GEO, VALUES
        site = (list(GEO) if isinstance(GEO, dict) else range(len(GEO)))[V % len(GEO)]
        return getattr(W, cls)(data=Crest(site, rnd_tpm(1, 3, 1)[0]), start_datetime=dt.datetime(2014, 6, 1, 11, 58),
                               initial_clearness=VALUES[0], **kw)
    return make


def load(**opts):
    def make(**kw):
        from demod.simulators.load_simulators import LoadSimulator
        from checks.c27 import Data
        return LoadSimulator(3, dt.datetime(2014, 1, 2, 4, 0), data=Data([.4, .6][::-1 if V else 1], **opts), **kw)
    return make


def multi(**kw):
    from demod.simulators.base_simulators import MultiSimulator
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator
    s = MultiSimulator([ActivityApplianceSimulator(
        n, {k: v[:n] for k, v in states(0).items()}, data=app_data(APPS), subgroups_list=[{'n_residents': 1}],
        n_households_list=[n], step_size=M1) for n in (1, 2)], **kw)
    s.initialize_starting_state()
    return s


class Rows(dict):
    """A dictionary of arrays that can be sliced by household."""
    def __getitem__(self, i):
        return Rows({k: v[i] for k, v in self.items()}) if isinstance(i, slice) else dict.__getitem__(self, i)


def plain(s, k):
    s.step()


ZOO = [
    ('ExampleSimulator', example, lambda s, k: s.step(occ(k), 1)),
    ('TimeAwareExampleSimulator', time_example, lambda s, k: s.step(occ(k), 1)),
    ('MarkovChain1rstOrder', markov, plain), ('SemiMarkovSimulator', semi, plain),
    ('CrestOccupancySimulator', crest_occupancy, plain),
    ('SubgroupsIndividuals markov', individuals(), plain), ('SubgroupsIndividuals semi-Markov', individuals(True), plain),
    ('SparseTransitStatesSimulator', transit_one, plain), ('SubgroupsActivitySimulator', transit, plain), ('Crest4StatesModel', four_states, plain),
    ('OccupancyApplianceSimulator', occupancy_apps, lambda s, k: s.step(occ(k + 1))),
    ('ActivityApplianceSimulator', activity_apps, lambda s, k: s.step(states(k + 1))),
    ('ProbabiliticActivityAppliancesSimulator', probabilistic_apps, lambda s, k: s.step(states(k + 1))),
    ('FisherLightingSimulator', fisher, lambda s, k: s.step(occ(k + 1), irr(k))),
    ('CrestLightingSimulator', crest_light, lambda s, k: s.step(occ(k + 1), irr(k))),
    ('Thermostats', thermostats, th_step),
    ('SystemControls', controls, lambda s, k: s.step(np.array([0., 100., 10. * k]), onoff(k + 1))),
    ('HeatingSystem', heating_system, hs_step), ('BuildingThermalDynamics', building, bd_step),
    ('HeatDemand', demand, dm_step), ('FiveModulesHeatingSimulator', five, fv_step),
    ('VariableThermostatTemperatureSimulator', variable_thermostat,
     lambda s, k: s.step(occ(k + 1), np.minimum(occ(k + 1), 1))),
    ('MultiSimulator', multi, lambda s, k: s.step(Rows(states(k + 1)))),
    ('RealClimate', climate('RealClimate'), plain), ('RealInterpolatedClimate', climate('RealInterpolatedClimate', step_size=M10), plain),
    ('CrestIrradianceSimulator', crest_climate('CrestIrradianceSimulator'), plain),
    ('CrestClimateSimulator', crest_climate('CrestClimateSimulator'), plain),
    ('LoadSimulator', load(), plain), ('LoadSimulator crest', load(activity='crest', climate='crest'), plain),
]
