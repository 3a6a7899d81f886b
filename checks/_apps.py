"""Stub appliances, datasets and reference models for the appliance checks (C10-C13)."""
import datetime as dt

import numpy as np

DEFAULT = dict(
    name='A', type='thing', equipped_prob=1.0, related_activity='active_occupancy', inactive_switch_off=False,
    mean_elec_consumption=100.0, mean_water_consumption=0.0, uses_water=False, mean_duration=2.0,
    after_cycle_delay=0, standby_consumption=0, poisson_sampling_lambda_liters=0.0, target_cycle_year=0.0,
    switch_on_prob_crest=0.0, mean_power_factor=1.0, heat_gains_ratio=1.0)


def appliances(rows):
    """An appliance dictionary, in the format of the datasets, from a list of rows."""
    rows = [{**DEFAULT, 'name': 'APP%d' % i, **r} for i, r in enumerate(rows)]
    keys = sorted({k for r in rows for k in r})
    return {**{k: np.array([r.get(k, 'nan') for r in rows]) for k in keys}, 'number': len(rows)}


class Data:
    """Stub dataset: every load function given as an argument."""
    step_size = dt.timedelta(minutes=1)

    def __init__(self, rows, refresh=dt.time(4), profiles=None, ownership=None, activity=None, targets=None,
                 act_probs=None, act_starts=None, step=None):
        self.rows = rows
        self.refresh_time = refresh
        self.profiles = profiles or {}
        self._own, self._act, self._targets = ownership, activity, targets
        self._probs, self._starts = act_probs, act_starts
        self.asked = []
        if step is not None:
            self.step_size = step

    def load_appliance_dict(self):
        return appliances(self.rows)

    def load_real_profiles_dict(self, kind):
        return {t: {k: np.array(v, dtype=float) for k, v in d.items()} for t, d in self.profiles[kind].items()}

    def load_appliance_ownership_dict(self, subgroup):
        self.asked.append(('own', dict(subgroup)))
        return self._own(dict(subgroup))

    def load_activity_probability_profiles(self, subgroup):
        self.asked.append(('act', dict(subgroup)))
        return self._act(dict(subgroup))

    def load_yearly_target_switchons(self, subgroup):
        return self._targets(dict(subgroup))

    def load_activity_probabilities(self, subgroup):
        return self._probs(dict(subgroup))

    def load_daily_activity_starts(self, subgroup):
        return self._starts(dict(subgroup))


# families of subgroups that differ in one attribute or another: the i-th of each
FAMILIES = (
    lambda i: {'n_residents': i + 1},
    lambda i: {'n_residents': 2, 'household_type': i + 1},
    lambda i: {'household_type': 3 - i, 'n_residents': 1 + i // 2},
    lambda i: {'age': 5, 'n_residents': 1 + i % 2, 'life_situation': 7 + i // 2},
)


def family(f, m):
    return [FAMILIES[f](i) for i in range(m)]


def which(f, sg, m=4):
    """The number of a subgroup in its family, whatever its time attributes."""
    sg = {k: v for k, v in sg.items() if k not in ('weekday', 'quarter')}
    return family(f, m).index(sg)


class Feed:
    """Activities of successive steps: new arrays, or the same arrays filled again by their owner."""

    def __init__(self, dicts, reuse):
        self.dicts, self.reuse = dicts, reuse
        self.own = {k: v.copy() for k, v in dicts[0].items()}

    def __getitem__(self, k):
        if not self.reuse:
            return self.dicts[k]
        for a, v in self.dicts[k].items():
            self.own[a][:] = v
        return self.own


class RefApp:
    """One appliance of one household, from its documented life cycle.

    OFF --switch on--> ON for `duration` steps --> refresh for `delay` steps --> OFF
    """

    def __init__(self, row, owned, left=0, refresh=0, profile=None):
        self.r = {**DEFAULT, **row}
        self.owned, self.left, self.refresh, self.profile = owned, left, refresh, profile

    def on(self, duration=None):
        d = len(self.profile) if self.profile is not None else (
            self.r['mean_duration'] if duration is None else duration)
        self.left = d
        self.refresh = int(d + self.r['after_cycle_delay'])

    def tick(self):
        if self.left > 0:
            self.left -= 1
        if self.refresh > 0:
            self.refresh -= 1

    @property
    def used(self):
        return bool(self.owned and self.left > 0)

    @property
    def available(self):
        return bool(self.owned and self.left <= 0 and self.refresh <= 0)

    @property
    def power(self):
        if not self.owned:
            return 0.0
        if not self.used:
            return float(self.r['standby_consumption'])
        if self.profile is not None:
            return float(self.profile[int(len(self.profile) - self.left)])
        return float(self.r['mean_elec_consumption'])

    @property
    def water(self):
        return float(self.r['mean_water_consumption']) if self.used else 0.0


def observe(rec, sim, ref, ctx, key, water=True):
    """All observables of the simulator against the reference grid ref[h][a]."""
    usage = np.array([[a.used for a in h] for h in ref])
    power = np.array([[a.power for a in h] for h in ref])
    wat = np.array([[a.water for a in h] for h in ref])
    avail = np.array([[a.available for a in h] for h in ref])
    tot = power.sum(axis=1)
    ok = rec.expect(np.array_equal(sim.get_current_usage(), usage), 'appliances in use differ',
                    lambda: {**ctx(), 'got': sim.get_current_usage(), 'want': usage}, key)
    ok &= rec.expect(np.allclose(sim.get_current_power_consumptions(), power, rtol=1e-12, atol=1e-9),
                     'power of the appliances differs',
                     lambda: {**ctx(), 'got': sim.get_current_power_consumptions(), 'want': power}, key)
    ok &= rec.expect(all(np.allclose(x, tot, rtol=1e-12, atol=1e-9) for x in
                         (sim.get_power_demand(), sim.get_energy_consumption(), sim.get_thermal_gains())),
                     'household demand is not the sum over its appliances',
                     lambda: {**ctx(), 'got': [sim.get_power_demand(), sim.get_energy_consumption(),
                                               sim.get_thermal_gains()], 'want': tot}, key)
    if water:
        ok &= rec.expect(np.allclose(sim.get_current_water_consumptions(), wat, rtol=1e-12, atol=1e-9),
                         'water consumption differs',
                         lambda: {**ctx(), 'got': sim.get_current_water_consumptions(), 'want': wat}, key)
        ok &= rec.expect(np.allclose(sim.get_dhw_heating_demand(), wat.sum(axis=1) * 70.0, rtol=1e-12, atol=1e-9),
                         'hot water heating demand is not that of the water drawn',
                         lambda: {**ctx(), 'got': sim.get_dhw_heating_demand(), 'want': wat.sum(axis=1) * 70.0}, key)
    ok &= rec.expect(np.array_equal(sim.get_mask_available_appliances(), avail), 'available appliances differ',
                     lambda: {**ctx(), 'got': sim.get_mask_available_appliances(), 'want': avail}, key)
    return ok
