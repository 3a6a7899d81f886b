"""Stub heating datasets and reference models for the heating checks (C15-C18)."""
import numpy as np

SYSTEMS = {
    'gas': dict(is_combi=False, fuel_type='Mainsgas', fuel_flow_rate=2.5, flow_rate_to_W=30000.0, heat_output_sh=20000.0,
                heat_output_dhw=24000.0, standby_power=10.0, pump_power=20.0, cyl_volume=125.0, cyl_loss=2.0),
    'combi': dict(is_combi=True, fuel_type='Mainsgas', fuel_flow_rate=1.5, flow_rate_to_W=18000.0, heat_output_sh=15000.0,
                  heat_output_dhw=15000.0, standby_power=8.0, pump_power=25.0, cyl_volume=5.0, cyl_loss=0.5),
    'pump': dict(is_combi=False, fuel_type='Electricity', fuel_flow_rate=1.5, flow_rate_to_W=1500.0, heat_output_sh=3600.0,
                 heat_output_dhw=6000.0, standby_power=0.0, pump_power=30.0, cyl_volume=50.0, cyl_loss=1.0),
    'heater': dict(is_combi=True, fuel_type='Electricity', fuel_flow_rate=2.0, flow_rate_to_W=2000.0, heat_output_sh=2000.0,
                   heat_output_dhw=0.0, standby_power=1.0, pump_power=5.0, cyl_volume=50.0, cyl_loss=1.0),
    'none': dict(is_combi=False, fuel_type='Electricity', fuel_flow_rate=0.0, flow_rate_to_W=0.0, heat_output_sh=0.0,
                 heat_output_dhw=0.0, standby_power=0.0, pump_power=0.0, cyl_volume=5.0, cyl_loss=0.5),
}
BUILDINGS = {
    'house': dict(out_build_transfer_coef=200.0, build_int_transfer_coef=300.0, ventilation_transfer_coef=40.0,
                  ext_capacitance=2.0e7, int_capacitance=5.0e5, irradiance_multiplier=4.0, floor_area=80.0,
                  emitters_target_temperature=50.0, emitters_transfer_coef=150.0, emitters_capacitance=2.0e5),
    'flat': dict(out_build_transfer_coef=500.0, build_int_transfer_coef=350.0, ventilation_transfer_coef=10.0,
                 ext_capacitance=3.0e7, int_capacitance=1.2e6, irradiance_multiplier=1.5, floor_area=60.0,
                 emitters_target_temperature=45.0, emitters_transfer_coef=250.0, emitters_capacitance=3.0e5),
}
DEADBAND = {'space_heating': 1.0, 'hot_water': 5.0, 'emitter': 4.0}


class Data:
    """Stub dataset; kinds drawn with the given integer weights."""

    def __init__(self, systems=('gas',), buildings=('house',), homes=(20.0,), waters=(50.0,), emitter=48.0,
                 deadband=None, sw=None, bw=None):
        self.systems, self.buildings, self.homes, self.waters = systems, buildings, homes, waters
        self.emitter, self.deadband = emitter, deadband or DEADBAND
        self.sw, self.bw = sw or (1,) * len(systems), bw or (1,) * len(buildings)

    @staticmethod
    def _table(kinds, table, w):
        rows = [table[k] for k in kinds]
        return {**{k: np.array([r[k] for r in rows]) for k in rows[0]}, 'name': np.array(kinds),
                'equipped_prob': np.array(w, dtype=float) / sum(w), 'number': len(rows)}

    def load_heating_system_dict(self):
        return self._table(self.systems, SYSTEMS, self.sw)

    def load_buildings_dict(self):
        return self._table(self.buildings, BUILDINGS, self.bw)

    def load_thermostat_dict(self):
        u = lambda v: (np.arange(len(v)) + 1.0) / len(v)  # noqa: E731
        return {'home_temperatures_cdf': u(self.homes), 'home_temperatures_values': np.array(self.homes),
                'water_temperatures_cdf': u(self.waters), 'water_temperatures_values': np.array(self.waters),
                'emitter_setpoints': self.emitter, 'deadband': dict(self.deadband)}


# ------------------------------------------------- one household, scalar models
def thermostat(on, temperature, target, band):
    """Heats until target + band is reached, starts when target - band is reached."""
    return temperature < target + band if on else temperature <= target - band


def controls(combi, cylinder, dhw, th):
    water = dhw > 0 if (combi or cylinder) else th['hot_water']
    space = th['space_heating'] and th['emitter']
    return {'heat_water_on': bool(water), 'space_heating_on': bool(space), 'heater_on': bool(water or space)}


def clip(x, lo, hi):
    return min(max(x, lo), hi)


def outputs(s, c, demand):
    """Heat outputs of system s: hot water first, space heating with what remains."""
    dhw = clip(demand['dhw'], 0.0, s['heat_output_dhw']) if c['heater_on'] and c['heat_water_on'] else 0.0
    space = 0.0
    if c['heater_on'] and c['space_heating_on']:
        cap = s['heat_output_sh']
        if c['heat_water_on']:
            cap = clip(cap - dhw, 0.0, cap)
        space = clip(demand['space_heating'], 0.0, cap)
    return {'dhw': dhw, 'space_heating': space, 'total': dhw + space}


def consumption(s, c, out):
    """fraction of the rated consumption, electricity [W] and total energy [W]"""
    frac = 0.0
    if c['heater_on']:
        for k, m in (('dhw', 'heat_output_dhw'), ('space_heating', 'heat_output_sh')):
            if s[m] > 0:
                frac += out[k] / s[m]
    pump = s['pump_power'] if c['space_heating_on'] else s['standby_power']
    elec = 1000.0 * s['fuel_flow_rate'] * frac if s['fuel_type'] == 'Electricity' else 0.0
    gas = s['flow_rate_to_W'] * frac if s['fuel_type'] == 'Mainsgas' else 0.0
    fuel = s['fuel_flow_rate'] / 3600.0 * frac if s['fuel_type'] == 'Mainsgas' else elec
    return {'fuel': fuel, 'power': pump + elec, 'energy': pump + elec + gas, 'pump': pump}


def dynamics(b, s, dt, T, outside, irradiance, dhw, gains, out):
    """Explicit Euler step of the four thermal nodes: heat exchanged with each neighbour."""
    flow = lambda h, a, c: h * (a - c)  # heat from a to c  # noqa: E731
    ob = flow(b['out_build_transfer_coef'], outside, T['building'])
    bi = flow(b['build_int_transfer_coef'], T['building'], T['interior'])
    vent = flow(b['ventilation_transfer_coef'], outside, T['interior'])
    em = flow(b['emitters_transfer_coef'], T['emitter'], T['interior'])
    cyl = flow(s['cyl_loss'], T['cylinder'], T['interior'])
    tap = flow(dhw, T['cylinder'], T['cold_water'])
    return {
        'building': T['building'] + dt / b['ext_capacitance'] * (ob - bi),
        'interior': T['interior'] + dt / b['int_capacitance'] * (
            bi + vent + em + cyl + irradiance * b['irradiance_multiplier'] + gains),
        'emitter': T['emitter'] + dt / b['emitters_capacitance'] * (out['space_heating'] - em),
        'cylinder': T['cylinder'] + dt / (4200.0 * s['cyl_volume']) * (out['dhw'] - cyl - tap),
        'cold_water': T['cold_water'],
    }


def demand(b, s, dt, T, target, dhw, outside, algo, band):
    """Heat that brings the node to the end of its dead band in one step."""
    water = (4200.0 * s['cyl_volume'] / dt * (target['dhw'] + band['hot_water'] - T['cylinder'])
             + dhw * (T['cylinder'] - T['cold_water']) + s['cyl_loss'] * (T['cylinder'] - T['interior']))
    em = b['emitters_transfer_coef'] * (T['emitter'] - T['interior'])
    if algo == 'heat_max_emmiters' or outside is None:
        space = b['emitters_capacitance'] / dt * (target['emitter'] + band['emitter'] - T['emitter']) + em
    else:
        wall = 1.0 / (1.0 / b['build_int_transfer_coef'] + 1.0 / b['out_build_transfer_coef'])
        space = (b['int_capacitance'] / dt * (target['space_heating'] + band['space_heating'] - T['interior']) - em
                 + (b['ventilation_transfer_coef'] + wall) * (T['interior'] - outside))
    return {'dhw': water, 'space_heating': space}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def key(x):
    """A float as a hashable that ignores round-off."""
    return float('%.8g' % float(x)) + 0.0
