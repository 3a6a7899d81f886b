"""C17: thermal dynamics of the building."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import active, Fixed, distribution, HarnessError
from mc.util import interleave, law_diff
from checks._heat import Data, SYSTEMS, BUILDINGS, dynamics, close

LEVEL = 'model_checking'
NODES = ('building', 'interior', 'emitter', 'cylinder')


def make(systems, buildings, outside=5.0, minutes=1, target=20.0):
    """Households drawing one of the systems and buildings: (simulator, (system, building) of each household)."""
    from demod.simulators.heating_simulators import HeatingSystem, BuildingThermalDynamics
    n = max(len(systems), len(buildings))
    data = Data(systems=systems, buildings=buildings)
    for seed in range(20000):
        with active(Fixed(seed)):
            hs = HeatingSystem(n, data=data)
            sim = BuildingThermalDynamics(n, hs, outside, dt.timedelta(minutes=minutes),
                                          target_temperatures=np.full(n, target), data=data)
        if set(hs.heating_types) == set(range(len(systems))) and set(sim.building_types) == set(range(len(buildings))):
            return sim, tuple((systems[i], buildings[j]) for i, j in zip(hs.heating_types, sim.building_types))
    raise HarnessError('no draw gives all systems and buildings')


def scalar(T, h):
    return {k: float(np.asarray(v)[h] if np.ndim(v) else v) for k, v in T.items()}


def histories(rec, scen):
    """Every sequence of weather, gains, hot water and heat outputs."""
    for kinds, minutes, opts, hist in scen:
        sim, lanes = make(*kinds, minutes=minutes)
        n = len(lanes)
        T = [scalar(sim.get_temperatures(), h) for h in range(n)]
        before = sim.get_temperatures()
        snap = {k: np.array(v) for k, v in before.items()}
        for k, i in enumerate(hist):
            sel = [opts[(i + 5 * h) % len(opts)] for h in range(n)]
            out, irr = opts[i][0], opts[i][1]  # the same weather for all
            col = lambda j: np.array([s[j] for s in sel])  # noqa: E731
            sim.step(out, irr, col(2), col(3), col(4), col(5), {'space_heating': col(6), 'dhw': col(7), 'total': col(6) + col(7)})
            dtime = minutes * 60.0
            new = [dynamics(BUILDINGS[b], SYSTEMS[s], dtime, T[h], out, irr, sel[h][2], sel[h][3] + sel[h][4] + sel[h][5],
                            {'space_heating': sel[h][6], 'dhw': sel[h][7]}) for h, (s, b) in enumerate(lanes)]
            got = sim.get_temperatures()
            rec.transition()
            rec.state((lanes, minutes, hist[:k + 1]))
            ok = rec.expect(all(close(got[x], [t[x] for t in new]) for x in NODES), 'temperatures differ',
                            lambda: {'households (system, building)': lanes, 'minutes': minutes,
                                     'history (outside, irradiance, dhw, occupants, light, appliances, space, water)':
                                     [opts[x] for x in hist[:k + 1]], 'from': T, 'got': got, 'want': new}, 'dynamics')
            ok &= rec.expect(all(np.array_equal(np.asarray(before[x]), snap[x]) for x in snap),
                             'temperatures obtained earlier have changed', {'before': snap, 'now': before}, 'history')
            # heat stored = heat brought in
            for h, (s, b) in enumerate(lanes):
                bb, ss = BUILDINGS[b], SYSTEMS[s]
                g = scalar(got, h)
                stored = (bb['ext_capacitance'] * (g['building'] - T[h]['building'])
                          + bb['int_capacitance'] * (g['interior'] - T[h]['interior'])
                          + bb['emitters_capacitance'] * (g['emitter'] - T[h]['emitter'])
                          + 4200.0 * ss['cyl_volume'] * (g['cylinder'] - T[h]['cylinder']))
                brought = dtime * (sum(sel[h][3:8]) + irr * bb['irradiance_multiplier']
                                   - bb['out_build_transfer_coef'] * (T[h]['building'] - out)
                                   - bb['ventilation_transfer_coef'] * (T[h]['interior'] - out)
                                   - sel[h][2] * (T[h]['cylinder'] - T[h]['cold_water']))
                ok &= rec.expect(abs(stored - brought) <= 1e-6 * max(1.0, abs(brought), abs(stored)) + 1.0,
                                 'energy is not conserved', lambda: {'lane': lanes[h], 'stored': stored, 'brought': brought},
                                 'energy')
            if not ok:
                return
            T = [scalar(got, h) for h in range(n)]
            before, snap = got, {x: np.array(v) for x, v in got.items()}
        rec.trace()


def equilibrium(rec, scen):
    """Without gains, a house at the temperature of its surroundings stays there."""
    for kinds, minutes, t in scen:
        sim, lanes = make(*kinds, outside=t, minutes=minutes, target=t)
        z = np.zeros(len(lanes))
        sim.temperatures = {**{k: np.full(len(lanes), t) for k in NODES}, 'cold_water': t}
        for k in range(5):
            sim.step(t, 0.0, z + 70.0 * k, z, z, z, {'space_heating': z, 'dhw': z})
            rec.transition()
            got = sim.get_temperatures()
            rec.expect(all(close(got[x], z + t, 1e-12) for x in NODES), 'equilibrium is left',
                       lambda: {'lanes': lanes, 't': t, 'got': got}, 'equilibrium')
        rec.trace()
        rec.state((lanes, minutes, t))


def draws(rec, scen):
    """Law of the initial temperatures and of the buildings."""
    from demod.simulators.heating_simulators import HeatingSystem, BuildingThermalDynamics
    for kinds, w, n, target, outside in scen:
        data = Data(buildings=kinds, bw=w)
        g = sum(w) * 2

        def run(ch):
            with active(Fixed(0)):
                hs = HeatingSystem(n, data=data)
            kw = {} if target is None else {'target_temperatures': np.array(target[:n])}
            sim = BuildingThermalDynamics(n, hs, outside, data=data, **kw)
            T = sim.get_temperatures()
            a = tuple(tuple(round(scalar(T, h)[k], 6) for k in NODES + ('cold_water',)) for h in range(n))
            z = np.zeros(n)
            sim.step(outside, 100.0, z, z, z, z, {'space_heating': z, 'dhw': z})
            T = sim.get_temperatures()
            return a, tuple(tuple(round(scalar(T, h)[k], 6) for k in NODES) for h in range(n))

        def ref(ch):
            a, b = [], []
            for h in range(n):
                u = ch.u01() * sum(w)
                bu = BUILDINGS[kinds[next(i for i in range(len(w)) if u < sum(w[:i + 1]))]]
                tg = target[h] if target is not None else 20.0 + 2.0 * ch.normal()
                T = {'interior': tg - 1 + 2 * ch.u01(), 'building': (outside + tg) / 2.0, 'cold_water': 10.0}
                T['emitter'] = T['interior'] if T['interior'] >= tg else bu['emitters_target_temperature']
                T['cylinder'] = 50.0 + 2 * ch.u01()
                a.append(tuple(round(T[k], 6) for k in NODES + ('cold_water',)))
                T = dynamics(bu, SYSTEMS['gas'], 60.0, T, outside, 100.0, 0.0, 0.0, {'space_heating': 0.0, 'dhw': 0.0})
                b.append(tuple(round(T[k], 6) for k in NODES))
            return tuple(a), tuple(b)
        got, runs = distribution(run, grid=g)
        want, _ = distribution(ref, grid=g)
        rec.trace(runs)
        rec.transition(runs)
        rec.state((kinds, w, n, target, outside))
        rec.expect(got == want, 'law of the initial temperatures differs',
                   lambda: {'buildings': kinds, 'weights': w, 'target': target, 'outside': outside,
                            'got,want': dict(list(law_diff(got, want).items())[:4])}, 'initial')


def build(ck):
    import demod.simulators.heating_simulators  # noqa
    th = ck.thorough
    # outside, irradiance, dhw, occupants, lighting, appliances, space heating, hot water
    opts = [(-10.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0), (5.0, 0.0, 0.0, 147.0, 0.0, 0.0, 0.0, 0.0),
            (5.0, 300.0, 0.0, 0.0, 60.0, 0.0, 0.0, 0.0), (30.0, 800.0, 0.0, 0.0, 0.0, 500.0, 0.0, 0.0),
            (5.0, 0.0, 700.0, 0.0, 0.0, 0.0, 0.0, 0.0), (5.0, 0.0, 0.0, 0.0, 0.0, 0.0, 15000.0, 0.0),
            (5.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 12000.0), (12.0, 150.0, 350.0, 294.0, 120.0, 900.0, 4000.0, 3000.0)]
    lanes = ((('gas',), ('house',)), (('pump',), ('flat',)), (('combi', 'pump', 'gas'), ('house', 'flat')))
    hs = [(l, m, opts, h) for l in lanes for m in (1, 10, 0.5)
          for h in itertools.product(range(len(opts)), repeat=4 if th else 3)]
    for j, s in enumerate(interleave(hs, 16)):
        ck.add('dynamics #%d' % j, histories, s)
    ck.add('equilibrium', equilibrium, list(itertools.product(lanes, (1, 10, 60), (-5.0, 10.0, 21.5))))
    ck.add('initial', draws, list(itertools.product((('house', 'flat'),), ((1, 1), (0, 1)), (1,), (None, (18.0, 23.0)),
                                                    (-10.0, 25.0))) + [(('house', 'flat'), (1, 1), 2, (18.0, 23.0), 4.0)])
    ck.rule = 'every sequence of %d steps over %d inputs, 3 sets of households, 3 step sizes; law of the initial state' % (
        4 if th else 3, len(opts))
    ck.assumptions = ['stub buildings and heating systems; equality to 1e-9 relative']
