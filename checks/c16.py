"""C16: the heating system delivers, bounds and consumes."""
import itertools

import numpy as np

from mc.choice import active, Fixed, distribution, HarnessError
from mc.util import interleave, law_diff
from checks._heat import Data, SYSTEMS, outputs, consumption, close

LEVEL = 'model_checking'
B = (False, True)
CONTROLS = [dict(heater_on=h, heat_water_on=w, space_heating_on=s) for h, w, s in itertools.product(B, B, B)]


def arrays(rows):
    return {k: np.array([r[k] for r in rows]) for k in rows[0]}


def check(rec, sim, kinds, cs, ds, ctx):
    """Every observable of the simulator; household h has system kinds[h]."""
    want = [outputs(SYSTEMS[k], c, d) for k, c, d in zip(kinds, cs, ds)]
    use = [consumption(SYSTEMS[k], c, o) for k, c, o in zip(kinds, cs, want)]
    got = sim.get_heat_outputs()
    ok = rec.expect(all(close(got[x], [w[x] for w in want]) for x in ('dhw', 'space_heating', 'total')),
                    'heat outputs differ', lambda: {**ctx(), 'got': got, 'want': want}, 'outputs')
    fuel = sim.get_fuel_consumptions()
    types = {SYSTEMS[k]['fuel_type'] for k in kinds}
    ok &= rec.expect(set(map(str, fuel)) == types, 'fuels differ', lambda: {**ctx(), 'got': fuel, 'want': types}, 'fuel')
    for t in types:
        w = [u['fuel'] if SYSTEMS[k]['fuel_type'] == t else 0.0 for k, u in zip(kinds, use)]
        ok &= rec.expect(t in fuel and close(fuel[t], w), 'fuel consumption differs',
                         lambda: {**ctx(), 'fuel': t, 'got': fuel, 'want': w}, 'fuel')
    for name, x in (('get_pumps_power_consumptions', 'pump'), ('get_power_demand', 'power'),
                    ('get_energy_consumption', 'energy')):
        g = getattr(sim, name)()
        ok &= rec.expect(close(g, [u[x] for u in use]), '%s differs' % name,
                         lambda: {**ctx(), 'got': g, 'want': [u[x] for u in use]}, name)
    return ok


def construct(kinds, **kw):
    """A simulator whose households have the systems `kinds`, in some order: (simulator, kinds of the households)."""
    from demod.simulators.heating_simulators import HeatingSystem
    data = Data(systems=tuple(kinds))
    if kinds in SEEDS:
        with active(Fixed(SEEDS[kinds])):
            sim = HeatingSystem(len(kinds), data=data, **kw)
        return sim, tuple(kinds[i] for i in sim.heating_types)
    for seed in range(20000):
        with active(Fixed(seed)):
            sim = HeatingSystem(len(kinds), data=data, **kw)
        if set(sim.heating_types) == set(range(len(kinds))):
            SEEDS[kinds] = seed
            return sim, tuple(kinds[i] for i in sim.heating_types)
    raise HarnessError('no draw gives one household per system')


SEEDS = {}


def steps(rec, scen):
    """Every sequence of controls and demands."""
    for kinds, levels, depth, first in scen:
        opts = [(c, dict(dhw=a, space_heating=b)) for c in CONTROLS for a in levels for b in levels]
        for hist in itertools.product(opts, repeat=depth):
            if depth > 1 and opts.index(hist[0]) % first[1] != first[0]:
                continue
            sim, lanes = construct(kinds)
            n = len(kinds)
            for k in range(depth):
                # the households get rotations of the options
                i = opts.index(hist[k])
                sel = [opts[(i + 37 * h) % len(opts)] for h in range(n)]
                cs, ds = [s[0] for s in sel], [s[1] for s in sel]
                sim.step(arrays(cs), arrays(ds))
                rec.transition()
                rec.state((kinds, i))
                if not check(rec, sim, lanes, cs, ds, lambda: {'systems': kinds, 'history (first household)': hist[:k + 1],
                                                              'controls': cs, 'demands': ds}):
                    return
            rec.trace()


def initial(rec, scen):
    """The initial controls and demand."""
    for kinds in scen:
        n = len(kinds)
        off = CONTROLS[0]
        sim, lanes = construct(kinds)
        check(rec, sim, lanes, [off] * n, [dict(dhw=0.0, space_heating=0.0)] * n, lambda: {'systems': kinds, 'initial': None})
        for c, a, b in itertools.product(CONTROLS, (0.0, 2500.0, 1e6), (0.0, 2500.0, 1e6)):
            d = dict(dhw=a, space_heating=b)
            sim, lanes = construct(kinds, initial_controls=arrays([c] * n), initial_heat_demand=arrays([d] * n))
            rec.transition()
            rec.trace()
            rec.state((kinds, tuple(c.values()), a, b))
            if not check(rec, sim, lanes, [c] * n, [d] * n, lambda: {'systems': kinds, 'initial controls': c, 'demand': d}):
                return


def draws(rec, scen):
    """Each household draws its own system with the probabilities of the dataset."""
    from demod.simulators.heating_simulators import HeatingSystem
    for kinds, w, n in scen:
        on = arrays([CONTROLS[-1]] * n)
        d = arrays([dict(dhw=1000.0, space_heating=1e9)] * n)

        def run(ch):
            sim = HeatingSystem(n, data=Data(systems=kinds, sw=w))
            sim.step(on, d)
            o = sim.get_heat_outputs()
            e = sim.get_energy_consumption()
            return tuple((round(float(o['space_heating'][h]), 3), round(float(e[h]), 3), bool(sim.is_combi_boiler[h]))
                         for h in range(n))

        def ref(ch):
            out = []
            for _ in range(n):
                u = ch.u01() * sum(w)
                i = next(i for i in range(len(w)) if u < sum(w[:i + 1]))
                s = SYSTEMS[kinds[i]]
                o = outputs(s, CONTROLS[-1], dict(dhw=1000.0, space_heating=1e9))
                out.append((round(o['space_heating'], 3), round(consumption(s, CONTROLS[-1], o)['energy'], 3), s['is_combi']))
            return tuple(out)
        got, runs = distribution(run, grid=sum(w))
        want, _ = distribution(ref, grid=sum(w))
        rec.trace(runs)
        rec.transition(runs)
        rec.state((kinds, w, n))
        rec.expect(got == want, 'law of the heating systems differs',
                   lambda: {'systems': kinds, 'weights': w, 'got,want': law_diff(got, want)}, 'types')


def build(ck):
    import demod.simulators.heating_simulators  # noqa
    th = ck.thorough
    L = (-100.0, 0.0, 1500.0, 3600.0, 5000.0, 1e6)
    sets = [(k,) for k in SYSTEMS] + [('gas', 'pump'), ('combi', 'none', 'heater'), ('pump', 'gas', 'none', 'combi', 'heater')]
    for j, kinds in enumerate(sets):
        ck.add('steps %s' % '+'.join(kinds), steps, [(kinds, L, 1, (0, 1))])
        m = 8 if th else 4
        for i in range(m):
            ck.add('histories %s #%d' % ('+'.join(kinds), i), steps, [(kinds, (0.0, 2500.0, 1e6) if not th else L[1:], 2, (i, m))])
    for j, s in enumerate(interleave(sets, 4)):
        ck.add('initial #%d' % j, initial, s)
    ck.add('types', draws, [(k, w, n) for k, w in ((('gas', 'pump'), (1, 1)), (('gas', 'pump', 'combi'), (1, 0, 3)),
                                                   (('none', 'heater', 'combi'), (2, 1, 1))) for n in (1, 2, 3)])
    ck.rule = ('every combination of controls and demand levels (negative, zero, partial, at and above capacity), every pair '
               'of successive ones, for %d sets of heating systems; law of the drawn systems' % len(sets))
    ck.assumptions = ['stub heating systems: gas, combi, heat pump, heater without hot water, none']
