"""C10: life cycle, consumption and ownership of appliances."""
import itertools
from fractions import Fraction

import numpy as np

from mc.choice import distribution, explore, Fixed, active
from mc.util import product_law, law_diff, interleave
from checks._apps import Data, RefApp, appliances, observe, family, which as which_subgroup

LEVEL = 'model_checking'

PROF = {
    'switchedON': {'wash': {'a': [10, 20, 30], 'b': [40, 50]}, 'dry': {'x': [7]}, 'tv': {'p': [1, 2, 3, 4]}},
    'full': {'fridge': {'f': [80, 0, 90, 5], 'g': [60, 61, 62]}, 'box': {'k': [3, 4]}},
}


def simulator():
    from demod.simulators.appliance_simulators import AppliancesSimulator

    class Basic(AppliancesSimulator):
        """Smallest use of the framework: the test decides what is switched on."""

        def __init__(self, n, data, **kw):
            self.data = data
            super().__init__(n, data.load_appliance_dict(), step_size=data.step_size, **kw)
            self.initialize_starting_state()

        def step(self, hh=(), app=()):
            super().step()
            if callable(hh):  # decide now
                hh, app = hh(self)
            self.switch_on(np.array(hh, dtype=int), np.array(app, dtype=int))
            getattr(self, '_cache', {}).clear()
    return Basic


def cells(n, m):
    return [(h, a) for h in range(n) for a in range(m)]


def machine(rec, scen):
    """All sequences of switch-on decisions on appliances available at that time."""
    Basic = simulator()
    for rows, n, depth, owned in scen:
        m = len(rows)
        data = Data(rows)
        algo = dict(equipped_sampling_algo='all')
        if owned is not None:
            for a, o in enumerate(owned):
                rows[a] = {**rows[a], 'equipped_prob': 1.0 if o else 0.0}
            algo = {}

        def run(ch):
            sim = Basic(n, data, **algo)
            hist = []

            def ctx():
                return {'appliances': rows, 'households': n, 'switched on': hist}
            # the random initial delay is observed through the availability only: read it from the alternatives
            delays = iter([k for k, arity in ch.trace][-sum(n for r in rows if r.get('after_cycle_delay', 0) > 0):]
                          if any(r.get('after_cycle_delay', 0) > 0 for r in rows) else [])
            ref = [[None] * m for _ in range(n)]
            for a, r in enumerate(rows):
                for h in range(n):
                    d = next(delays) if r.get('after_cycle_delay', 0) > 0 else 0
                    ref[h][a] = RefApp(r, owned is None or owned[a], refresh=d)
            if not observe(rec, sim, ref, ctx, 'life cycle'):
                return
            for k in range(depth):
                for row in ref:
                    for x in row:
                        x.tick()
                can = [(h, a) for h, a in cells(n, m) if ref[h][a].available]
                sel = ch.pick(2 ** len(can))
                on = [c for i, c in enumerate(can) if sel >> i & 1]
                hist.append(on)
                for h, a in on:
                    ref[h][a].on()
                sim.step([h for h, _ in on], [a for _, a in on])
                rec.transition()
                rec.state((str(rows), n, k, [[(x.left, x.refresh) for x in row] for row in ref]))
                if not observe(rec, sim, ref, ctx, 'life cycle'):
                    return
        for _, ch in explore(run, grid=1):
            rec.trace()
            if rec.fails:
                return
    rec.sample({'appliances': rows, 'households': n, 'steps': depth})


def profiles(rec, scen):
    """Appliances with real load profiles: whole profile, in order, from the start (or anywhere when always on)."""
    Basic = simulator()
    for rows, n, algo, depth in scen:
        m = len(rows)
        data = Data(rows, profiles=PROF)
        own = [bool(r.get('equipped_prob', 1.0)) for r in rows]

        def lib(a):
            r = rows[a]
            on = r['related_activity'] in ('level', 'constant')
            kind = 'full' if on else 'switchedON'
            if algo == 'nothing' or (algo == 'only_always_on' and not on) or (algo == 'only_switched_on' and on):
                return None
            return list(PROF[kind][r['type']].values()) if r['type'] in PROF[kind] else None

        def run(ch):
            sim = Basic(n, data, real_profiles_algo=algo)
            out = [tuple(map(tuple, sim.get_current_power_consumptions()))]
            for k in range(depth):
                # everything that can be is switched on at every second step
                if k % 2:
                    sim.step()
                else:
                    sim.step(lambda sim: np.where(sim.get_mask_available_appliances()))
                out.append(tuple(map(tuple, sim.get_current_power_consumptions())))
            rec.transition(depth)
            return tuple(out)
        got, runs = distribution(run, grid=1)
        rec.trace(runs)
        # reference: independent cells

        def cell(a):
            r, law = rows[a], {}
            ps = lib(a) if own[a] else None
            always = r['related_activity'] in ('level', 'constant')
            starts = []
            for p in ps or [None]:
                w = Fraction(1, len(ps or [None]))
                if p is not None and always:
                    starts += [(w / (len(p) - 1), p, left) for left in range(1, len(p))]
                else:
                    starts.append((w, p, 0))
            delay = r.get('after_cycle_delay', 0)
            for w, p, left in starts:
                for d in range(max(1, delay)):
                    x = RefApp(r, own[a], left=left, refresh=d, profile=p)
                    if p is None and lib(a) is not None:
                        x.profile = None
                    tr = [x.power]
                    for k in range(depth):
                        x.tick()
                        if k % 2 == 0 and x.available:
                            x.on()
                        tr.append(x.power)
                    law[tuple(tr)] = law.get(tuple(tr), 0) + w / max(1, delay)
            return law
        want = {}
        for trs, p in product_law([cell(a) for h in range(n) for a in range(m)]).items():
            key = tuple(tuple(tuple(trs[h * m + a][k] for a in range(m)) for h in range(n)) for k in range(depth + 1))
            want[key] = want.get(key, 0) + p
        rec.state((str(rows), n, algo))
        for s in got:
            rec.state((str(rows), n, algo, s))
        rec.expect(got == want, 'law of the loads of the appliances differs (algorithm %s)' % algo,
                   lambda: {'appliances': rows, 'households': n, 'algorithm': algo,
                            'got,want': dict(list(law_diff(got, want).items())[:4])}, 'load profiles')
    rec.sample({'appliances': rows, 'households': n, 'algorithm': algo, 'outcomes': len(want)})


def water(rec, _):
    """Fixtures: the volume drawn is the one sampled, at the fixture's own flow."""
    Basic = simulator()
    rows = [dict(type='tap', uses_water=True, mean_water_consumption=2.0, poisson_sampling_lambda_liters=3.0,
                 mean_elec_consumption=0.0),
            dict(type='lamp', mean_duration=2.0),
            dict(type='bath', uses_water=True, mean_water_consumption=4.0, poisson_sampling_lambda_liters=8.0,
                 mean_elec_consumption=10.0, after_cycle_delay=2)]
    data = Data(rows)
    for on in itertools.chain.from_iterable(itertools.combinations(range(3), k) for k in range(4)):
        for hs in ((0,), (1,), (0, 1)):
            def run(ch):
                sim = Basic(2, data)
                for _ in range(2):
                    sim.step()
                sim.step([h for h in hs for _ in on], list(on) * len(hs))
                out = []
                for k in range(5):
                    out.append(tuple(map(tuple, sim.get_current_water_consumptions())))
                    sim.step()
                    rec.transition()
                return tuple(out)
            got, runs = distribution(run, grid=1, counts=lambda lam: [0, lam, 2 * lam])
            rec.trace(runs)

            def cell(a, h):
                r = rows[a]
                flow = r.get('mean_water_consumption', 0.0)
                if a not in on or h not in hs or not r.get('uses_water'):
                    return {(0.0,) * 5: Fraction(1)}
                law = {}
                for v in (0, 1, 2):
                    d = v * r['poisson_sampling_lambda_liters'] / flow
                    tr = tuple(flow if d - k > 0 else 0.0 for k in range(5))
                    law[tr] = law.get(tr, 0) + Fraction(1, 3)
                return law
            want = {}
            for trs, p in product_law([cell(a, h) for h in range(2) for a in range(3)]).items():
                key = tuple(tuple(tuple(trs[h * 3 + a][k] for a in range(3)) for h in range(2)) for k in range(5))
                want[key] = want.get(key, 0) + p
            for s in got:
                rec.state((on, hs, s))
            rec.expect(got == want, 'law of the water drawn differs',
                       lambda: {'fixtures': rows, 'switched on': on, 'households': hs,
                                'got,want': dict(list(law_diff(got, want).items())[:4])}, 'water')


def ownership(rec, scen):
    """Each household owns each appliance independently, with the probability of its own subgroup."""
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator, OccupancyApplianceSimulator
    Basic = simulator()
    F = Fraction
    for algo, probs, ns, fam in scen:
        n, m = sum(ns), len(probs[0])
        rows = [dict(type='t%d' % a, standby_consumption=1 + a, mean_elec_consumption=50.0, related_activity='cook',
                     equipped_prob=probs[0][a] / 4) for a in range(m)]
        sgs = family(fam, len(ns))
        data = Data(rows, ownership=lambda sg: {'t%d' % a: probs[which_subgroup(fam, sg)][a] / 4 for a in range(m)},
                    activity=lambda sg: {'cook': np.zeros((3, 4))})
        sets = [['APP%d' % a for a in range(m) if p[a] >= 2] for p in probs]
        hh = [i for i, k in enumerate(ns) for _ in range(k)]
        for which in ('basic', 'activity', 'occupancy'):
            if which == 'basic' and algo in ('subgroup', 'set_defined'):
                continue
            kw = dict(equipped_sampling_algo=algo)
            if algo == 'set_defined':
                kw['equipped_set_defined'] = sets

            def run(ch):
                if which == 'basic':
                    sim = Basic(n, data, **kw)
                elif which == 'activity':
                    sim = ActivityApplianceSimulator(n, {'cook': np.zeros(n)}, data=data, subgroups_list=sgs,
                                                     n_households_list=list(ns), step_size=data.step_size, **kw)
                else:
                    import datetime as dt
                    sim = OccupancyApplianceSimulator([dict(s) for s in sgs], list(ns), data=data,
                                                      start_datetime=dt.datetime(2014, 1, 1, 4), **kw)
                return tuple(tuple(bool(x) for x in r) for r in sim.get_current_power_consumptions() > 0), tuple(
                    tuple(bool(x) for x in r) for r in sim.available_appliances)
            law, runs = distribution(run, grid=4)
            rec.transition(runs)
            rec.trace(runs)
            got = {}
            for (p, a), w in law.items():
                got[p] = got.get(p, 0) + w
                rec.expect(p == a, 'only and all owned appliances consume', {'consuming': p, 'owned': a}, 'ownership')
                rec.state((algo, probs, ns, fam, which, p))

            def prob(i, a):
                if algo == 'all':
                    return F(1)
                if algo == 'set_defined':
                    return F(1 if probs[i][a] >= 2 else 0)
                return F(probs[i if algo == 'subgroup' else 0][a], 4)
            want = {}
            for v, p in product_law([{True: prob(i, a), False: 1 - prob(i, a)} for i in hh for a in range(m)]).items():
                want[tuple(tuple(v[h * m + a] for a in range(m)) for h in range(n))] = p
            want = {k: v for k, v in want.items() if v}
            rec.expect(got == want, 'law of the ownership differs (algorithm %s, %s simulator)' % (algo, which),
                       lambda: {'probabilities/4': probs, 'households': ns,
                                'got,want': dict(list(law_diff(got, want).items())[:6])}, 'ownership law')
    rec.sample({'algorithm': algo, 'probabilities/4': probs, 'households': ns})


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    th = ck.thorough
    kinds = [dict(type='k', mean_duration=float(d), after_cycle_delay=w, standby_consumption=s, mean_elec_consumption=e,
                  mean_water_consumption=f)
             for d in (1, 2, 3) for w in (0, 1, 2, 3) for s, e, f in ((0, 100.0, 0.0), (5, 70.0, 1.5), (2, 0.0, 0.0))]
    sc = [([dict(k)], 1, 9 if th else 7, own) for k in kinds for own in (None, (False,))]
    pairs = [kinds[i] for i in (0, 4, 9, 16, 22, 31, 35)]
    for a, b in itertools.product(pairs, repeat=2):
        sc.append(([dict(a), dict(b, type='other')], 2, 3 if th else 2, None))
        sc.append(([dict(a), dict(b)], 2, 3, (True, False)))
    for t in itertools.permutations((0, 9, 22), 3):
        sc.append(([dict(pairs[i % 7]) for i in t], 1, 4, None))
    for j, s in enumerate(interleave(sc, 16)):
        ck.add('life cycle #%d' % j, machine, s)
    fr = dict(type='fridge', related_activity='level', mean_elec_consumption=40.0, standby_consumption=1)
    bx = dict(type='box', related_activity='constant', standby_consumption=2)
    wa = dict(type='wash', related_activity='laundry', standby_consumption=3, after_cycle_delay=2)
    dr = dict(type='dry', related_activity='laundry')
    tv = dict(type='tv', related_activity='watch', standby_consumption=1)
    no = dict(type='none', related_activity='watch', mean_duration=3.0)
    no2 = dict(type='none2', related_activity='level', mean_duration=3.0)
    gone = dict(wa, equipped_prob=0.0)
    ps = []
    for algo in ('nothing', 'only_always_on', 'only_switched_on', 'uniform'):
        for rows in ([fr], [wa], [dr, tv], [bx, no], [wa, wa], [fr, no2], [wa, dr], [gone, wa], [fr, bx], [tv, no, gone],
                     [wa, fr], [dict(dr, mean_duration=5.0)], [dict(wa, mean_duration=2.0)], [dict(wa, mean_duration=4.0), no],
                     [dict(fr, mean_duration=6.0)], [dict(dr, mean_duration=3.0, after_cycle_delay=3), dict(tv, mean_duration=9.0)]):
            ps.append(([dict(r) for r in rows], 1, algo, 7))
        for rows in ([wa], [fr], [gone, dr], [tv, bx]):
            ps.append(([dict(r) for r in rows], 2, algo, 6))
    for j, s in enumerate(interleave(ps, 16)):
        ck.add('profiles #%d' % j, profiles, s)
    ck.add('water', water)
    ow = []
    for probs, ns in ((((1, 2), (3, 0)), (1, 1)), (((0, 4), (2, 1)), (2, 0)), (((1,), (2,), (3,)), (1, 1, 1)),
                      (((1,), (3,)), (2, 1)), (((3,), (1,)), (0, 2)), (((2, 1), (1, 3)), (1, 1))):
        for algo in ('basic', 'all', 'subgroup', 'set_defined'):
            for fam in (range(4) if algo == 'subgroup' else (0,)):
                ow.append((algo, probs, ns, fam))
    for j, s in enumerate(interleave(ow, 12)):
        ck.add('ownership #%d' % j, ownership, s)
    ck.rule = ('%d appliance sets of 1-3 kinds (duration 1-3, delay 0-3, standby, not owned), 1-2 households, every sequence '
               'of switch-on decisions over 2-9 steps; %d profile configurations with the exact law of the loads over 6-7 '
               'steps; %d ownership configurations' % (len(sc), len(ps), len(ow)))
    ck.assumptions = ['stub datasets; Poisson draws are replaced by 3 equally likely values depending on the rate']
