"""C11: occupancy-driven appliances."""
import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import law_diff, interleave
from checks._apps import Data, RefApp, family, which

LEVEL = 'model_checking'
F = Fraction

ROWS = {
    # switch-on probabilities are crest * activity profile, all multiples of a half
    'plain': dict(type='plain', switch_on_prob_crest=1.0, mean_duration=2.0, standby_consumption=3),
    'half': dict(type='half', switch_on_prob_crest=0.5, mean_duration=1.0, after_cycle_delay=2),
    'off': dict(type='off', switch_on_prob_crest=1.0, mean_duration=3.0, inactive_switch_off=True, standby_consumption=1,
                related_activity='cook'),
    'offdelay': dict(type='offdelay', switch_on_prob_crest=1.0, mean_duration=3.0, inactive_switch_off=True,
                     after_cycle_delay=1, related_activity='cook', mean_water_consumption=2.0),
    'prof': dict(type='wash', switch_on_prob_crest=1.0, related_activity='cook', standby_consumption=2),
    'profoff': dict(type='wash', switch_on_prob_crest=1.0, inactive_switch_off=True),
    'fridge': dict(type='fridge', switch_on_prob_crest=0.5, related_activity='level', mean_duration=2.0,
                   after_cycle_delay=1),
    'tap': dict(type='tap', switch_on_prob_crest=1.0, uses_water=True, mean_water_consumption=4.0,
                mean_elec_consumption=0.0, poisson_sampling_lambda_liters=5.0),
    'tapdelay': dict(type='tap', switch_on_prob_crest=0.5, uses_water=True, mean_water_consumption=2.0,
                     mean_elec_consumption=10.0, poisson_sampling_lambda_liters=3.0, after_cycle_delay=1,
                     inactive_switch_off=True, related_activity='cook'),
}
PROFILES = {'switchedON': {'wash': {'a': [10, 20, 30]}}, 'full': {}}
# activity profiles: [subgroup][activity][time][active occupants], in halves
ACT = [{'active_occupancy': [(0, 1, 2), (0, 2, 1), (1, 1, 2)], 'cook': [(1, 1, 2), (2, 2, 2), (0, 1, 1)],
        'level': [(2, 2, 2), (2, 2, 2), (1, 1, 1)]},
       {'active_occupancy': [(1, 2, 0), (0, 1, 1), (2, 0, 1)], 'cook': [(0, 0, 1), (1, 2, 1), (2, 1, 0)],
        'level': [(1, 1, 1), (2, 2, 2), (2, 2, 2)]}]


class Ref:
    """Reference: the grid of appliances, one step at a time, all outcomes."""

    def __init__(self, rows, sgs):
        self.rows, self.sgs = rows, sgs

    def start(self):
        """Law of the initial state (delays are drawn)."""
        opts = []
        for r in self.rows:
            d = max(1, r.get('after_cycle_delay', 0))
            for _ in self.sgs:
                opts.append(range(d))
        for o in itertools.product(*opts):
            w = F(1)
            for r in opts:
                w /= len(r)
            n = len(self.sgs)
            yield w, tuple((0, o[a * n + h]) for h in range(n) for a in range(len(self.rows)))

    def cell(self, h, a, st, t, occ):
        """Law of one appliance's next state."""
        r = self.rows[a]
        x = RefApp(r, True, *st, profile=PROFILES['switchedON']['wash']['a'] if r['type'] == 'wash' else None)
        x.tick()
        act = ACT[self.sgs[h]][r.get('related_activity', 'active_occupancy')][t % 3][occ]
        p = F(act, 2) * F(r['switch_on_prob_crest']) if x.available else F(0)
        out = {}

        def end(y, w):
            if occ == 0 and r.get('inactive_switch_off'):
                y.left = 0
                y.refresh = min(y.refresh, r.get('after_cycle_delay', 0))
            if w:
                k = (y.left, y.refresh)
                out[k] = out.get(k, 0) + w
        durations = [None]
        if r.get('uses_water'):
            durations = [v * r['poisson_sampling_lambda_liters'] / r['mean_water_consumption'] for v in (0, 1, 2)]
        for d in durations:
            y = RefApp(r, True, x.left, x.refresh, x.profile)
            y.on(d)
            end(y, p / len(durations))
        end(x, 1 - p)
        return out

    def view(self, state):
        """What is observed: power, water (l/min over the minute), availability."""
        m, n = len(self.rows), len(self.sgs)
        power, water, avail = [], [], []
        for h in range(n):
            for a in range(m):
                left, refresh = state[h * m + a]
                r = self.rows[a]
                x = RefApp(r, True, left, refresh,
                           PROFILES['switchedON']['wash']['a'] if r['type'] == 'wash' else None)
                power.append(x.power)
                water.append(r.get('mean_water_consumption', 0.0) * min(1.0, max(0.0, left)))
                avail.append(x.available)
        return tuple(power), tuple(water), tuple(avail)

    def law(self, occs):
        cur = {}
        for w, s in self.start():
            k = ((self.view(s),), s)
            cur[k] = cur.get(k, 0) + w
        m = len(self.rows)
        for t, occ in enumerate(occs):
            nxt = {}
            for (tr, s), w in cur.items():
                cells = [self.cell(h, a, s[h * m + a], t // 10, occ[h])
                         for h in range(len(self.sgs)) for a in range(m)]
                for combo in itertools.product(*[c.items() for c in cells]):
                    p = w
                    for _, q in combo:
                        p *= q
                    s2 = tuple(k for k, _ in combo)
                    key = (tr + (self.view(s2),), s2)
                    nxt[key] = nxt.get(key, 0) + p
            cur = nxt
        out = {}
        for (tr, _), w in cur.items():
            out[tr] = out.get(tr, 0) + w
        return out


def view(sim):
    return (tuple(float(x) for x in sim.get_current_power_consumptions().ravel()),
            tuple(float(x) for x in sim.get_current_water_consumptions().ravel()),
            tuple(bool(x) for x in sim.get_mask_available_appliances().ravel()))


def joint(rec, scen):
    """Exact law of all observables for every sequence of active occupancies."""
    from demod.simulators.appliance_simulators import OccupancyApplianceSimulator
    for names, sgs, occ_values, depth, fam in scen:
        rows = [ROWS[k] for k in names]
        acts = sorted({r.get('related_activity', 'active_occupancy') for r in rows})
        ns = [sgs.count(0), sgs.count(1)]
        sgl = family(fam, 2)
        data = Data(rows, dt.time(4), PROFILES, activity=lambda sg: {
            k: np.array(ACT[which(fam, sg)][k]) / 2 for k in ACT[0]})
        ref = Ref(rows, sgs)
        for occs in itertools.product(itertools.product(occ_values, repeat=len(sgs)), repeat=depth):
            def run(ch):
                sim = OccupancyApplianceSimulator(
                    [dict(s) for s in sgl], list(ns), data=data, start_datetime=dt.datetime(2014, 1, 1, 4),
                    equipped_sampling_algo='all', real_profiles_algo='uniform')
                out = [view(sim)]
                for occ in occs:
                    sim.step(np.array(occ))
                    out.append(view(sim))
                return tuple(out)
            grid = 4 if any(r['switch_on_prob_crest'] == 0.5 for r in rows) else 2
            got, runs = distribution(run, grid=grid, counts=lambda lam: [0, lam, 2 * lam])
            rec.transition(runs)
            rec.trace(runs)
            want = ref.law(occs)
            for s in got:
                rec.state((names, sgs, str(s[-1])))
            if not rec.expect(got == want, 'law of the appliances differs',
                              lambda: {'appliances': rows, 'households of subgroup': sgs, 'active occupants': occs,
                                       'got,want': dict(list(law_diff(got, want).items())[:3])}, 'joint law'):
                return
    rec.sample({'appliances': names, 'households of subgroup': sgs, 'active occupants': occs})


def code(sg):
    """0 week day, 1 week end, 2 unknown type of day"""
    return {(1, 2, 3, 4, 5): 0, (6, 7): 1}.get(tuple(sg.get('weekday', ())), 2)


def clock(rec, scen):
    """The activity profile of the type of the day, at the current time of day."""
    from demod.simulators.appliance_simulators import OccupancyApplianceSimulator

    def prob(sg, day, act, t, occ):
        return (3 * sg + 5 * day + t * t + 2 * t + (occ + 1) * (t // 7 + 1) + 7 * act) % 5 < 2

    for start, refresh, T, step, n_steps, fam in scen:
        rows = [dict(type='a%d' % i, related_activity=a, switch_on_prob_crest=1.0, mean_duration=1.0)
                for i, a in enumerate(('zz', 'cook'))]
        names = {'zz': 0, 'cook': 1}

        def activity(sg):
            d = code(sg)
            return {k: np.array([[float(prob(which(fam, sg) + 1, d, i, t, o)) for o in range(4)] for t in range(T)])
                    for k, i in names.items()}
        # what is owned depends on the subgroup: all by the first two, one of the two by the others
        owned = [[1.0, 1.0], [1.0, 1.0], [1.0, 0.0], [0.0, 1.0]]
        data = Data(rows, refresh, activity=activity, step=step,
                    ownership=lambda sg: dict(zip(('a0', 'a1'), owned[which(fam, sg)])))
        sgs = family(fam, 4)
        init_occ = np.array([3, 0, 1, 2, 0])
        with active(Fixed(1)):
            sim = OccupancyApplianceSimulator(sgs, [1, 2, 1, 1], data=data, start_datetime=start,
                                              initial_active_occupancy=init_occ, equipped_sampling_algo='subgroup')
            rec.expect(sgs == family(fam, 4), 'the subgroups given are modified', sgs,
                       'caller subgroups')
            for k in range(n_steps):
                occ = np.array([(k // 3) % 4, (k + 1) % 4, (k * k) % 4, k % 4, (k // 2) % 4])
                t = sim.current_time
                sim.step(occ)
                ref = t.replace(hour=refresh.hour, minute=refresh.minute)
                if ref > t:
                    ref -= dt.timedelta(days=1)
                day = 0 if ref.isoweekday() <= 5 else 1
                idx = int((t - ref) / dt.timedelta(minutes=10)) % T
                want = [[bool(prob(sg, day, names[r['related_activity']], idx, o) and w) for r, w in zip(rows, owned[sg - 1])]
                        for sg, o in zip((1, 2, 2, 3, 4), occ)]
                got = sim.get_current_usage()
                rec.transition()
                rec.state((str(start), str(refresh), T, fam, k))
                if not rec.expect(np.array_equal(got, want), 'the activity profile used is not that of the day and time',
                                  lambda: {'start': start, 'refresh': refresh, 'n_times': T, 'time': t, 'got': got,
                                           'want': want}, 'profile of the time'):
                    break
        rec.trace()
    rec.sample({'start': str(start), 'refresh': str(refresh), 'n_times': T, 'step': str(step)})


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    th = ck.thorough
    sc = []
    for k in ROWS:
        heavy = {'tap': 1, 'tapdelay': 2}.get(k, 0)
        slow = ROWS[k]['switch_on_prob_crest'] == 0.5
        sc.append(((k,), (0,), (0, 1, 2), 2 if heavy else 4 if th and not slow else 3))
        sc.append(((k,), (0,), (0, 1), 3 if heavy else 6 if th and not slow else 4))
        sc.append(((k,), (1,), (0, 2), 2 if heavy else 4))
        sc.append(((k,), (0, 1), (0, 1, 2), 1))
        if not heavy:
            sc.append(((k,), (0, 1), (0, 1), 2))
            sc.append(((k,), (1, 1), (0, 1), 2))
    for a, b in itertools.permutations(('plain', 'off', 'prof', 'tap', 'offdelay'), 2):
        sc.append(((a, b), (0,), (0, 1), (3 if th else 2) if 'tap' not in (a, b) else 2))
        sc.append(((a, b), (0, 1), (0, 2), 1))
    sc.append((('off', 'plain', 'profoff'), (0,), (0, 1), 2))
    if th:
        sc += [(('tap',), (0,), (0, 1), 4), (('tapdelay',), (0,), (0, 1, 2), 3)]
    # the other families of subgroups where both are there
    sc = [x + (0,) for x in sc] + [x + (f,) for x in sc if set(x[1]) == {0, 1} and len(x[0]) == 1 for f in (1, 2, 3)]
    for j, s in enumerate(interleave(sc, 64)):
        ck.add('joint #%d' % j, joint, s)
    cl = []
    minute = dt.timedelta(minutes=1)
    for start in (dt.datetime(2014, 1, 1, 4), dt.datetime(2014, 1, 3, 3, 59), dt.datetime(2014, 1, 4, 3, 51),
                  dt.datetime(2014, 1, 5, 23, 55), dt.datetime(2014, 1, 3, 12, 34), dt.datetime(2014, 1, 6, 2)):
        for refresh in (dt.time(4), dt.time(0)) + ((dt.time(5, 30),) if th else ()):
            for T in (144, 7):
                for step in (minute, 5 * minute, 10 * minute):
                    if step > minute and start.minute % 10:
                        continue
                    days = 3 if th else 2
                    cl.append((start, refresh, T, step, days * 1440 // (step // minute), len(cl) % 4))
    for j, s in enumerate(interleave(cl, 16)):
        ck.add('clock #%d' % j, clock, s)
    ck.rule = ('%d sets of 1-3 appliances in 1-2 households of 2 subgroups: exact law of power, water and availability for '
               'every sequence of active occupancies over 1-6 steps; %d runs of 2-3 days in steps of 1, 5 and 10 minutes'
               % (len(sc), len(cl)))
    ck.assumptions = ['stub datasets; Poisson draws are replaced by 3 equally likely values depending on the rate']
