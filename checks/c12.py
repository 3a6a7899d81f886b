"""C12: appliances that are on while their activity is performed."""
import itertools

import numpy as np

from mc.choice import explore
from mc.util import interleave
from checks._apps import Data, DEFAULT, Feed

LEVEL = 'model_checking'

ROWS = {
    'iron': dict(type='iron', related_activity='ironing', inactive_switch_off=True, standby_consumption=2,
                 mean_elec_consumption=50.0, mean_water_consumption=1.5),
    'lamp': dict(type='lamp', related_activity='ironing', inactive_switch_off=False, mean_elec_consumption=7.0),
    'tv': dict(type='tv', related_activity='watching', inactive_switch_off=True, standby_consumption=1),
    'tv2': dict(type='tv', related_activity='ironing', inactive_switch_off=True),
    'radio': dict(type='radio', related_activity='watching', inactive_switch_off=True, mean_elec_consumption=11.0),
    'fridge': dict(type='fridge', related_activity='level', mean_elec_consumption=90.0),
    'router': dict(type='router', related_activity='constant', mean_elec_consumption=5.0),
    'away': dict(type='away', related_activity='unknown', inactive_switch_off=True),
    'prob': dict(type='prob', related_activity='ironing', inactive_switch_off=True, probabilistic=True),
}
PROFILES = {'switchedON': {'tv': {'a': [100, 200, 300]}}, 'full': {'fridge': {'f': [80, 0, 90, 5]}}}
ACTS = ('ironing', 'watching')


class Ref:
    """One appliance of one household."""

    def __init__(self, row, owned, profile, always, phase=0):
        self.r, self.owned, self.profile, self.always = {**DEFAULT, **row}, owned, profile, always
        self.used, self.pos = always, phase

    def step(self, before, now):
        self.pos += 1
        if before and not now and self.r['inactive_switch_off']:
            self.used = False
        if now and not before:
            self.used, self.pos = True, 0

    @property
    def power(self):
        if not self.owned:
            return 0.0
        if not self.used:
            return float(self.r['standby_consumption'])
        return float(self.profile[self.pos % len(self.profile)] if self.profile else self.r['mean_elec_consumption'])

    @property
    def water(self):
        return float(self.r['mean_water_consumption']) * (self.used and self.owned)


def histories(rec, scen):
    """Every sequence of activities of the households."""
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator
    for names, n, values, depth, algo, owned, reuse in scen:
        rows = [dict(ROWS[k], equipped_prob=float(o)) for k, o in zip(names, owned)]
        if 'prob' in names:
            rows = [{'probabilistic': False, **r} for r in rows]
        kept = [i for i, k in enumerate(names) if k not in ('away', 'prob')]
        data = Data(rows, profiles=PROFILES)
        seqs = list(itertools.product(itertools.product(values, repeat=n * len(ACTS)), repeat=depth + 1))
        for seq in seqs:
            dicts = [{a: np.array(s[i * n:(i + 1) * n]) for i, a in enumerate(ACTS)} for s in seq]
            keep = [{k: v.copy() for k, v in d.items()} for d in dicts]

            def run(ch):
                feed = Feed(dicts, reuse)
                sim = ActivityApplianceSimulator(n, feed[0], data=data, step_size=data.step_size,
                                                 real_profiles_algo=algo)
                out = []
                for k in range(depth + 1):
                    if k:
                        sim.step(feed[k])
                    out.append((sim.get_current_power_consumptions(), sim.get_current_usage(),
                                sim.get_current_water_consumptions(), sim.get_power_demand(),
                                sim.get_thermal_gains(), sim.get_dhw_heating_demand()))
                return out
            for out, ch in explore(run, grid=1):
                rec.trace()
                ok = True
                for h, a in itertools.product(range(n), kept):
                    r = rows[a]
                    always = r['related_activity'] in ('level', 'constant')
                    kind = 'full' if always else 'switchedON'
                    prof = PROFILES[kind].get(r['type'], {}) if algo in (
                        'uniform', 'only_always_on' if always else 'only_switched_on') else {}
                    prof = list(prof.values())[0] if prof else None
                    j = kept.index(a)

                    def trace(phase):
                        x = Ref(r, owned[a], prof, always, phase)
                        tr = []
                        for k in range(depth + 1):
                            if always:
                                x.pos += bool(k)
                            else:
                                now = bool(dicts[k][r['related_activity']][h])
                                before = k > 0 and bool(dicts[k - 1][r['related_activity']][h])
                                if k == 0:
                                    x.used = now
                                else:
                                    x.step(before, now)
                            tr.append((x.power, bool(x.used and x.owned), x.water))
                        return tr
                    # an appliance that is on at the beginning may be anywhere in its profile
                    phases = range(len(prof)) if prof else [0]
                    got = [(float(o[0][h, j]), bool(o[1][h, j]), float(o[2][h, j])) for o in out]
                    want = [trace(p) for p in phases]
                    ok &= rec.expect(got in want, 'use of an appliance does not follow its activity',
                                     lambda: {'appliance': r, 'household': h, 'activities': dicts, 'algorithm': algo,
                                              'got': got, 'want one of': want}, 'activity')
                for k, o in enumerate(out):
                    ok &= rec.expect(np.allclose(o[3], o[0].sum(axis=1)) and np.allclose(o[4], o[3])
                                     and np.allclose(o[5], 70 * o[2].sum(axis=1)),
                                     'household demand is not the sum over its appliances', {'activities': dicts}, 'sum')
                    ok &= rec.expect(o[0].shape == (n, len(kept)), 'appliances simulated', o[0].shape, 'set')
                    rec.state((names, n, algo, owned, seq[k], o[0]))
                rec.transition(depth)
                if not ok:
                    return
            rec.expect(all(np.array_equal(d[a], e[a]) for d, e in zip(dicts, keep) for a in ACTS),
                       'the activities given are modified', None, 'caller')
    rec.sample({'appliances': names, 'owned': owned, 'households': n, 'algorithm': algo, 'activities': seq})


def long(rec, _):
    """A profile is repeated as long as the activity lasts; the interruption restarts it."""
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator
    rows = [ROWS['tv'], ROWS['radio'], ROWS['fridge']]
    for length in range(2, 8):
        for on in range(1, 16):
            for off in range(1, 4):
                prof = [10 * (i + 1) for i in range(length)]
                data = Data(rows, profiles={'switchedON': {'tv': {'a': prof}}, 'full': {'fridge': {'f': prof}}})

                def run(ch):
                    acts = {'ironing': np.zeros(1), 'watching': np.zeros(1)}
                    sim = ActivityApplianceSimulator(1, acts, data=data, step_size=data.step_size,
                                                     equipped_sampling_algo='all', real_profiles_algo='uniform')
                    got = []
                    for k in range(2 * (on + off)):
                        w = 1 + k % 2 if k % (on + off) < on else 0
                        sim.step({'ironing': np.zeros(1), 'watching': np.array([w])})
                        got.append([float(x) for x in sim.get_current_power_consumptions()[0]])
                        rec.transition()
                        rec.state((length, on, off, k, got[-1]))
                    return got
                for got, _c in explore(run, grid=1):
                    rec.trace()
                    want = [prof[k % (on + off) % length] if k % (on + off) < on else 1 for k in range(2 * (on + off))]
                    f = [prof.index(g[2]) for g in got]
                    rec.expect([g[0] for g in got] == want and all(g[1] == (11 if w != 1 or False else 0) for g, w in
                                                                   zip(got, want) if length)
                               and all((b - a) % length == 1 % length for a, b in zip(f, f[1:])),
                               'profile is not repeated during the activity',
                               {'profile': prof, 'steps on': on, 'steps off': off, 'got': got, 'want': want}, 'repeat')


def refused(rec, scen):
    """Which profiles each algorithm asks for; those that do not exist."""
    from demod.simulators.appliance_simulators import ActivityApplianceSimulator
    needs = {'nothing': set(), 'uniform': {'switchedON', 'full'}, 'only_always_on': {'full'}, 'only_switched_on': {'switchedON'}}
    acts = {a: np.zeros(1) for a in ACTS}
    for have in (set(), {'switchedON'}, {'full'}, {'switchedON', 'full'}):
        class Some(Data):
            def load_real_profiles_dict(self, kind):
                if kind not in have:
                    raise NotImplementedError(kind)
                return super().load_real_profiles_dict(kind)
        for algo in (*needs, 'Uniform', 'unifrom', ''):
            data = Some([dict(ROWS[k], equipped_prob=1.) for k in ('iron', 'fridge')], profiles=PROFILES)

            def run(ch):
                try:
                    ActivityApplianceSimulator(1, acts, data=data, step_size=data.step_size, real_profiles_algo=algo)
                    return 'accepted', ''
                except NotImplementedError as e:
                    return 'not in the data', str(e)
                except ValueError as e:
                    return 'unknown', str(e)
            want = 'unknown' if algo not in needs else 'accepted' if needs[algo] <= have else 'not in the data'
            for (got, text), ch in explore(run, grid=1):
                rec.expect(got == want, 'algorithms for the load profiles', {'algorithm': algo, 'profiles': sorted(have), 'got': got}, 'algorithms')
                rec.expect(got != 'unknown' or algo in text, 'the error does not tell the algorithm', {'algorithm': algo, 'error': text},
                           'algorithms')
                rec.transition()
            rec.state((algo, tuple(sorted(have))))
            rec.trace()


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    th = ck.thorough
    sc = []
    for k in ROWS:
        if k in ('away', 'prob'):
            continue
        for algo in ('nothing', 'uniform'):
            sc.append(((k,), 1, (0, 1, 2), 2, algo, (1,)))
            sc.append(((k,), 1, (0, 1), 4 if th and k != 'fridge' else 3, algo, (1,)))
            sc.append(((k,), 2, (0, 1), 1 if k == 'fridge' and not th else 2, algo, (1,)))
    for a, b in itertools.permutations(ROWS, 2):
        if a in ('away', 'prob') and b in ('away', 'prob'):
            continue
        sc.append(((a, b), 1, (0, 1), 3 if th else 2, 'uniform', (1, 1)))
        sc.append(((a, b), 1, (0, 2), 2, 'only_always_on' if len(a) % 2 else 'only_switched_on', (1, 0)))
    for t in itertools.permutations(('iron', 'tv', 'fridge', 'tv2', 'lamp'), 3):
        sc.append((t, 1, (0, 1), 3 if th else 2, 'uniform', (1, 1, 1)))
    sc = [x + (False,) for x in sc] + [x + (True,) for x in sc if len(x[0]) == 1 and x[3] <= 2]
    for j, s in enumerate(interleave(sc, 64)):
        ck.add('histories #%d' % j, histories, s)
    ck.add('long', long)
    ck.add('algorithms', refused)
    ck.rule = ('%d sets of 1-3 appliances, every sequence of numbers of persons in 2 activities over 2-4 steps in 1-2 '
               'households; all lengths of profiles 2-7 against all activity durations 1-15' % len(sc))
    ck.assumptions = ['stub datasets']
