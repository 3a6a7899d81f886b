"""C13: appliances switched on at random during or after activities, or after other appliances."""
import itertools
from fractions import Fraction

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import law_diff, interleave
from checks._apps import Data, DEFAULT, Feed

LEVEL = 'model_checking'
F = Fraction
N = 365.25 * 24 * 60  # steps of one minute in a year

ACTS = ('cook', 'wash', 'rest')
PROB = {'cook': [1.0] * 4, 'wash': [0.5, 1.0], 'rest': [0.0, 0.5]}  # probability of the activity over the day
STARTS = {'cook': [0.5, 0.25, 0.25], 'wash': [0.0, 1.0], 'rest': [1.0, 0.0]}  # number of starts per day and person


def during(act, p, duration):
    """Yearly switch-ons so that one possible step out of 1/p starts the appliance."""
    return p * N * np.mean(PROB[act]) / (1 + p * duration)


def after(act, p, residents):
    """Yearly switch-ons so that one end of the activity out of 1/p starts the appliance."""
    return p * 365.25 * sum(i * q for i, q in enumerate(STARTS[act])) * residents


def row(typ, act, duration=2.0, off=True, prev_act='nan', prev_app='nan', **kw):
    return dict(type=typ, related_activity=act, mean_duration=duration, inactive_switch_off=off, probabilistic=True,
                previous_activity=prev_act, previous_appliance_type=prev_app, **kw)


# name -> (row, probability of the switch-on)
KINDS = {
    'oven': (row('oven', 'cook', 2.0, standby_consumption=1), 0.5),
    'hob': (row('hob', 'cook', 3.0, mean_elec_consumption=33.0), 1.0),
    'kettle': (row('kettle', 'wash', 1.0, mean_water_consumption=2.0), 0.5),
    'pump': (row('pump', 'wash', 2.0, off=False), 0.5),
    'machine': (row('machine', 'cook', 1.0, off=False), 0.5),
    'dish': (row('dish', 'cook', 2.0, off=False, prev_act='cook'), 0.5),
    'fan': (row('fan', 'wash', 1.0, off=False, prev_act='cook'), 1.0),
    'dryer': (row('dryer', 'rest', 2.0, off=False, prev_app='machine'), 0.5),
    'rack': (row('rack', 'rest', 1.0, off=False, prev_app='machine', standby_consumption=3), 1.0),
    'chain': (row('chain', 'rest', 1.0, off=False, prev_app='rack'), 0.5),
    'never': (row('never', 'rest', 2.0), 0.0),
    'missing': (row('missing', 'cook', 2.0), 0.0),
}


def targets(names, residents):
    t = {}
    for k in names:
        r, p = KINDS[k]
        if r['previous_appliance_type'] != 'nan':
            continue
        t[r['type']] = (after(r['previous_activity'], p, residents) if r['previous_activity'] != 'nan'
                        else during(r['related_activity'], p, r['mean_duration']))
    if names.count('machine') > 1:
        t['machine_2'] = t['machine']
    for k in names:
        r, p = KINDS[k]
        if r['previous_appliance_type'] != 'nan':
            t[r['type']] = p * t.get(r['previous_appliance_type'], 0.0) * names.count(r['previous_appliance_type'])
    return t


def reference(ch, rows, probs, owned, n, seq):
    """The documented behaviour, one household at a time (households are independent)."""
    m = len(rows)
    left = np.zeros((n, m))
    power = lambda: tuple(  # noqa: E731
        tuple(0.0 if not owned[a] else float(rows[a]['mean_elec_consumption'] if left[h, a] > 0
                                             else rows[a]['standby_consumption']) for a in range(m)) for h in range(n))
    out = [power()]
    for k in range(1, len(seq)):
        for h in range(n):
            stopped = [a for a in range(m) if left[h, a] == 1]
            left[h] = np.maximum(left[h] - 1, 0)

            def draw(a):
                if owned[a] and left[h, a] <= 0 and probs[a] and ch.u01() < probs[a]:
                    return [a]
                return []
            on = []
            for a in range(m):
                for b in stopped:
                    if owned[b] and rows[a]['previous_appliance_type'] == rows[b]['type']:
                        on += draw(a)
            for a in on:
                left[h, a] = rows[a]['mean_duration']
            for i, act in enumerate(ACTS):
                now, before = seq[k][h][i], seq[k - 1][h][i]
                mine = [a for a in range(m) if rows[a]['related_activity'] == act]
                ends = before and not now
                if ends:
                    for a in mine:
                        if rows[a]['inactive_switch_off']:
                            left[h, a] = 0
                    on = [a for a in range(m) if rows[a]['previous_activity'] == act for a in draw(a)]
                    for a in on:
                        left[h, a] = rows[a]['mean_duration']
                if now:
                    for a in mine:
                        if rows[a]['previous_activity'] == 'nan' and rows[a]['previous_appliance_type'] == 'nan':
                            for a in draw(a):
                                left[h, a] = rows[a]['mean_duration']
        out.append(power())
    return tuple(out)


def joint(rec, scen):
    from demod.simulators.appliance_simulators import ProbabiliticActivityAppliancesSimulator as Sim
    for names, n, owned, seqs, look in scen:
        rows = [{**DEFAULT, **KINDS[k][0], 'equipped_prob': float(o)} for k, o in zip(names, owned)]
        probs = [KINDS[k][1] if not (KINDS[k][0]['previous_appliance_type'] != 'nan' and
                                     KINDS[k][0]['previous_appliance_type'] not in [r['type'] for r in rows]) else 0.0
                 for k in names]
        tg = targets(list(names), 2)
        data = Data(rows, targets=lambda sg: {k: v for k, v in tg.items() if k != 'missing'},
                    act_probs=lambda sg: {k: np.array(v) for k, v in PROB.items()},
                    act_starts=lambda sg: {k: np.array(v) for k, v in STARTS.items()})
        for r in rows:
            r['target_switchons'] = 0.0
        for seq in seqs:
            dicts = [{a: np.array([s[h][i] for h in range(n)]) for i, a in enumerate(ACTS)} for s in seq]

            def run(ch):
                feed = Feed(dicts, look == 'reuse')
                sim = Sim(n, feed[0], data=data, subgroups_list=[{'n_residents': 2}], n_households_list=[n],
                          step_size=data.step_size)
                out = []
                for k in range(len(seq)):
                    if k:
                        sim.step(feed[k])
                    if look or k + 1 == len(seq):
                        p = sim.get_current_power_consumptions()
                    else:
                        # without asking: the same as what is asked later must be found
                        p = np.where(sim.n_steps_left > 0, sim.appliances['mean_elec_consumption'],
                                     sim.appliances['standby_consumption']) * sim.available_appliances
                    out.append(tuple(tuple(float(x) for x in r) for r in p))
                rec.transition(len(seq))
                return tuple(out)
            got, runs = distribution(run, grid=2)
            rec.trace(runs)
            want, _ = distribution(lambda ch: reference(ch, rows, probs, owned, n, seq), grid=2)
            for s in got:
                rec.state((names, n, owned, s))
            if not rec.expect(got == want, 'law of the appliances differs',
                              lambda: {'appliances': names, 'owned': owned, 'activities (persons in %s)' % (ACTS,): seq,
                                       'getters called at each step': look, 'probabilities': probs,
                                       'got,want': dict(list(law_diff(got, want).items())[:3])}, 'joint law'):
                return
    rec.sample({'appliances': names, 'households': n, 'activities': seq})


def probabilities(rec, scen):
    """The switch-on probability meets the yearly target, for every subgroup."""
    from demod.simulators.appliance_simulators import ProbabiliticActivityAppliancesSimulator as Sim
    import datetime as dt
    for scale, residents, ns, minutes, optional in scen:
        rows = [dict(row('a', 'cook', 2.0), equipped_prob=1.0), dict(row('b', 'wash', 5.0), equipped_prob=1.0),
                dict(row('b', 'wash', 5.0), equipped_prob=1.0),
                dict(row('c', 'rest', 1.0, prev_act='cook'), equipped_prob=1.0),
                dict(row('d', 'rest', 1.0, prev_app='b'), equipped_prob=1.0),
                dict(row('x_a', 'cook', 1.0), equipped_prob=1.0), dict(row('y', 'cook', 4.0), equipped_prob=1.0)]
        for r in rows:
            r['target_switchons'] = 17.0
        if not optional:
            rows = [{k: v for k, v in r.items() if not k.startswith('previous')} for r in rows]

        def target(sg):
            k = sg.get('n_residents', 0) + 1 + 10 * sg.get('household_type', 0)
            return {'a': 100.0 * scale * k, 'b': 300.0 * scale * k, 'b_2': 50.0 * k, 'c': 20.0 * scale * k, 'd': 60.0 * k,
                    'a_2': 11.0 * k}
        often = [0.25, 0.25, 0.125, 0.125, 0.0, 0.125, 0.0, 0.0, 0.125]
        data = Data(rows, targets=target, act_probs=lambda sg: {
            k: np.array(v) / (1 + sg.get('n_residents', 0) + sg.get('household_type', 0)) for k, v in PROB.items()},
            act_starts=lambda sg: {k: np.array(v) for k, v in {**STARTS, 'cook': often}.items()})
        # subgroups with the same residents differ by their type
        sgs = [{'n_residents': r, **({'household_type': residents[:i].count(r)} if residents.count(r) > 1 else {})} if r else {}
               for i, r in enumerate(residents)]
        kw = dict(subgroups_list=sgs, n_households_list=list(ns)) if residents != (0,) else {}
        n = sum(ns)
        with active(Fixed(1)):
            sim = Sim(n, {a: np.zeros(n) for a in ACTS}, data=data, step_size=dt.timedelta(minutes=minutes), **kw)
        steps = N / minutes
        hh = [sg for sg, k in zip(sgs, ns) for _ in range(k)]
        for h, sg in enumerate(hh):
            t = target(sg)
            r = sg.get('n_residents', 0)
            res = r or 2.3
            q = {k: np.mean(v) / (1 + r + sg.get('household_type', 0)) for k, v in PROB.items()}
            T = [t['a'], t['b'], t['b_2'], t['c'], t['d'], t['a_2'], 17.0]
            want = []
            for x, row_ in zip(T, rows):
                if row_.get('previous_activity', 'nan') != 'nan':
                    want.append(x / (365.25 * sum(i * p for i, p in enumerate(often)) * res))
                elif row_.get('previous_appliance_type', 'nan') != 'nan':
                    want.append(x / (t['b'] + t['b_2']))
                else:
                    want.append(x / max(1, steps * q[row_['related_activity']] - row_['mean_duration'] * x))
            got = sim.switch_on_probs[h]
            rec.expect(np.allclose(got, want, rtol=1e-12, atol=0), 'switch-on probability does not meet the yearly target',
                       {'subgroup': sg, 'targets': T, 'minutes': minutes, 'got': got, 'want': want},
                       'target')
            rec.state((scale, residents, ns, minutes, optional, h))
            rec.transition()
        rec.trace()


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    th = ck.thorough

    def seqs(depth, which, n=1, values=(0, 1)):
        """All sequences of the activities in `which` (the others never occur)."""
        opts = [values if a in which else (0,) for a in ACTS]
        return list(itertools.product(itertools.product(itertools.product(*opts), repeat=n), repeat=depth + 1))
    sc = []
    D = 1 if th else 0
    for k in KINDS:
        act = KINDS[k][0]['related_activity']
        prev = KINDS[k][0]['previous_activity']
        which = {act, prev} & set(ACTS)
        for look in (True, False):
            sc.append(((k,), 1, (1,), seqs(4 + D if len(which) < 2 else 3, which), look))
        for look in (True, 'reuse'):
            sc.append(((k,), 1, (1,), seqs(2, which, 1, (0, 1, 2)), look))
        sc.append(((k,), 2, (1,), seqs(1, which, 2), True))
        sc.append(((k,), 1, (0,), seqs(2, which), True))
    for names, owns in ((('machine', 'dryer'), ((1, 1), (0, 1), (1, 0))), (('machine', 'rack'), ((1, 1), (0, 1))),
                        (('dryer', 'machine'), ((1, 1),)), (('oven', 'dish'), ((1, 1), (0, 1))),
                        (('hob', 'kettle'), ((1, 1),)), (('oven', 'pump'), ((1, 1),)), (('fan', 'pump'), ((1, 1),)),
                        (('hob', 'never'), ((1, 1),)), (('machine', 'oven'), ((1, 1),))):
        which = {KINDS[k][0]['related_activity'] for k in names} - {'rest'}
        for o in owns:
            for look in (True, False):
                sc.append((names, 1, o, seqs((3 + D) if len(which) < 2 else 2, which), look))
    for names in (('machine', 'rack', 'dryer'), ('machine', 'rack', 'chain'), ('machine', 'machine', 'rack')):
        for look in (True, False):
            sc.append((names, 1, (1, 1, 1), [q for q in seqs(4 if 'rack' in names and names.count('machine') == 1 else 3, {'cook'})
                                              if th or sum(x[0][0] for x in q) <= 2], look))
    for j, s in enumerate(interleave(sc, 48)):
        ck.add('joint #%d' % j, joint, s)
    pr = list(itertools.product((1.0, 3.0, 4000.0), ((1,), (2,), (1, 3), (2, 2), (0, 2), (0,), (6,), (5, 12)), ((2,), (1, 2), (0, 2), (2, 0)), (1, 10, 0.5, 1.25), (True, False)))
    pr = [p for p in pr if len(p[1]) == len(p[2])]
    ck.add('targets', probabilities, pr)
    ck.rule = ('%d sets of 1-3 appliances (during, after an activity, after an appliance, not owned), 1-2 households, every '
               'sequence of activities over 2-5 steps, with and without intermediate getters: exact law of all loads; %d '
               'target configurations' % (len(sc), len(pr)))
    ck.assumptions = ['stub datasets; no refresh period: these simulators do not document one']
