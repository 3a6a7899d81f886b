"""C09: households made of individually simulated persons."""
import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import pdf_of, law_of, product_law, law_diff, same, interleave
from checks._indiv import LAB, Data, day_type, freeze, persons

LEVEL = 'model_checking'

GROUPS = [
    {'n_residents': 1, 'household_type': 1},
    {'n_residents': 2, 'household_type': 2},
    {'n_residents': 2, 'household_type': 3},
    {'n_residents': 3, 'household_type': 4},
    {'n_residents': 3, 'household_type': 3},
    {'n_residents': 2},
    {'n_residents': 1, 'geographic_region': 1},
    {'n_residents': 2, 'household_type': 2, 'geographic_region': 1},
    {'n_residents': 2, 'household_type': 5},
    {'n_residents': 1, 'household_type': 1, 'hh_mean_age': 3},
]


def sims():
    from demod.simulators.activity_simulators import (
        SubgroupsIndividualsActivitySimulator, MarkovChain1rstOrder, SemiMarkovSimulator)
    return SubgroupsIndividualsActivitySimulator, {'markov': MarkovChain1rstOrder, 'semi': SemiMarkovSimulator}


def counts(sim, labels=LAB):
    """Household-level observables."""
    return tuple(tuple(int(x) for x in sim.get_n_doing_activity(l)) for l in labels)


def conserved(rec, sim, n_res, ctx, labels=LAB):
    """Every resident is in exactly one activity, and the occupancy is that of the activities."""
    st = sim.get_activity_states()
    tot = sum(np.asarray(sim.get_n_doing_activity(l)) for l in labels)
    ok = rec.expect(np.array_equal(tot, n_res) and np.array_equal(sim.n_residents, n_res),
                    'the persons in the activities of a household are not its residents',
                    lambda: {**ctx, 'persons': tot, 'residents': n_res, 'n_residents': sim.n_residents}, 'conservation')
    away = np.asarray(sim.get_n_doing_activity('away'))
    sleep = np.asarray(sim.get_n_doing_activity('sleeping'))
    ok &= rec.expect(np.array_equal(sim.get_occupancy(), n_res - away)
                     and np.array_equal(sim.get_active_occupancy(), n_res - away - sleep)
                     and set(st) == set(labels) | {'active_occupancy'}
                     and all(np.array_equal(st[l], sim.get_n_doing_activity(l)) for l in labels)
                     and np.array_equal(st['active_occupancy'], n_res - away - sleep)
                     and all(np.array_equal(sim.get_performing_activity(l), st[l]) for l in labels)
                     and all(np.array_equal(a, st[l]) for a, l in zip(sim.get_n_doing_activity(list(labels)), labels)),
                     'occupancy differs from the activities',
                     lambda: {**ctx, 'states': st, 'occupancy': sim.get_occupancy(),
                              'active': sim.get_active_occupancy()}, 'occupancy')
    return ok


def mapping(rec, scen):
    """Each household is made of exactly its own persons: one label per person type, any order."""
    Sim, subs = sims()
    for sub, gs, ns in scen:
        sgs = [dict(GROUPS[g]) for g in gs]
        keep = [dict(s) for s in sgs]
        types = sorted({freeze(p) for g in sgs for p in persons(g)}, key=repr)
        labels = np.array(['t%d' % i for i in range(len(types))] + ['away', 'sleeping'])
        L = len(labels)
        # every person stays in the state of its type, then moves to the next label, and so on
        tpm = np.array([np.roll(np.eye(L), 1, axis=1)] * 3)
        D = np.zeros((3, L, 4))
        D[:, :, 1] = 1

        def load(sg):
            return tpm, labels, np.eye(L)[types.index(freeze(sg))]

        def load_semi(sg):
            init_d = np.zeros((L, 4))
            init_d[:, 1] = 1
            return tpm, D, labels, np.eye(L)[types.index(freeze(sg))], init_d

        with active(Fixed(1)):
            sim = Sim(sgs, list(ns), subsimulator=subs[sub], data=Data(tpm=load, semi=load_semi),
                      start_datetime=dt.datetime(2014, 1, 1, 4))
            hh = [g for g, n in zip(sgs, ns) for _ in range(n)]
            n_res = np.array([h['n_residents'] for h in hh])
            rec.expect(sim.n_households == len(hh), 'number of households', None, 'n_households')
            for k in range(3):
                want = np.zeros((L, len(hh)), dtype=int)
                for h, sg in enumerate(hh):
                    for p in persons(sg):
                        want[(types.index(freeze(p)) + k) % L, h] += 1
                got = np.array([sim.get_n_doing_activity(l) for l in labels])
                ctx = {'subgroups': sgs, 'numbers': ns, 'simulator': sub, 'step': k}
                rec.expect(np.array_equal(got, want), 'activities are not those of the persons of the household',
                           lambda: {**ctx, 'got': got, 'want': want, 'labels': labels}, 'mapping')
                conserved(rec, sim, n_res, ctx, list(labels))
                for h in range(0):
                    pass
                sim.step()
                rec.transition()
                rec.state((sub, gs, ns, k))
            rec.expect(sgs == keep, 'the subgroups given are modified', {'got': sgs, 'want': keep}, 'caller subgroups')
        rec.trace()
    rec.sample({'simulator': sub, 'subgroups': sgs, 'numbers': ns})


def joint(rec, scen):
    """Exact law of the observable trajectory, all draws enumerated."""
    Sim, subs = sims()
    tp = {0: [[(1, 1, 0), (0, 1, 1), (2, 0, 0)], [(0, 1, 1), (2, 0, 0), (1, 0, 1)]],
          1: [[(0, 2, 0), (1, 0, 1), (1, 1, 0)], [(1, 0, 1), (0, 0, 2), (0, 2, 0)]],
          2: [[(1, 0, 1), (2, 0, 0), (0, 1, 1)], [(0, 2, 0), (1, 1, 0), (0, 0, 2)]]}
    ini = {0: (1, 1, 0), 1: (0, 1, 1), 2: (1, 0, 1)}
    for gs, ns, depth, perm in scen:
        sgs = [dict(GROUPS[g]) for g in gs]
        types = sorted({freeze(p) for g in sgs for p in persons(g)}, key=repr)
        hh = [g for g, n in zip(sgs, ns) for _ in range(n)]
        labels = np.array(LAB)

        def load(sg):
            i = types.index(freeze(sg)) % 3
            return np.array([[pdf_of(r) for r in m] for m in tp[i]]), labels, pdf_of(ini[i])

        def run(ch):
            sim = Sim([dict(s) for s in sgs], list(ns), subsimulator=subs['markov'], data=Data(tpm=load),
                      start_datetime=dt.datetime(2014, 1, 1, 4))
            out = [counts(sim)]
            for _ in range(depth):
                sim.step()
                out.append(counts(sim))
            return tuple(out)
        law, runs = distribution(run, grid=2)
        rec.transition(runs)
        rec.trace(runs)
        # reference: independent persons
        one = {}
        for i in range(3):
            l = {(s,): p for s, p in law_of(ini[i]).items()}
            for k in range(1, depth + 1):
                nxt = {}
                for tr, p in l.items():
                    for s2, q in law_of(tp[i][k % 2][tr[-1]]).items():
                        nxt[tr + (s2,)] = nxt.get(tr + (s2,), 0) + p * q
                l = nxt
            one[i] = l
        who = [(h, types.index(freeze(p)) % 3) for h, sg in enumerate(hh) for p in persons(sg)]
        want = {}
        for trs, p in product_law([one[i] for _, i in who]).items():
            c = np.zeros((depth + 1, 3, len(hh)), dtype=int)
            for (h, _), tr in zip(who, trs):
                for k, s in enumerate(tr):
                    c[k, s, h] += 1
            key = tuple(tuple(tuple(int(x) for x in r) for r in m) for m in c)
            want[key] = want.get(key, 0) + p
        for s in law:
            rec.state((gs, ns, s))
        rec.expect(law == want, 'the joint law of the household activities differs from independent persons',
                   lambda: {'subgroups': sgs, 'numbers': ns, 'steps': depth,
                            'got,want': dict(list(law_diff(law, want).items())[:6])}, 'joint law')


FLAGS = [{}, {'use_week_ends_days': True}, {'use_week_sat_sun': True}, {'use_7days': True},
         {'use_quarters': True}, {'use_week_ends_days': True, 'use_quarters': True},
         {'use_7days': True, 'use_quarters': True}, {'use_week_sat_sun': True, 'use_quarters': True}]


def code(sg):
    """A number for the time attributes of a subgroup."""
    w = sg.get('weekday')
    w = 0 if w is None else (8 if w == [1, 2, 3, 4, 5] else 9 if w == [6, 7] else w)
    return w + 10 * sg.get('quarter', 0)


def schedule(c, T, L=4):
    """One permutation of the label names per time, depending on the day type."""
    perms = list(itertools.permutations(range(L)))
    return [perms[(7 * c + 5 * t + t * t) % len(perms)] for t in range(T)]


def days(rec, scen):
    """The schedule of the day's own type, aligned with the time of day, labels kept."""
    Sim, subs = sims()
    base = np.array(['away', 'sleeping', 'active', 'other'])
    orders = list(itertools.permutations(range(4)))
    for sub, flags, start, refresh, T, n_steps in scen:
        def labels_of(c):
            return base[list(orders[(3 * c) % 24])]

        def durs(c, t, j):  # duration of a stay in label j starting at time t
            return 1 + (c + t + 2 * j) % 3

        def make(sg):
            c = code(sg)
            lab = labels_of(c)
            pos = {l: i for i, l in enumerate(lab)}
            tpm = np.zeros((T, 4, 4))
            D = np.zeros((T, 4, 6))
            for t, p in enumerate(schedule(c, T)):
                for i, j in enumerate(p):
                    tpm[t, pos[base[i]], pos[base[j]]] = 1
                    D[t, pos[base[j]], durs(c, t, j)] = 1
            return tpm, D, lab, np.eye(4)[pos['sleeping']], np.eye(6)[[2] * 4]

        data = Data(refresh, tpm=lambda sg: (lambda r: (r[0], r[2], r[3]))(make(sg)), semi=make)
        with active(Fixed(2)):
            sim = Sim([{'n_residents': 1}], [1], subsimulator=subs[sub], data=data, start_datetime=start, **flags)
        # reference, from the latest refresh time
        t = start.replace(hour=refresh.hour, minute=refresh.minute, second=0)
        if t > start:
            t -= dt.timedelta(days=1)
        rem = (start - t) % dt.timedelta(minutes=10)
        t += rem
        s, left, k, c, idx = 1, 1, 0, code({}), 0
        on = bool(flags)

        def advance():
            nonlocal s, left, k, c, idx, t
            if (t - dt.timedelta(hours=refresh.hour)).time() < dt.time(0, 10) and on:
                c, idx = code(day_type(t, flags)), 0
            idx += 1
            if sub == 'markov':
                s = schedule(c, T)[idx % T][s]
            else:
                if left < 1:
                    s = schedule(c, T)[idx % T][s]
                    left = durs(c, idx % T, s)
                left -= 1
            k += 1
            t += dt.timedelta(minutes=10)
        if sub == 'semi':
            left = 1  # 2 steps, minus the current one
        while t < start:
            advance()
        for j in range(n_steps):
            got = [l for l in base if int(sim.get_n_doing_activity(l)[0]) == 1]
            if not rec.expect(got == [base[s]] and sim.current_time == t,
                              'activity is not that of the schedule of this type of day at this time of day',
                              lambda: {'flags': flags, 'start': start, 'refresh': refresh, 'n_times': T, 'simulator': sub,
                                       'at': t, 'clock': sim.current_time, 'got': got, 'want': base[s]}, 'schedule of the day'):
                break
            rec.state((sub, str(flags), str(start), T, j, s))
            with active(Fixed(j)):
                sim.step()
            advance()
            rec.transition()
        rec.trace()
    rec.sample({'flags': flags, 'start': str(start), 'refresh': str(refresh), 'n_times': T, 'simulator': sub})


def lost(rec, _):
    """A label that does not exist on the new day: the persons go to the first state, the others keep theirs."""
    Sim, subs = sims()
    a, b = np.array(['away', 'sleeping', 'x', 'active']), np.array(['sleeping', 'active', 'away'])
    for sub in ('markov', 'semi'):
        for s0 in range(4):
            for order in itertools.permutations(range(3)):
                bb = b[list(order)]

                def make(sg):
                    lab = bb if sg.get('weekday') == [6, 7] else a
                    n = len(lab)
                    T = 144
                    D = np.zeros((T, n, 9))
                    D[:, :, 1] = 1
                    return np.array([np.eye(n)] * T), D, lab, np.eye(n)[s0 % n], np.eye(9)[[1] * n]
                data = Data(dt.time(4), tpm=lambda sg: (lambda r: (r[0], r[2], r[3]))(make(sg)), semi=make)
                with active(Fixed(1)):
                    sim = Sim([{'n_residents': 1}], [2], subsimulator=subs[sub], data=data,
                              start_datetime=dt.datetime(2014, 1, 4, 3, 50), use_week_ends_days=True)
                    for k in range(3):
                        lab = a if k < 2 else bb
                        want = a[s0] if k < 2 or a[s0] in bb else bb[0]
                        got = [l for l in lab if list(sim.get_n_doing_activity(l)) == [1, 1]]
                        rec.expect(got == [want], 'state after a change of labels',
                                   {'simulator': sub, 'old label': a[s0], 'new labels': bb, 'step': k, 'got': got,
                                    'want': want}, 'labels')
                        rec.state((sub, s0, order, k))
                        rec.transition()
                        sim.step()
                rec.trace()


def build(ck):
    import demod.simulators.activity_simulators  # noqa
    th = ck.thorough
    maps = []
    for sub in ('markov', 'semi'):
        for k in (1, 2, 3):
            for gs in itertools.permutations(range(len(GROUPS)), k) if k < 3 else itertools.permutations(
                    (1, 3, 5, 0, 7), 3):
                for ns in itertools.product((0, 1, 2) if k > 1 else (1, 3), repeat=k):
                    if sum(ns) == 0:
                        continue
                    if sub == 'semi' and not th and (sum(gs) + sum(ns)) % 3:
                        continue
                    maps.append((sub, gs, ns))
    for j, s in enumerate(interleave(maps, 16)):
        ck.add('mapping #%d' % j, mapping, s)
    js = [((0,), (1,), 4, 0), ((0,), (2,), 2, 0), ((1,), (1,), 3, 0), ((1,), (2,), 1, 0), ((3,), (1,), 2, 0),
          ((0, 1), (1, 1), 2, 0), ((2, 0), (1, 1), 2, 0), ((4,), (1,), 2, 0), ((5, 0), (1, 1), 2, 0)]
    if th:
        js += [((1, 3), (1, 1), 1, 0), ((1,), (2,), 2, 0), ((0, 1, 6), (1, 1, 1), 2, 0)]
    for j in js:
        ck.add('joint %s %s' % (j[0], j[1]) + str(j[2]), joint, [j])
    ds = []
    starts = [dt.datetime(2014, 1, 1, 4), dt.datetime(2014, 1, 3, 4), dt.datetime(2014, 1, 4, 3, 20),
              dt.datetime(2014, 1, 5, 23, 30), dt.datetime(2014, 3, 30, 12, 0), dt.datetime(2015, 12, 31, 3, 0),
              dt.datetime(2014, 9, 28, 0, 5), dt.datetime(2014, 1, 4, 6, 9), dt.datetime(2014, 6, 30, 2, 10)]
    for sub in ('markov', 'semi'):
        for flags in FLAGS:
            for start in starts:
                for refresh in (dt.time(4), dt.time(0)):
                    for T in (144, 5):
                        if T == 5 and refresh.hour == 0 and not th:
                            continue
                        ds.append((sub, flags, start, refresh, T, 144 * (8 if th else 4)))
    for j, s in enumerate(interleave(ds, 24)):
        ck.add('days #%d' % j, days, s)
    ck.add('lost labels', lost)
    ck.rule = ('%d household compositions over %d household types; joint laws of %d compositions (2-5 persons, 1-4 steps, '
               'all draw outcomes); %d runs over 4-8 days for all day-type parameters'
               % (len(maps), len(GROUPS), len(js), len(ds)))
    ck.assumptions = ['stub datasets; the step size is 10 minutes']
