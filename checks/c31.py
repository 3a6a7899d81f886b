"""C31: household occupancy simulators (transit and CREST 4 states)."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import pdf_of, law_of, product_law, law_diff, interleave, ints

LEVEL = 'model_checking'
MIN10 = dt.timedelta(minutes=10)
ACTS = ['active', 'HWH', 'HOH']


def label(a, w, o):
    return a + 7 * w + 49 * o


def day_code(d, flags):
    """Time attributes the data of a day must be asked for: (weekday, quarter)."""
    w = d.isoweekday()
    seven, ends = flags.get('use_7days', False), flags.get('use_week_ends_days', True)
    if seven and ends:
        wd = 0
    elif seven:
        wd = w
    elif ends:
        wd = 8 if w <= 5 else 9
    else:
        wd = 0
    q = (d.month + 2) // 3 if flags.get('use_quarters') else 0
    return wd, q


def asked_code(sg):
    w = sg.get('weekday')
    w = 0 if w in (None, 0) else 8 if w == [1, 2, 3, 4, 5] else 9 if w == [6, 7] else w
    return w, sg.get('quarter') or 0


LABELS = {1: [label(*x) for x in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))],
          3: [label(*x) for x in ((0, 1, 2), (3, 0, 0), (1, 1, 0), (2, 0, 1), (0, 0, 3))],
          6: [label(*x) for x in ((6, 0, 0), (0, 6, 0), (0, 0, 6), (2, 3, 1), (4, 2, 3))]}


class World:
    """A dataset of deterministic schedules, one for each type of day, and the reference that follows them."""
    T = 144

    def __init__(self, s0=0, drop=False, dead=False):
        self.s0, self.drop, self.dead = s0, drop, dead

    def labels(self, n, code):
        base = LABELS[n]
        k = code[0] + 3 * code[1] + n
        perms = list(itertools.permutations(range(len(base))))
        lab = [base[i] for i in perms[(7 * k) % len(perms)]]
        if self.drop and k % 2:
            lab = lab[:-1]
        return np.array(lab)

    def nxt(self, n, code, t):
        """Where each state index goes at time t of a day of this type (None: not in the data)."""
        L = len(self.labels(n, code))
        k = code[0] * 5 + code[1] + n
        out = [(i * (1 if t % 2 else -1) + t * t + k) % L for i in range(L)]
        if self.dead and t % 3 == k % 3:
            out[(t + k) % L] = None
        if self.dead and out[0] is None:
            out[0] = 1 % L
        return out

    def load_sparse_tpm(self, subgroup):
        from demod.utils.sparse import SparseTPM
        n, code = subgroup['n_residents'], asked_code(subgroup)
        lab = self.labels(n, code)
        rows = [(t, i, j, 1.0) for t in range(self.T) for i, j in enumerate(self.nxt(n, code, t)) if j is not None]
        ti, fr, to, va = zip(*rows)
        return (SparseTPM(np.array(ti), np.array(fr), np.array(to), np.array(va), n_states=len(lab), n_times=self.T),
                lab, np.array(ACTS), np.eye(len(lab))[self.s0 % len(lab)])


class Ref:
    """What one household of n residents must be doing."""

    def __init__(self, w, n, start, flags):
        self.w, self.n, self.flags = w, n, flags
        code = (0, 0)
        self.code, self.s = code, w.s0 % len(w.labels(n, code))
        self.i = 0
        self.aware = start is not None
        if self.aware:
            k = int(((start.hour - 4) % 24) * 6 + start.minute // 10)
            self.t = start - k * MIN10
            self.change(day_code(self.t, flags))
            for _ in range(k):
                self.step()

    def change(self, code):
        lab = self.w.labels(self.n, self.code)[self.s]
        new = list(self.w.labels(self.n, code))
        self.s = new.index(lab) if lab in new else 0
        self.code = code

    def step(self):
        if self.aware:
            if self.i % 144 == 0:
                self.change(day_code(self.t, self.flags))
            self.t += MIN10
        nx = self.w.nxt(self.n, self.code, self.i % 144)
        s = nx[self.s]
        self.s = nx[0] if s is None else s
        self.i += 1

    @property
    def label(self):
        return int(self.w.labels(self.n, self.code)[self.s])


def observables(labels, ns):
    a, w, o = [np.array([(l // 7 ** k) % 7 for l in labels]) for k in range(3)]
    occ = np.asarray(ns) - w - o
    act = np.minimum(occ, a)
    return {'active': a, 'HWH': w, 'HOH': o, 'occ': occ, 'act': act, 'gains': 84 * (occ - act) + 147 * act}


def observed(sim):
    out = {k: np.asarray(sim.get_n_doing_activity(k)) for k in ACTS}
    out.update(occ=np.asarray(sim.get_occupancy()), act=np.asarray(sim.get_active_occupancy()),
               gains=np.asarray(sim.get_thermal_gains()))
    return out


def compare(rec, sim, labels, ns, ctx):
    want, got = observables(labels, ns), observed(sim)
    return rec.expect(all(np.array_equal(got[k], want[k]) for k in want),
                      'occupancy differs from the schedule of the household on this type of day',
                      lambda: {**ctx, 'got': got, 'want': want}, 'transit schedule')


def schedules(rec, scen):
    from demod.simulators.sparse_simulators import SparseTransitStatesSimulator, SubgroupsActivitySimulator
    for n, start, flags, s0, drop, dead, steps, multi, *every in scen:
        every = every[0] if every else 1
        w = World(s0, drop, dead)
        ctx = {'start': start, 'flags': flags, 'initial state': s0, 'dropped labels': drop, 'dead states': dead}
        kw = dict(data=w, **flags)
        if start is not None:
            kw['start_datetime'] = start
        with active(Fixed(1)):
            if multi:
                sgs = [{'n_residents': x} for x in (n, 1, 6)]
                nums = [2, 0, 1] if multi == 1 else [1, 2, 1]
                sim = SubgroupsActivitySimulator(sgs, nums, **kw)
                ns = [g['n_residents'] for g, k in zip(sgs, nums) for _ in range(k)]
                rec.expect(sgs == [{'n_residents': x} for x in (n, 1, 6)], 'the subgroups given are modified',
                           {**ctx, 'got': sgs}, 'caller subgroups')
            else:
                sg = {'n_residents': n}
                sim = SparseTransitStatesSimulator(2, sg, **kw)
                ns = [n, n]
                rec.expect(sg == {'n_residents': n}, 'the subgroup given is modified', {**ctx, 'got': sg}, 'caller subgroups')
            refs = {x: Ref(w, x, start, flags) for x in set(ns)}
            rec.expect(sim.n_households == len(ns), 'number of households', {**ctx, 'got': sim.n_households}, 'n_households')
            for k in range(steps):
                if k % every == 0 and not compare(rec, sim, [refs[x].label for x in ns], ns, {**ctx, 'n_residents': ns, 'step': k}):
                    break
                rec.state((n, str(start), str(flags), s0, drop, dead, multi, k))
                sim.step()
                for r in refs.values():
                    r.step()
                rec.transition()
            # the two forms of the getter
            got = sim.get_n_doing_state(['HOH', 'active', 1])
            rec.expect(all(np.array_equal(a, b) for a, b in zip(got, [sim.get_n_doing_activity('HOH'),
                                                                     sim.get_n_doing_activity('active'),
                                                                     sim.get_n_doing_activity('HWH')])),
                       'numbers of residents doing a list of states', ctx, 'list of states')
            for bad in ('none of them', 'sleeping'):
                try:
                    sim.get_n_doing_state(bad)
                    rec.fail('an unknown activity is accepted', bad, 'unknown activity')
                except ValueError:
                    pass
        rec.trace()
    rec.sample(ctx)


def joint(rec, scen):
    """Exact law of the trajectories of several households."""
    from demod.simulators.sparse_simulators import SubgroupsActivitySimulator, SparseTransitStatesSimulator
    from demod.utils.sparse import SparseTPM
    lab = np.array([label(1, 0, 0), label(0, 1, 0), label(0, 0, 0)])
    tp = {1: [[(1, 1, 0), (0, 1, 1), (2, 0, 0)], [(0, 1, 1), (2, 0, 0), (1, 0, 1)]],
          3: [[(0, 2, 0), (1, 0, 1), (1, 1, 0)], [(1, 0, 1), (0, 0, 2), (0, 2, 0)]]}
    ini = {1: (1, 1, 0), 3: (0, 1, 1)}

    class D:
        def load_sparse_tpm(self, sg):
            n = sg['n_residents']
            rows = [(t, i, j, c / 2) for t, m in enumerate(tp[n]) for i, r in enumerate(m) for j, c in enumerate(r) if c]
            return (SparseTPM(*[np.array(c) for c in zip(*rows)], n_states=3, n_times=2), lab, np.array(ACTS),
                    pdf_of(ini[n]))
    for nums, start, depth in scen:
        ns = [n for n, k in zip((1, 3), nums) for _ in range(k)]

        def run(ch):
            kw = {} if start is None else {'start_datetime': start}
            sim = SubgroupsActivitySimulator([{'n_residents': 1}, {'n_residents': 3}], list(nums), data=D(), **kw)
            out = []
            for k in range(depth + 1):
                if k:
                    sim.step()
                out.append(tuple(zip(ints(sim.get_n_doing_activity('active')), ints(sim.get_n_doing_activity('HWH')))))
            return tuple(out)
        law, runs = distribution(run, grid=2)
        rec.transition(runs)
        rec.trace(runs)
        skip = 0 if start is None else start.minute // 10
        one = {}
        for n in (1, 3):
            l = {(s,): p for s, p in law_of(ini[n]).items()}
            for k in range(depth + skip):
                new = {}
                for tr, p in l.items():
                    for s2, q in law_of(tp[n][k % 2][tr[-1]]).items():
                        new[tr + (s2,)] = new.get(tr + (s2,), 0) + p * q
                l = new
            cut = {}
            for tr, p in l.items():
                cut[tr[skip:]] = cut.get(tr[skip:], 0) + p
            one[n] = cut
        want = {}
        for trs, p in product_law([one[n] for n in ns]).items():
            key = tuple(tuple((int(lab[tr[k]] % 7), int(lab[tr[k]] // 7 % 7)) for tr in trs) for k in range(depth + 1))
            want[key] = want.get(key, 0) + p
        for s in law:
            rec.state((nums, str(start), s))
        rec.expect(law == want, 'the joint law of the household states differs from independent households',
                   lambda: {'numbers': nums, 'start': start, 'got,want': dict(list(law_diff(law, want).items())[:6])},
                   'transit joint law')


class CrestWorld:
    """CREST stub: deterministic schedules by number of residents and type of day."""
    refresh_time = dt.time(0)
    T = 144

    def __init__(self, pdf, s0, order=1):
        self.pdf, self.s0, self.order = pdf, s0, order

    def start(self, n, day):
        return (self.s0 + (day == 'e')) % (n + 1) ** 2

    def load_population_subgroups(self, population_type):
        assert population_type == 'resident_number', population_type
        return [{'n_residents': i + 1} for i in range(len(self.pdf))][::self.order], np.array(self.pdf, dtype=float)[::self.order], {}

    def labels(self, n, day):
        lab = [10 * a + b for a in range(n + 1) for b in range(n + 1)]
        return np.array(lab[::-1] if day == 'e' else lab)

    def perm(self, n, day, t):
        """Label index (in the order of weekdays) -> label index."""
        L = (n + 1) ** 2
        k = 2 if day == 'e' else 5
        return [(i * (1 if (t + k) % 3 else L - 1) + k * t + t // 7) % L for i in range(L)]

    def load_tpm(self, sg):
        n, day = sg['n_residents'], {(1, 2, 3, 4, 5): 'd', (6, 7): 'e'}[tuple(sg['weekday'])]
        L = (n + 1) ** 2
        idx = list(range(L))[::-1] if day == 'e' else list(range(L))  # position of the label in this order
        tpm = np.zeros((self.T, L, L))
        for t in range(self.T):
            for i, j in enumerate(self.perm(n, day, t)):
                tpm[t, idx[i], idx[j]] = 1
        return tpm, self.labels(n, day), np.eye(L)[idx[self.start(n, day)]]


def crest(rec, scen):
    from demod.simulators.crest_simulators import Crest4StatesModel
    for counts, n_hh, algo, start, s0, steps, order, every in scen:
        pdf = np.array(counts) / sum(counts)
        w = CrestWorld(pdf, s0, order)
        with active(Fixed(3)):
            sim = Crest4StatesModel(n_hh, data=w, start_datetime=start, population_sampling_algo=algo)
            ns = np.asarray(sim.n_residents)
            ctx = {'start': start, 'pdf': pdf, 'n_households': n_hh, 'initial state': s0}
            rec.expect(len(ns) == n_hh == sim.n_households, 'number of households', {**ctx, 'got': ns}, 'crest households')
            rec.expect(all(counts[n - 1] for n in ns), 'households of a size that does not exist', {**ctx, 'got': ns},
                       'crest households')
            if algo == 'real_population' and n_hh % sum(counts) == 0:
                rec.expect([ints(ns).count(k + 1) for k in range(len(counts))] == [c * n_hh // sum(counts) for c in counts],
                           'numbers of households of each size', {**ctx, 'got': ns, 'order': order}, 'crest numbers')
            t = start.replace(hour=0, minute=0, second=0)
            k = int((start - t) / MIN10)
            t += (start - t) % MIN10
            day, i = 'd' if start.isoweekday() <= 5 else 'e', 1
            st = {n: w.start(n, day) for n in set(ints(ns))}

            def advance():
                nonlocal t, i, day
                if t.time() < dt.time(0, 10):
                    new = 'd' if t.isoweekday() <= 5 else 'e'
                    if new != day:
                        day, i = new, 1
                for n in st:
                    st[n] = w.perm(n, day, i % 144)[st[n]]
                i += 1
                t += MIN10
            for _ in range(k):
                advance()
            for j in range(steps):
                if j % every:
                    sim.step()
                    advance()
                    continue
                lab = np.array([w.labels(n, 'd')[st[n]] for n in ints(ns)])
                occ, a = lab // 10, lab % 10
                act = np.minimum(occ, a)
                want = {'occ': occ, 'act': act, 'gains': 84 * np.maximum(occ - a, 0) + 147 * act}
                got = {'occ': np.asarray(sim.get_occupancy()), 'act': np.asarray(sim.get_active_occupancy()),
                       'gains': np.asarray(sim.get_thermal_gains())}
                if not rec.expect(all(np.array_equal(got[x], want[x]) for x in want) and sim.current_time == t,
                                  'occupancy differs from the schedule of the household on this type of day',
                                  lambda: {**ctx, 'step': j, 'clock': sim.current_time, 'want clock': t, 'got': got,
                                           'want': want}, 'crest schedule'):
                    break
                for x, v in (('occ', sim.get_occupancy), ('act', sim.get_active_occupancy)):
                    rec.expect(all(v(h) == want[x][h] for h in range(n_hh)), 'value of one household', ctx, 'crest one')
                rec.state((counts, n_hh, str(start), s0, j))
                sim.step()
                advance()
                rec.transition()
        rec.trace()
    rec.sample(ctx)


FLAGS = [{}, {'use_week_ends_days': False}, {'use_week_ends_days': False, 'use_7days': True}, {'use_quarters': True},
         {'use_week_ends_days': False, 'use_7days': True, 'use_quarters': True},
         {'use_week_ends_days': False, 'use_quarters': True}, {'use_7days': True}]


def build(ck):
    import demod.simulators.crest_simulators  # noqa
    import demod.simulators.sparse_simulators  # noqa
    th = ck.thorough
    runs = []
    starts = [dt.datetime(2014, 1, 3, 4), dt.datetime(2014, 1, 4, 3, 50), dt.datetime(2014, 1, 5, 23, 50),
              dt.datetime(2014, 1, 6, 0, 0), dt.datetime(2014, 3, 31, 3, 35), dt.datetime(2015, 12, 31, 12, 0),
              dt.datetime(2014, 6, 30, 4, 9), dt.datetime(2014, 9, 28, 2, 20), dt.datetime(2016, 2, 28, 17, 10)]
    for flags in FLAGS:
        for j, s in enumerate(starts):
            for n in (1, 3, 6):
                for drop, dead in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    if not th and (j + n + drop + 2 * dead) % 2:
                        continue
                    runs.append((n, s, flags, (j + n) % 4, bool(drop), bool(dead), 144 * (9 if th else 3) + 5,
                                 (j + drop) % 3))
    # every hour of every day of a week
    for d in range(7):
        for h in range(24):
            for m in ((0, 50) if not th else (0, 10, 25, 50, 59)):
                s = dt.datetime(2014, 9, 27 + d if d < 4 else d - 3, h, m) if d < 4 else dt.datetime(2014, 10, d - 3, h, m)
                runs.append((3, s, {'use_quarters': True}, h % 5, False, False, 150, 0))
    for n in (1, 3, 6):
        for s0 in range(5):
            for m in (0, 1):
                runs.append((n, None, {}, s0, False, False, 300, m))
    js = [((1, 0), None, 4), ((0, 1), None, 4), ((1, 1), None, 3), ((2, 1), None, 1), ((1, 1), dt.datetime(2014, 1, 1, 4, 20), 1)]
    if th:
        js += [((2, 1), None, 2), ((1, 2), None, 2), ((3, 0), None, 2), ((2, 2), None, 1)]
    for x in js:
        ck.add('joint %s' % (x,), joint, [x])
    cr = []
    for counts in ((1, 1, 1), (0, 1, 0), (3, 0, 1), (1, 2, 0, 1)):
        for n_hh in (1, 2, 5):
            for algo in ('real_population', 'monte_carlo'):
                for j, s in enumerate(starts + [dt.datetime(2014, 1, 4, 0, 5), dt.datetime(2014, 1, 10, 0, 0)]):
                    if not th and (j + n_hh) % 3:
                        continue
                    cr.append((counts, n_hh, algo, s, j, 144 * (8 if th else 3), -1 if j % 2 else 1, 1))
    for counts in ((1, 1, 2), (3, 0, 1), (1, 2, 0, 1)):
        for order in (1, -1):
            cr.append((counts, 8, 'real_population', starts[0], 1, 5, order, 1))
    # every day of two years
    for half in range(8):
        s = dt.datetime(2015 + half // 4, 1 + half % 4 * 3, 1, 12)
        cr.append(((1, 1, 1), 3, 'real_population', s, half, 144 * 93, 1, 37))
        for k, flags in enumerate(FLAGS[:5]):
            if th or k == half % 5 or k == 3:
                runs.append((1 if half % 2 else 3, s, flags, k, False, False, 144 * 93, 0, 37))
    for j, s in enumerate(interleave(runs, 32)):
        ck.add('transit #%d' % j, schedules, s)
    for j, s in enumerate(interleave(cr, 16)):
        ck.add('crest #%d' % j, crest, s)
    ck.rule = ('%d runs of transit simulators over 1-9 days (all day-type parameters, all starting hours of a week over a '
               'quarter end, and every day of two years), %d joint laws with all draws enumerated, %d runs of the CREST population'
               % (len(runs), len(js), len(cr)))
    ck.assumptions = ['stub datasets; states are encoded as in the shipped data']
