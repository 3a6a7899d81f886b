"""C34: what is parsed from the raw diaries of the German Time-Of-Use survey."""
import contextlib
import importlib
import io
import itertools
import os
import shutil
import sys
import warnings
from collections import Counter

import numpy as np

from checks.c20 import close, norm, ref_duration, ref_transitions
from mc.util import interleave

LEVEL = 'model_checking'
NAMES = itertools.count()

# code: (rating of being at home, active, label in DemodActivities_0, in Bottaccioli2018, activity of the profiles)
CODES = {
    110: (1, 0, 'sleeping', 'sleeping', None),
    120: (1, 1, 'eating', 'other', None),
    131: (1, 1, 'self_washing', 'self_washing', 'self_washing'),
    132: (1, 0, 'sleeping', 'other', None),
    210: (-1, 1, 'job', 'other', None),
    311: (-2, 1, 'school', 'other', None),
    411: (2, 1, 'cooking', 'cooking', 'cooking'),
    413: (2, 1, 'cooking', 'dishwashing', 'dishwashing'),
    421: (2, 1, 'cleaning', 'cleaning', 'cleaning'),
    431: (2, 1, 'laundry', 'laundry', 'laundry'),
    432: (2, 1, 'laundry', 'ironing', 'ironing'),
    611: (0, 1, 'leisure', 'other', None),
    820: (2, 1, 'watching_tv', 'watching_tv', 'watching_tv'),
    841: (1, 1, 'computer/smartphone', 'electronics', 'electronics'),
    921: (-2, 1, 'transportation', 'other', None),
    951: (-2, 1, 'transportation', 'other', None),
    997: (1, 1, 'transportation', 'other', None),
    0: (0, 1, 'only main activity', 'other', None),
}
ACTS = ['watching_tv', 'cooking', 'laundry', 'self_washing', 'ironing', 'cleaning', 'dishwashing', 'electronics']
TYPES = {'DemodActivities_0': 2, 'Bottaccioli2018': 3}
HH = ['id_hhx', 'ha1x', 'hhtyp', 'anz_erw', 'hd15x']
PERS = ['id_persx', 'id_hhx', 'alterx', 'pb3', 'pe23x', 'ha6x', 'ha8x', 'ha3']
DAY = ['id_hhx', 'id_persx', 'persx', 'tagnr', 'tc5', 'tc7', 'tc8', 'fehl_tag', 'selbtag', 'quartal', 'wtagfei']
ALL = dict(only_fully_recorded_household=False, remove_missing_days=False, only_household_identical_days=False)


@contextlib.contextmanager
def survey(households):
    """Parser and loaders of a survey of these households: [(attributes, [(attributes, [diary])])]."""
    name = 'gtou_%d_%d' % (os.getpid(), next(NAMES))
    top = os.path.join(os.environ['MC_TREE'], 'demod', 'datasets')
    d = os.path.join(top, name)
    os.makedirs(os.path.join(d, 'raw_data'))
    for f in os.listdir(os.path.join(top, 'GermanTOU')):
        if f.endswith('.py'):
            shutil.copyfile(os.path.join(top, 'GermanTOU', f), os.path.join(d, f))
    rows = {'hh': [], 'pers': [], 'takt': []}
    for h, (hh, persons) in enumerate(households, 1):
        rows['hh'].append([hh.get(c, 1) for c in HH])
        rows['hh'][-1][:2] = [h, hh.get('ha1x', len(persons))]
        for p, (pe, days) in enumerate(persons, 1):
            rows['pers'].append([pe.get(c, 1) for c in PERS])
            rows['pers'][-1][:2] = [10 * h + p, h]
            for i, day in enumerate(days, 1):
                r = {'tagnr': i, 'fehl_tag': 0, **day, 'id_hhx': h, 'id_persx': 10 * h + p, 'persx': p}
                rows['takt'].append([r.get(c, 1) for c in DAY] + list(r['prim']) + list(r['sec']) + [0] * 432)
    heads = {'hh': HH, 'pers': PERS, 'takt': DAY + ['tb%d_%d' % (k, i) for k in range(1, 6) for i in range(1, 145)]}
    for f, r in rows.items():
        with open(os.path.join(d, 'raw_data', 'zve13_puf_%s.csv' % f), 'w') as fd:
            fd.write(''.join(';'.join(str(x) for x in row) + '\n' for row in [heads[f]] + r))
    importlib.invalidate_caches()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            parser = importlib.import_module('demod.datasets.%s.parser' % name)
            loader = importlib.import_module('demod.datasets.%s.loader' % name)
            yield parser, type('T', (loader.GTOU,), {'DATASET_NAME': name})
    finally:
        shutil.rmtree(d)
        for m in [m for m in sys.modules if m.startswith('demod.datasets.' + name)]:
            del sys.modules[m]


def travels(c):
    return c >= 900 and c not in (997, 998, 999)


def occupancy(prim, sec, ini, fin, rating):
    """At home or not, at each time of a diary."""
    r = [rating(a) + rating(b) for a, b in zip(prim, sec)]
    moving = [travels(a) or travels(b) for a, b in zip(prim, sec)]
    last = max([t for t, m in enumerate(moving) if m], default=None)
    home = ini == 1 or (ini == -1 and r[0] >= 0)
    out, before = [], None
    for t, m in enumerate(moving):
        if m:
            if t == 0 or not moving[t - 1]:
                before = home
            home = False
        elif t and moving[t - 1]:
            home = r[t] + (-1 if before else 1) >= 0
            if last == t - 1 and fin != -2:
                home = {1: True, 2: False, -1: r[-1] >= 0}[fin]
        out.append(home)
    return out


# ---------------------------------------------------------------------------------------------------------- functions
def occ_sequences(rec, scen):
    lengths, codes, secs, part, parts, name = scen
    with survey([({}, [({}, [dict(prim=[110] * 144, sec=[0] * 144)])])]) as (P, _):
        for T in lengths:
            pairs = list(itertools.product(codes, secs))
            seqs = list(itertools.islice(itertools.product(pairs, repeat=T), part, None, parts))
            cases = [(s, i, f) for s in seqs for i in (1, 2, -1) for f in (1, 2, -1)]
            if not cases:
                continue
            prim = np.array([[p for p, _ in s] for s, _, _ in cases])
            sec = np.array([[q for _, q in s] for s, _, _ in cases])
            ini, fin = np.array([i for _, i, _ in cases]), np.array([f for _, _, f in cases])
            got = np.asarray(P.states_to_occupancy(prim, sec, ini, fin, P.dic_home))
            if not rec.expect(got.shape == prim.shape and got.dtype == bool, 'shape of the occupancy',
                              {'got': got.shape, 'diaries': prim.shape}, 'shape'):
                return
            want = np.array([occupancy(p, q, i, f, lambda c: CODES[c][0]) for p, q, i, f in zip(prim.tolist(), sec.tolist(), ini, fin)])
            bad = np.flatnonzero((got != want).any(axis=1))
            for b in bad[:1]:
                rec.expect(False, 'occupancy of a diary', {'primary': prim[b], 'secondary': sec[b], 'initial location': ini[b],
                                                           'final location': fin[b], 'at home': got[b], 'want': want[b]}, 'occupancy')
            rec.trace(len(cases))
            rec.transition(len(cases) * T)
            for s, i, f in cases:
                rec.state((s, int(i), int(f)))
    rec.sample({'lengths': lengths, 'primary': codes, 'secondary': secs})


def tables(rec, _):
    """Functions of each state."""
    with survey([({}, [({}, [dict(prim=[110] * 144, sec=[0] * 144)])])]) as (P, _):
        every = sorted(P.dic_home)
        for c, (home, act, demod, bott, prof) in CODES.items():
            rec.expect(P.dic_home[c] == home, 'rating of the presence at home during an activity', {'state': c}, 'home')
            rec.expect((P.GTOU_label_to_activity[c], P.GTOU_label_to_Bottaccioli_act[c]) == (demod, bott), 'label of a state',
                       {'state': c, 'got': (P.GTOU_label_to_activity[c], P.GTOU_label_to_Bottaccioli_act[c])}, 'label')
            rec.state(('code', c))
        for n in (1, 2):
            for cs in itertools.product(every, repeat=n):
                if n == 2 and cs[0] not in CODES:
                    continue
                a = np.array([cs])
                if 0 not in cs:  # there is always a primary activity
                    got = np.asarray(P.states_to_activity(a))
                    rec.expect(got.tolist() == [[int(c not in (110, 132)) for c in cs]], 'active states', {'states': cs, 'got': got}, 'active')
                rec.expect(np.asarray(P.is_transportation(a)).tolist() == [[travels(c) for c in cs]], 'travels', {'states': cs}, 'travel')
                rec.transition()
        for a, b in itertools.product(every, repeat=2):
            hw = any(200 <= c < 400 or 900 <= c <= 940 for c in (a, b))
            st, lab = P.states_to_out_for_what_model(np.array([[True, False]]), np.array([[a, a]]), np.array([[b, b]]))
            rec.expect([lab[i] for i in np.asarray(st)[0]] == ['In-house', 'HWH' if hw else 'HOH'], 'why somebody is out',
                       {'primary': a, 'secondary': b, 'got': [lab[i] for i in np.asarray(st)[0]]}, 'out')
            rec.state(('out', a, b))
            rec.transition()
    rec.trace()


def groups(rec, scen):
    """Grouping of diaries by households and days; sparse transition matrices."""
    part, parts = scen
    with survey([({}, [({}, [dict(prim=[110] * 144, sec=[0] * 144)])])]) as (P, _):
        for n in range(1, 5):
            for hh in itertools.islice(itertools.product((3, 7), repeat=n), part, None, parts):
                for dd in itertools.product((1, 2), repeat=n):
                    st = np.array([[10, 0, 11], [1, 11, 10], [11, 10, 0], [0, 1, 1]])[:n]
                    keys = sorted(set(zip(dd, hh)))
                    for f, s in ((P.group_in_household_4states, st), (P.group_in_household_activity, st == 11),
                                 (P.group_in_household_activity, st * 3)):
                        want = [sum(s[i].astype(int) for i in range(n) if (dd[i], hh[i]) == k).tolist() for k in keys]
                        got = np.asarray(f(s, household_indexes=np.array(hh), days_indexes=np.array(dd)))
                        rec.expect(got.tolist() == want, 'diaries grouped by household and day',
                                   lambda: {'function': f.__name__, 'diaries': s, 'households': hh, 'days': dd, 'got': got, 'want': want}, 'group')
                        rec.transition()
                    rec.state((hh, dd))
        for p, T in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (4, 2), (3, 3), (2, 4)):
            for v in itertools.islice(itertools.product(range(3), repeat=p * T), part, None, parts):
                st = np.array(v).reshape(p, T)
                if sorted(set(v)) != list(range(max(v) + 1)):
                    continue
                n = max(v) + 1
                c = np.zeros((T, n, n))
                for row in st:
                    for t in range(T):
                        c[t, row[t], row[(t + 1) % T]] += 1
                want = norm(c, np.zeros(n))
                for how in ('nothing', 'last'):
                    m = P.states_to_sparse_tpm(st, first_matrix_strategy=how)
                    w = want if how == 'nothing' else np.concatenate((want[-1:], want[1:]))
                    rec.expect((m.n_times, m.n_states) == (T, n) and all(close(m[t], w[t]) for t in range(T)),
                               'sparse transition matrices are not the frequencies of the diaries',
                               lambda: {'states': st, 'first matrix': how, 'got': [m[t] for t in range(T)], 'want': w}, 'sparse')
                    rec.transition()
                rec.state((p, T, v))
    rec.trace()


# ---------------------------------------------------------------------------------------------------------- subgroups
SETS = [  # values of the attributes of the households, persons and days
    dict(hh=dict(hhtyp=(1, 2, 5), hd15x=(1, 5)), pers={}, day={}),
    dict(hh=dict(anz_erw=(2, 3, 4, 5, 6, 7)), pers={}, day={}),
    dict(hh=dict(anz_erw=(1, 8)), pers=dict(ha3=(1, 2), ha8x=(1, 2)), day={}),
    dict(hh={}, pers=dict(pb3=(1, 8, 11)), day={}),
    dict(hh={}, pers=dict(alterx=(20, 30, 40)), day={}),
    dict(hh={}, pers=dict(ha6x=(1, 2, 9), pe23x=(1, 5)), day={}),
    dict(hh={}, pers={}, day=dict(quartal=(1, 4), wtagfei=(1, 6, 7), selbtag=(1, 2))),
]


def households_of(kind, th):
    """Households of 1 to 3 persons with all values of the attributes."""
    def combos(d):
        return [dict(zip(d, v)) for v in itertools.product(*d.values())] or [{}]
    diary = dict(prim=[110] * 144, sec=[0] * 144)
    out = []
    for hh in combos(kind['hh']):
        for n in (1, 2, 3):
            for pers in itertools.product(combos(kind['pers']), repeat=n if n < 3 or len(combos(kind['pers'])) < 4 else 2):
                pers = pers + ({},) * (n - len(pers))
                for day in combos(kind['day']):
                    days = [dict(diary, **day, tagnr=i) for i in (1, 2, 3)]
                    out.append((dict(hh, ha1x=n), [(p, [dict(d) for d in days]) for p in pers]))
    # households with someone missing, with a missing day, or whose persons have different attributes of the day
    some = out[:2] + out[-2:] + [h for h in out if len(h[1]) > 1][:3]
    for hh, pers in some:
        out.append((dict(hh, ha1x=hh['ha1x'] + 1), pers))
    for hh, pers in some:
        for miss in (1, 2, 3):
            out.append((hh, [(pers[0][0], [dict(d, fehl_tag=miss) for d in pers[0][1] if d['tagnr'] != miss])] + list(pers[1:])))
        if len(pers) > 1:
            out.append((hh, [(pers[0][0], [dict(d, fehl_tag=3) for d in pers[0][1] if d['tagnr'] != 3]),
                             (pers[1][0], [dict(d, fehl_tag=1) for d in pers[1][1] if d['tagnr'] != 1])] + list(pers[2:])))
            out.append((hh, [(pers[0][0], [dict(d, selbtag=2) for d in pers[0][1]])] + list(pers[1:])))
            out.append((hh, list(pers[:1]) + [(pers[1][0], [dict(d, selbtag=2 if d['tagnr'] == 2 else 1) for d in pers[1][1]])] + list(pers[2:])))
    return out


def options():
    one = [('quarter', q) for q in (1, 2, 4)] + [('weekday', w) for w in (1, 6, 7, [1, 6], [7], [2])]
    one += [('n_residents', n) for n in (1, 2, 3, 4, [1, 3], [2], [4, 5])] + [('household_type', k) for k in (1, 2, 3, 5)]
    one += [('salary', k) for k in (1, 2, 5)] + [('hh_revenue', k) for k in (1, 2, 5)]
    one += [('hh_work_type', k) for k in ('1_fulltime', '1_halftime', '2_fulltime', '1_fulltime_1_halftime', '3_fulltime', 'other',
                                          '1_retired', '2_retired')]
    one += [('life_situation', k) for k in (1, 8, 11, [1, 11], [8])] + [('household_position', k) for k in (1, 2, 9)]
    one += [('geburtsland', k) for k in (1, 2)] + [('gender', k) for k in (1, 2)]
    one += [('age', k) for k in ((0, 20), (20, 30), (20, 21), (20, 40), (30, 99), (25, 25))]
    one += [('hh_mean_age', k) for k in ((20, 25), (0, 25), (25, 30.1), (20, 40), (40, 41), (30, 30))]
    return one


WORK = {'1_fulltime': 2, '1_halftime': 3, '2_fulltime': 4, '1_fulltime_1_halftime': 5, '3_fulltime': 6, 'other': 7}


def selected(households, opts):
    """Diaries kept, in order."""
    opts = dict(opts)
    out = []

    def isin(v, k):
        o = opts.get(k)
        return o is None or (v in o if isinstance(o, list) else v == o)
    for hh, persons in households:
        g = lambda d, c: d.get(c, 1)
        ages = [g(p, 'alterx') for p, _ in persons]
        missing = {d['fehl_tag'] for _, days in persons for d in days if d.get('fehl_tag', 0)}
        for pe, days in persons:
            for day in days:
                w, ok = opts.get('hh_work_type'), True
                if opts.get('only_fully_recorded_household', True):
                    ok &= hh['ha1x'] == len(persons)
                if opts.get('remove_missing_days', True):
                    ok &= day['tagnr'] not in missing
                if opts.get('only_household_identical_days', True):
                    ok &= g(day, 'selbtag') == 1 or hh['ha1x'] == 1
                ok &= isin(g(day, 'quartal'), 'quarter') and isin(g(day, 'wtagfei'), 'weekday') and isin(hh['ha1x'], 'n_residents')
                ok &= isin(g(hh, 'hhtyp'), 'household_type') and isin(g(pe, 'pb3'), 'life_situation') and isin(g(pe, 'pe23x'), 'salary')
                ok &= isin(g(hh, 'hd15x'), 'hh_revenue') and isin(g(pe, 'ha6x'), 'household_position')
                ok &= isin(g(pe, 'ha8x'), 'geburtsland') and isin(g(pe, 'ha3'), 'gender')
                if w in WORK:
                    ok &= g(hh, 'anz_erw') == WORK[w]
                elif w == '1_retired':
                    ok &= hh['ha1x'] == 1 and g(pe, 'pb3') == 8
                elif w == '2_retired':
                    ok &= hh['ha1x'] == 2 and len(persons) == 2 and all(g(p, 'pb3') == 8 for p, _ in persons)
                if 'age' in opts:
                    ok &= opts['age'][0] <= g(pe, 'alterx') < opts['age'][1]
                if 'hh_mean_age' in opts:
                    ok &= opts['hh_mean_age'][0] <= sum(ages) / len(ages) < opts['hh_mean_age'][1]
                out.append(bool(ok))
    return out


def subgroups(rec, scen):
    kind, pairs = scen
    households = households_of(SETS[kind], False)
    if 2 in [hh['ha1x'] for hh, p in households if len(p) == 1]:
        # 2_retired needs the two persons
        households = [h for h in households if not (h[0]['ha1x'] == 2 and len(h[1]) == 1)]
    flags = ['only_fully_recorded_household', 'remove_missing_days', 'only_household_identical_days']
    with survey(households) as (P, _):
        cases = [dict(zip(flags, f)) for f in itertools.product((True, False), repeat=3)]
        one = options()
        for k, v in one:
            cases += [{k: v}, dict(ALL, **{k: v})]
        if pairs:
            for (k, v), (l, w) in itertools.combinations(one, 2):
                if k != l:
                    cases.append(dict(ALL, **{k: v, l: w}))
        for opts in cases:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = np.asarray(P.get_mask_subgroup(**opts))
            want = selected(households, opts)
            if got.tolist() != want:
                b = [i for i, (x, y) in enumerate(zip(got.tolist(), want)) if x != y][:1]
                rows = [(hh, pe, {k: v for k, v in d.items() if k not in ('prim', 'sec')})
                        for hh, ps in households for pe, ds in ps for d in ds]
                rec.expect(False, 'diaries of a subgroup', {'options': opts, 'first wrong (household, person, day)': [rows[i] for i in b],
                                                            'kept': [bool(got[i]) for i in b]}, 'subgroup %s' % sorted(set(opts) - set(flags)))
            rec.case()
            rec.transition(len(want))
            rec.state((kind, str(opts)))
        rec.trace(len(cases))


# ------------------------------------------------------------------------------------------------------------- loaders
def expand(segs):
    k = 144 // len(segs)
    return [c for c in segs for _ in range(k)]


def diaries_of(households, opts):
    """The diaries selected, with the occupancy and the active states of each."""
    keep = iter(selected(households, opts))
    out = []
    for h, (hh, persons) in enumerate(households, 1):
        for pe, days in persons:
            for i, d in enumerate(days, 1):
                if next(keep):
                    fin = d.get('tc8', 1)
                    if fin == -2:
                        fin = days[i].get('tc7', 1)
                    occ = occupancy(d['prim'], d['sec'], d.get('tc7', 1), fin, lambda c: CODES[c][0])
                    out.append(dict(d, hh=h, occ=occ, act=[CODES[c][1] for c in d['prim']]))
    return out


def by_household(diaries):
    keys = sorted({(d['tagnr'], d['hh']) for d in diaries})
    return [[d for d in diaries if (d['tagnr'], d['hh']) == k] for k in keys]


def activities(d, kind):
    col = TYPES[kind]
    out = []
    for p, s, home in zip(d['prim'], d['sec'], d['occ']):
        a = CODES[p][col] if home else 'away'
        if a == 'other' and CODES[s][col] != 'other':
            a = CODES[s][col]
        out.append(a)
    return out


def reordered(labels, want_labels):
    labels = [str(x) for x in labels]
    return [labels.index(str(x)) for x in want_labels]


def semi(st, n, algo):
    T = st.shape[1]
    c, dd = np.zeros((T, n, n)), np.zeros((T, n, T + 1))
    for t, p, new, old in ref_transitions(st, ignore=True):
        c[t, old, new] += 1
        dd[t, new, ref_duration(st[p], t, True)] += 1
    if algo == 'last':
        c[0], dd[0] = c[-1], dd[-1]
    for row in st:
        if (row == row[0]).all():
            c[0, row[0], row[0]] += 1
            dd[0, row[0], T] += 1
    return norm(c, np.eye(n)), norm(dd, np.eye(T + 1)[0])


def chain(st, n):
    P, T = st.shape
    c = np.zeros((T, n, n))
    for t in range(T):
        np.add.at(c[t], (st[:, t - 1], st[:, t]), 1)
    c[0] = c[-1]
    return norm(c, np.eye(n))


def first_stay(st, n):
    T = st.shape[1]
    c = np.zeros((n, T + 1))
    for row in st:
        k = 0
        while k < T and row[k] == row[0]:
            k += 1
        c[row[0], k] += 1
    return norm(c, np.eye(T + 1)[0])


def test_tpms(rec, data, opts, rows, every, algo, what, ctx, cached):
    """Transition matrices (with and without durations) of these labelled rows."""
    names = sorted({str(x) for r in rows for x in r})
    extra = sorted(every - set(names))
    labels = names + extra
    st = np.array([[labels.index(str(x)) for x in r] for r in rows])
    n = len(labels)
    init = np.bincount(st[:, 0], minlength=n) / len(rows)
    wants = (chain(st, n), init), semi(st, n, algo)
    for _ in range(2 if cached else 1):
        m, lab, pdf = data.load_tpm(opts)
        if rec.expect(sorted(str(x) for x in lab) == sorted(labels), 'labels of the states', lambda: {**ctx, 'got': lab, 'want': labels},
                      what + ' labels'):
            o = reordered(lab, labels)
            rec.expect(close(np.asarray(m)[:, o][:, :, o], wants[0][0]), 'transition matrices are not the frequencies of the diaries',
                       lambda: {**ctx, 'first wrong time': first_diff(np.asarray(m)[:, o][:, :, o], wants[0][0])}, what + ' matrices')
            rec.expect(close(np.asarray(pdf)[o], init), 'initial distribution', lambda: {**ctx, 'got': np.asarray(pdf)[o], 'want': init},
                       what + ' initial')
        m, dur, lab, pdf, stay = data.load_tpm_with_duration(opts)
        if rec.expect(sorted(str(x) for x in lab) == sorted(labels), 'labels of the states', lambda: {**ctx, 'got': lab, 'want': labels},
                      what + ' labels with durations'):
            o = reordered(lab, labels)
            rec.expect(close(np.asarray(m)[:, o][:, :, o], wants[1][0]), 'semi-Markov matrices are not the frequencies of the diaries',
                       lambda: {**ctx, 'first wrong time': first_diff(np.asarray(m)[:, o][:, :, o], wants[1][0])}, what + ' semi matrices')
            rec.expect(close(np.asarray(dur)[:, o], wants[1][1]), 'durations are not the frequencies of the diaries',
                       lambda: {**ctx, 'first wrong time': first_diff(np.asarray(dur)[:, o], wants[1][1])}, what + ' durations')
            rec.expect(close(np.asarray(pdf)[o], init), 'initial distribution', lambda: {**ctx, 'got': np.asarray(pdf)[o], 'want': init},
                       what + ' initial with durations')
            k = len(names)
            rec.expect(close(np.asarray(stay)[o[:k]], first_stay(st, n)[:k]), 'durations of the initial states',
                       lambda: {**ctx, 'got': np.asarray(stay)[o[:k]]}, what + ' initial durations')
        rec.transition(2)


def first_diff(got, want):
    if got.shape != want.shape:
        return {'shape': got.shape, 'want': want.shape}
    t = [t for t in range(len(got)) if not close(got[t], want[t])][:1]
    return {'time': t, 'got': [got[i] for i in t], 'want': [want[i] for i in t]}


def same_dict(rec, got, want, what, ctx, key):
    """Equal dictionaries of arrays (pdfs may end with zeros)."""
    got = {str(k): np.asarray(v, dtype=float) for k, v in got.items()}

    def strip(v):
        v = list(v)
        while v and abs(v[-1]) < 1e-12:
            v.pop()
        return v

    def like(a, b):
        return close(strip(a), strip(b)) if a.ndim == np.ndim(b) == 1 else close(a, b)
    ok = set(got) == set(want) and all(like(got[k], want[k]) for k in want)
    rec.expect(ok, what, lambda: {**ctx, 'got': {k: v for k, v in got.items() if not (k in want and like(v, want[k]))},
                                  'want': {k: v for k, v in want.items() if not (k in got and like(got[k], v))}}, key)
    rec.transition()


def pdf(counts):
    n = len(counts)
    c = np.bincount(counts)
    return c / n


def test_loaders(rec, P, cls, households, opts, cached=False):
    ds = diaries_of(households, opts)
    if not ds:
        return
    ctx = {'subgroup': opts, 'diaries (household, day, primary, secondary, at home)': [
        (d['hh'], d['tagnr'], runs(d['prim']), runs(d['sec']), runs(d['occ'])) for d in ds]}
    hhs = by_household(ds)
    # 4 states
    rows = [(10 * np.sum([d['occ'] for d in h], axis=0) + np.sum([d['act'] for d in h], axis=0)).astype(int).tolist() for h in hhs]
    test_tpms(rec, cls('4_States'), opts, rows, set(), 'last', '4 states', ctx, cached)
    # sparse 9 states
    rows = []
    for h in hhs:
        r = np.zeros(144, dtype=int)
        for d in h:
            for t, (p, s, home) in enumerate(zip(d['prim'], d['sec'], d['occ'])):
                work = any(200 <= c < 400 or 900 <= c <= 940 for c in (p, s))
                r[t] += (1 if p not in (110, 132) and s not in (110, 132) else 0) if home else 7 if work else 49
        rows.append(r)
    for _ in range(2 if cached else 1):
        m, lab, act, init = cls('Sparse9States').load_sparse_tpm(opts)
        lab = [int(x) for x in lab]
        names = sorted({int(x) for r in rows for x in r})
        if rec.expect(lab == names and [str(x) for x in act] == ['active', 'HWH', 'HOH'], 'labels of the states',
                      lambda: {**ctx, 'got': (lab, act), 'want': names}, '9 states labels'):
            st = np.array([[names.index(x) for x in r] for r in rows])
            c = np.zeros((144, len(names), len(names)))
            for t in range(144):
                np.add.at(c[t], (st[:, t], st[:, (t + 1) % 144]), 1)
            want = norm(c, np.zeros(len(names)))
            got = np.array([m[t] for t in range(m.n_times)])
            rec.expect(close(got, want), 'transition matrices are not the frequencies of the diaries',
                       lambda: {**ctx, 'first wrong time': first_diff(got, want)}, '9 states matrices')
            rec.expect(close(init, np.bincount(st[:, 0], minlength=len(names)) / len(rows)), 'initial distribution',
                       lambda: {**ctx, 'got': init}, '9 states initial')
        rec.transition()
    # activities
    for kind, col in TYPES.items():
        table = {'DemodActivities_0': P.GTOU_label_to_activity, 'Bottaccioli2018': P.GTOU_label_to_Bottaccioli_act}[kind]
        every = {v for k, v in table.items() if k} | {'away'}
        rows = [activities(d, kind) for d in ds]
        data = cls(kind)
        got, hid, day = data.get_states(opts, return_hh=True, return_day=True)
        rec.expect(np.asarray(got).tolist() == rows and list(hid) == [d['hh'] for d in ds] and list(day) == [d['tagnr'] for d in ds],
                   'activities of the diaries', lambda: {**ctx, 'got': [runs(r) for r in np.asarray(got).tolist()], 'want': [runs(r) for r in rows],
                                                         'households': hid, 'days': day}, 'get_states')
        rec.transition()
        rec.expect(np.asarray(data.get_states(opts)).tolist() == rows, 'activities of the diaries', ctx, 'get_states')
        test_tpms(rec, data, opts, rows, every, 'nothing', 'activities', {**ctx, 'activities': kind}, cached)
        k = {**ctx, 'activities': kind}
        arr = np.array(rows)
        seen = sorted(set(arr.ravel().tolist()))
        prob = {a: (arr == a).mean(axis=0) for a in seen}
        prob['active_occupancy'] = 1 - ((arr == 'away') | (arr == 'sleeping')).mean(axis=0)
        stays = {a: [] for a in seen}
        starts = {a: Counter() for a in seen}
        hd = [(d['hh'], d['tagnr']) for d in ds]
        away = Counter()
        for r, h in zip(rows, hd):
            ts = [t for t in range(144) if r[t] != r[t - 1]]
            if not ts:
                stays[r[0]].append(144)
            for i, t in enumerate(ts):
                stays[r[t]].append(ts[i + 1] - t if i + 1 < len(ts) else ts[0] + 144 - t)
                starts[r[t]][h] += 1
                away[h] += r[t] in ('away', 'sleeping')
        entered = {a for a in seen if starts[a]}
        first = [{a: pdf([starts[a][h] for h in set(hd)]) for a in entered}, {a: pdf(v) for a, v in stays.items() if v}]
        first[0]['active_occupancy'] = pdf([away[h] for h in set(hd)])
        for _ in range(2 if cached else 1):
            same_dict(rec, data.load_activity_probabilities(opts), prob, 'probabilities of the activities', k, 'probabilities')
            same_dict(rec, data.load_daily_activity_starts(opts), first[0], 'number of times activities start in a day', k, 'starts')
            same_dict(rec, data.load_activity_duration(opts), first[1], 'durations of the activities', k, 'stays')
    # profiles
    data = cls('DemodActivities_0')
    want = {a: np.zeros((144, 6)) for a in ACTS}
    want.update(level=np.ones((144, 6)), active_occupancy=np.ones((144, 6)))
    want['active_occupancy'][:, 0] = 0
    total, doing = np.zeros((144, 6)), {a: np.zeros((144, 6)) for a in ACTS}
    for h in hhs:
        n = np.minimum(np.sum([d['occ'] for d in h], axis=0), np.sum([d['act'] for d in h], axis=0))
        for t in range(144):
            total[t, n[t]] += 1
            for a in {CODES[d[x][t]][4] for d in h for x in ('prim', 'sec')} - {None}:
                doing[a][t, n[t]] += 1
    for a in ACTS:
        want[a][:, 1:] = np.where(total[:, 1:] > 0, doing[a][:, 1:] / np.where(total[:, 1:] > 0, total[:, 1:], 1), 0)
    for _ in range(2 if cached else 1):
        same_dict(rec, data.load_activity_probability_profiles(opts), want, 'profiles of the activities', ctx, 'profiles')
    got = P.get_active_occupancy(opts)
    rec.expect(np.asarray(got).tolist() == np.sum([np.array(d['occ']) & (np.array(d['act']) == 1) for d in ds], axis=0).tolist(),
               'active occupancy', ctx, 'active occupancy')


def runs(row):
    out = []
    for x in row:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return ' '.join('%s*%s' % (x, k) for x, k in out)


def day(segs, secs=None, **k):
    return dict(prim=expand(segs), sec=expand(secs or [0] * len(segs)), **k)


def windows(rec, households, sizes, part, parts):
    """Loaders for windows of consecutive households, selected by their mean age (the number of the household)."""
    for i, (hh, persons) in enumerate(households):
        hh['ha1x'] = len(persons)
        for pe, days in persons:
            pe['alterx'] = i
            for k, d in enumerate(days, 1):
                d['tagnr'] = k
    with survey(households) as (P, cls), np.errstate(all='ignore'):
        for w in sizes:
            for k in range(max(1, len(households) - w + 1)):
                opts = dict(hh_mean_age=(k, k + w))
                test_loaders(rec, P, cls, households, opts, cached=k == 0)
                rec.trace()
                rec.state((part, w, str([[(runs(d['prim']), runs(d['sec']), d.get('tc7'), d.get('tc8')) for d in ds] for _, p in households[k:k + w]
                                         for _, ds in p])))


def persons(rec, scen):
    """One person per household."""
    codes, secs, n, sizes, part, parts = scen
    segs = itertools.islice(itertools.product(itertools.product(codes, repeat=n), itertools.product(secs, repeat=n)), part, None, parts)
    hh = []
    for i, (p, s) in enumerate(segs):
        ini, fin = [(1, 1), (2, 1), (-1, -1), (1, 2), (-1, -2)][i % 5]
        days = [day(p, s, tc7=ini, tc8=fin)]
        if fin == -2:
            days.append(day(p[::-1], s, tc7=i % 2 + 1, tc8=1))
        hh.append(({}, [({}, days)]))
    windows(rec, hh, sizes, (codes, secs, n, part), parts)
    rec.sample({'codes': codes, 'secondary': secs, 'segments': n})


def families(rec, scen):
    """Households of 2 or 3 persons, on 1 to 3 days."""
    codes, n, who, ndays, sizes, part, parts = scen
    every = list(itertools.product(codes, repeat=n))
    hh = []
    for i, ps in enumerate(itertools.islice(itertools.product(every, repeat=who), part, None, parts)):
        hh.append(({}, [({}, [day(p if d % 2 == 0 else p[::-1], tc7=1, tc8=1) for d in range(ndays)]) for p in ps]))
    windows(rec, hh, sizes, (codes, n, who, ndays, part), parts)
    rec.sample({'codes': codes, 'persons': who, 'days': ndays})


def build(ck):
    import demod.datasets.GermanTOU.loader  # noqa
    th = ck.thorough
    home = [110, 411, 611, 210, 921, 997]
    jobs = [([1, 2, 3, 4], home, [0], 'all'), ([5], [411, 611, 210, 921], [0], 'long'), ([1, 2, 3], [110, 611, 921], [0, 411, 951], 'sec')]
    if th:
        jobs += [([5, 6], [611, 210, 411, 921], [0], 'long'), ([4], [110, 611, 921], [0, 411, 951], 'sec')]
    for lengths, codes, secs, name in jobs:
        for j in range(4):
            ck.add('occupancy %s #%d' % (name, j), occ_sequences, (lengths, codes, secs, j, 4, name))
    ck.add('tables', tables)
    for j in range(6):
        ck.add('groups #%d' % j, groups, (j, 6))
    for k in range(len(SETS)):
        ck.add('subgroups #%d' % k, subgroups, (k, th or k in (0, 3, 6)))
    sets = [([110, 411, 841, 921], [0], 3, (1, 2, 5)), ([110, 210, 820], [0, 431], 2, (1, 3)),
            ([120, 951, 131], [0, 841], 2, (2,)), ([311, 432, 413, 421], [0], 2, (2, 16))]
    if th:
        sets += [([110, 411, 841, 921], [0], 4, (1, 2, 3)), ([110, 210, 820, 921], [0, 431, 110], 2, (1, 2, 3))]
    for s in sets:
        parts = 8
        for j in range(parts):
            ck.add('persons %s/%s/%d #%d' % (s[0], s[1], s[2], j), persons, s + (j, parts))
    fam = [([110, 411, 921], 2, 2, 1, (1, 2)), ([110, 841, 921], 1, 3, 1, (1, 3)), ([110, 820, 210], 1, 2, 3, (1, 2))]
    if th:
        fam += [([110, 411, 841, 921], 2, 2, 2, (1, 2)), ([110, 841, 921], 2, 3, 1, (1, 3))]
    for f in fam:
        parts = 8 if len(f[0]) ** (f[1] * f[2]) > 30 else 2
        for j in range(parts):
            ck.add('families %s/%d/%d/%d #%d' % (f[:4] + (j,)), families, f + (j, parts))
    ck.rule = ('occupancy: all sequences of states %s; tables of all states and pairs of states; all groupings of up to 4 diaries; all values of '
               'the attributes %s with all options, alone and in pairs; all diaries made of segments %s of one person, and %s of households, in '
               'windows of consecutive households' % ([(j[0], j[1], j[2]) for j in jobs], SETS, sets, fam))
    ck.assumptions = ['the files are synthetic: they have the columns the parser reads; segments of a diary have equal lengths']
