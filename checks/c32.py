"""C32: every cell of the CREST workbook ends where the model expects it."""
import contextlib
import io
import itertools
import os
import shutil
import warnings

import numpy as np

LEVEL = 'model_checking'
NAMES = itertools.count()
NAN = float('nan')
VERSIONS = ('2.2', '2.3.3')
WD, WE = [1, 2, 3, 4, 5], [6, 7]
POISON = 7777.25


def eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(eq1(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


def eq1(x, y):
    if isinstance(x, (str, dict)) or isinstance(y, (str, dict)) or x is None or y is None:
        return x == y
    x, y = float(x), float(y)
    return x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(abs(x), abs(y))


@contextlib.contextmanager
def book(version, sheets, extra=('Other',)):
    """The dataset in a new folder, with a workbook {sheet: {(row, column) as in the spreadsheet: value}}."""
    import openpyxl
    from demod.datasets.CREST.loader import Crest
    name = 'McCrest%d_%d' % (os.getpid(), next(NAMES))
    root = os.path.join(os.environ['MC_TREE'], 'demod', 'datasets', name)
    os.makedirs(os.path.join(root, 'raw_data'))
    os.makedirs(os.path.join(root, 'parsed_data'))
    wb = openpyxl.Workbook(write_only=True)
    for s in extra:
        wb.create_sheet(s).append(['x', 1, 2])
    for s, cells in sheets.items():
        ws = wb.create_sheet(s)
        rows, width = {}, max(c for _, c in cells)
        for (r, c), v in cells.items():
            rows.setdefault(r, [None] * width)[c - 1] = v
        for r in range(1, max(rows) + 1):
            ws.append(rows.get(r, [None] * width))
    wb.save(os.path.join(root, 'raw_data', 'CREST_Demand_Model_v%s.xlsm' % version))
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield type('P', (Crest,), {'DATASET_NAME': name})
    finally:
        shutil.rmtree(root)


def both(rec, cls, version, load, want, what, detail=None):
    """What is parsed, and what is found again in a new run."""
    for again in (False, True):
        try:
            got = load(cls(version))
        except (NotImplementedError, OSError) as e:
            rec.fail(f'{what}: cannot be loaded', {'version': version, **(detail or {}), 'again': again, 'error': repr(e)[:300]}, what)
            return
        if isinstance(got, dict):
            ok = set(got) == set(want) and all(eq(got[k], want[k]) for k in got)
            bad = {k: [got.get(k), want.get(k)] for k in {*got, *want} if k not in got or k not in want or not eq(got[k], want[k])} \
                if not ok else {}
        else:
            got = list(got) if isinstance(got, tuple) else [got]
            ok = len(got) == len(want) and all(eq(g, w) for g, w in zip(got, want))
            bad = [[np.asarray(g, dtype=object).shape, str(g)[:300], str(w)[:300]] for g, w in zip(got, want) if not eq(g, w)]
        rec.expect(ok, f'{what}: not the values of the workbook', lambda: {'version': version, **(detail or {}), 'again': again,
                   'got, in the workbook': bad}, what)
        rec.transition()
    rec.trace()


# ---- the chains of the occupancy ---------------------------------------------------------------------------------
def chain(n, day, salt):
    """Weights of the transitions (blank rows for some states), as in the workbook."""
    S = (n + 1) ** 2
    w = np.zeros((144, S, S))
    for t in range(144):
        for s in range(S):
            if (t * 7 + s * 3 + salt) % 11 == 0 and S > 1:
                continue      # state that is never reached
            for d in range(min(3, S)):
                w[t, s, (s + t * 5 + d * (1 + salt)) % S] += (1 + (t + 2 * s + 3 * d + salt) % 7) / 16
            w[t, s] *= (1 + ((t + s) % 3 - 1) / 4096) / w[t, s].sum()     # rounded in the workbook
    return w


def start(n_col, row, day, salt):
    return ((row * 13 + n_col * 5 + (3 if day == 'e' else 0) + salt) % 97) / 64


def starting_sheet(salt):
    cells = {}
    states = [10 * a + b for a in range(7) for b in range(7)]
    for day, head in (('d', 5), ('e', 59)):
        cells[head, 1] = 'Number of residents in the house'
        for n in range(1, 7):
            cells[head, 1 + n] = n
        for c in range(1, 8):
            cells[head + 1, c] = POISON
        for i, s in enumerate(states):
            cells[head + 2 + i, 1] = s
            for n in range(1, 7):
                cells[head + 2 + i, 1 + n] = start(n, i, day, salt)
        cells[head + 2 + 49, 1] = 'end'
    return cells


def tpm_sheet(w, states):
    cells = {(1, 1): 'Transition probabilities', (9, 1): POISON}
    S = w.shape[1]
    cells[10, 1], cells[10, 2] = 'Time', 'State'
    for j in range(S):
        cells[10, 3 + j] = states[j]
    cells[10, 3 + S] = 'Sum'
    for t in range(144):
        for s in range(S):
            r = 11 + t * S + s
            cells[r, 1], cells[r, 2] = t + 1, states[s]
            for j in range(S):
                cells[r, 3 + j] = float(w[t, s, j])
            cells[r, 3 + S] = POISON
    return cells


def tpms(ns, days, version, salt):
    def f(rec, scen):
        sheets, want = {'Starting states': starting_sheet(salt)}, {}
        for n in ns:
            for d in days:
                w = chain(n, d, salt + (d == 'e'))
                states = [10 * a + b for a in range(n + 1) for b in range(n + 1)]
                sheets['tpm%d_w%s' % (n, d)] = tpm_sheet(w, states)
                p = w.copy()
                for t, s in zip(*np.nonzero(w.sum(2) == 0)):
                    p[t, s, s] = 1
                p /= p.sum(2, keepdims=True)
                rows = [7 * a + b for a in range(n + 1) for b in range(n + 1)]
                want[n, d] = [p, states, [start(n, r, d, salt) for r in rows]]
        with book(version, sheets) as cls:
            for (n, d), w in want.items():
                sg = {'n_residents': n, 'weekday': list(WD if d == 'd' else WE)}
                both(rec, cls, version, lambda o: o.load_tpm(dict(sg)), w, 'transitions', {'subgroup': sg})
                rec.state((n, d, version, salt))
    return f


def subgroups(rec, scen):
    """Which subgroups are accepted: all sets of days, all numbers of residents."""
    with book('2.2', {}) as cls:
        o = cls('2.2')
        asked = []
        o._parse_tpm = lambda sg: (asked.append(dict(sg)), (np.ones((1, 1, 1)), np.zeros(1, dtype=int), np.ones(1)))[1]
        days = [list(c) for k in range(8) for c in itertools.combinations(range(1, 8), k)] + [None, 'absent', 1, 6]
        for d in days:
            for n in (None, 0, 1, 2, 3, 4, 5, 6, 7):
                sg = {**({} if n is None else {'n_residents': n}), **({} if d == 'absent' else {'weekday': d})}
                ok = d in (WD, WE) and n in (1, 2, 3, 4, 5, 6)
                n0 = len(asked)
                try:
                    o.load_tpm(dict(sg))
                    got = True
                except ValueError:
                    got = False
                rec.expect(got == ok, 'the subgroups that CREST knows', {'subgroup': sg, 'accepted': got}, 'subgroups')
                rec.expect(not ok or asked[n0:] in ([sg], []), 'the subgroup parsed is another one',
                           lambda: {'subgroup': sg, 'parsed': asked[n0:]}, 'subgroups')
                rec.state((repr(sg),))
                rec.transition()
    rec.trace()


# ---- appliances ----------------------------------------------------------------------------------------------------
APPS = [('CHEST_FREEZER', 'chest_freezer', 'LEVEL'), ('FRIDGE_FREEZER', 'fridge_freezer', 'LEVEL'), ('FRIDGE', 'fridge', 'LEVEL'),
        ('UPRIGHT_FREEZER', 'upright_freezer', 'LEVEL'), ('ANSWER_MACHINE', 'answermachine_phone', 'ACTIVE_OCC'),
        ('CD_PLAYER', 'cd_speaker', 'ACTIVE_OCC'), ('CLOCK', 'clock', 'LEVEL'), ('PHONE', 'fixed_phone', 'ACTIVE_OCC'),
        ('HIFI', 'hifi_speaker', 'ACTIVE_OCC'), ('IRON', 'iron', 'ACT_IRON'), ('VACUUM', 'vacuum_cleaner', 'ACT_HOUSECLEAN'),
        ('FAX', 'fax_printer', 'ACTIVE_OCC'), ('PC', 'fixed_computer', 'ACTIVE_OCC'), ('PRINTER', 'printer', 'ACTIVE_OCC'),
        ('TV1', 'tv', 'ACT_TV'), ('TV2', 'tv', 'ACT_TV'), ('TV3', 'tv', 'ACT_TV'), ('VCR_DVD', 'dvd_console', 'ACT_TV'),
        ('RECEIVER', 'dual_box', 'ACT_TV'), ('HOB', 'hob', 'ACT_COOKING'), ('OVEN', 'oven', 'ACT_COOKING'),
        ('MICROWAVE', 'microwave', 'ACT_COOKING'), ('KETTLE', 'kettle', 'ACTIVE_OCC'), ('SMALL_COOKING', 'toaster', 'ACT_COOKING'),
        ('DISH_WASHER', 'dishwasher', 'ACT_COOKING'), ('TUMBLE_DRYER', 'tumble_dryer', 'ACT_LAUNDRY'),
        ('WASHING_MACHINE', 'washingmachine', 'ACT_LAUNDRY'), ('WASHER_DRYER', 'washer_dryer', 'ACT_LAUNDRY'),
        ('DESWH', 'des_water_heater', 'ACTIVE_OCC'), ('E_INST', 'einst_water_heater', 'ACTIVE_OCC'),
        ('ELEC_SHOWER', 'electric_shower', 'ACT_WASHDRESS'), ('BASIN', 'basin', 'ACT_WASHDRESS'), ('SINK', 'sink', 'ACT_COOKING'),
        ('SHOWER', 'shower', 'ACT_WASHDRESS'), ('BATH', 'bath', 'ACT_WASHDRESS')]
ACTS = {'LEVEL': 'level', 'ACTIVE_OCC': 'active_occupancy', 'ACT_IRON': 'ironing', 'ACT_HOUSECLEAN': 'cleaning',
        'ACT_TV': 'watching_tv', 'ACT_COOKING': 'cooking', 'ACT_LAUNDRY': 'laundry', 'ACT_WASHDRESS': 'self_washing'}
LITRES = {'BASIN': 2.3, 'SINK': 2.3, 'SHOWER': 25.7, 'BATH': 73.3}
# columns: name, ownership, use profile, then those known by their units, then two without
COLS = {'name': 4, 'own': 5, 'use': 6, 'min0': 8, 'min1': 9, 'min2': 10, 'W0': 12, 'W1': 13, 'prob': 29, 'pf': 31}


def appliance_sheet(salt):
    """The rows 9-39 hold the electrical appliances, 46-49 the water fixtures."""
    cells, rows = {}, []
    for r in range(1, 8):
        for c in range(1, 32):
            cells[r, c] = POISON
    for k, c in COLS.items():
        if k[:3] == 'min':
            cells[8, c] = '(min)'
        elif k[0] == 'W':
            cells[8, c] = '(W)'
    for r in range(40, 46):
        for c in range(1, 32):
            cells[r, c] = POISON
    for i, (name, typ, act) in enumerate(APPS):
        r = 9 + i if i < 31 else 46 + i - 31
        v = {k: (i * 7 + 3 * c + salt * (i + 1)) % 41 / 8 for k, c in COLS.items()}
        v.update(name=name, use=act, own=((i * 5 + salt) % 17) / 16, pf=None if (i + salt) % 3 == 0 else (1 + (i + salt) % 8) / 8)
        for k, c in COLS.items():
            cells[r, c] = v[k]
        for c in (1, 7, 11, 14, 28, 30):
            cells[r, c] = POISON
        rows.append(v)
    return cells, rows


def appliances(rec, scen):
    from demod.datasets.CREST import loader as L
    for salt in range(5):
        cells, rows = appliance_sheet(salt)
        names = [a[0] for a in APPS]
        water = [n in LITRES for n in names]
        want = {
            'name': names, 'type': [a[1] for a in APPS], 'number': len(APPS),
            'equipped_prob': [v['own'] for v in rows], 'related_activity': [ACTS[a[2]] for a in APPS],
            'inactive_switch_off': [not (a[2] in ('LEVEL', 'ACT_WASHDRESS') or a[0] == 'DISH_WASHER') for a in APPS],
            'mean_duration': [v['min1'] for v in rows], 'after_cycle_delay': [v['min2'] for v in rows],
            'switch_on_prob_crest': [v['prob'] for v in rows],
            'mean_elec_consumption': [0 if w else v['W0'] for w, v in zip(water, rows)],
            'mean_water_consumption': [v['W0'] if w else 0 for w, v in zip(water, rows)],
            'standby_consumption': [v['W1'] for v in rows],
            'mean_power_factor': [1 if v['pf'] is None else v['pf'] for v in rows],
            'poisson_sampling_lambda_liters': [LITRES.get(n, 0) for n in names], 'uses_water': water}
        with book('2.2', {'AppliancesAndWaterFixtures': cells}) as cls:
            both(rec, cls, '2.2', lambda o: o.load_appliance_dict(), want, 'appliances', {'sheet': salt})
            own, seen = {}, {}
            for a, v in zip(APPS, rows):
                seen[a[1]] = seen.get(a[1], 0) + 1
                own[a[1] + ('' if seen[a[1]] == 1 else '_%d' % seen[a[1]])] = v['own']
            for sg in ({}, {'n_residents': 2}, {'n_residents': 3, 'weekday': [6, 7]}):
                both(rec, cls, '2.2', lambda o: o.load_appliance_ownership_dict(dict(sg)), own, 'ownership', {'sheet': salt, 'subgroup': sg})
        rec.state(salt)


def profiles(rec, scen):
    """The cycles of the washing machines: power of each minute from the start."""
    table = [(8, 73), (29, 2056), (81, 73), (92, 73), (94, 250), (105, 73), (107, 250), (118, 73), (120, 250), (131, 73), (133, 250),
             (138, 568), (198, 2500)]
    want = [next(p for end, p in table if m <= end) for m in range(198)]
    with book('2.2', {}) as cls:
        for again in range(2):
            got = cls('2.2').load_real_profiles_dict('switchedON')
            rec.expect({k: list(v) for k, v in got.items()} == {'washingmachine': ['CREST_washingmachine'], 'washer_dryer': ['CREST_washer_dryer']}
                       and eq(got['washingmachine']['CREST_washingmachine'], want[:138])
                       and eq(got['washer_dryer']['CREST_washer_dryer'], want), 'the cycles of the washing machines', lambda: got, 'cycles')
            rec.transition()
        try:
            cls('2.2').load_real_profiles_dict('full')
            rec.fail('profiles that do not exist are given', None, 'cycles')
        except NotImplementedError:
            pass
    rec.state(0)
    rec.trace()


# ---- activities and population ---------------------------------------------------------------------------------------
NAMES_ACT = ['Act_TV', 'Act_Cooking', 'Act_Laundry', 'Act_WashDress', 'Act_Iron', 'Act_HouseClean']


def activities(rec, scen):
    for version, salt, perm in scen:
        cells = {(r, c): POISON for r in (28, 29, 102, 103) for c in (5, 6, 148, 149)}
        acts = [NAMES_ACT[i] for i in perm]

        def v(day, occ, a, t):
            return ((occ * 6 + a) * 144 + t + day * 977 + salt * 31) % 1021 / 1024
        for day, first in ((0, 30), (1, 66)):
            for occ in range(6):
                for a in range(6):
                    r = first + occ * 6 + a
                    cells[r, 3], cells[r, 4] = occ, acts[a]
                    for t in range(144):
                        cells[r, 5 + t] = v(day, occ, a, t)
                    cells[r, 149] = POISON
        pop = [(1 + (k * 3 + salt) % 7) / 32 for k in range(5)]
        for r in range(1, 12):
            cells[r, 2] = POISON
        cells[12, 1], cells[12, 2] = 'x', 'Number of residents'
        cells[12, 3] = 'Probability of dwelling having this number of residents' + (', in the UK' if version == '2.3.3' else '')
        for k in range(6):
            cells[13 + k, 2], cells[13 + k, 3] = k + 1, POISON if k == 5 else pop[k]
        with book(version, {'ActivityStats': cells}) as cls:
            for day, wd in ((0, WD), (1, WE)):
                want = {ACTS[n.upper()]: [[v(day, occ, a, t) for occ in range(6)] for t in range(144)] for a, n in enumerate(acts)}
                want['level'] = np.ones((144, 6))
                want['active_occupancy'] = np.repeat([[0., 1, 1, 1, 1, 1]], 144, axis=0)
                for n in (1, 4):
                    sg = {'n_residents': n, 'weekday': list(wd)}
                    both(rec, cls, version, lambda o: o.load_activity_probability_profiles(dict(sg)), want, 'activity profiles',
                         {'subgroup': sg, 'order': acts})
            for args in ((), ('crest',), ('resident_number',)):
                both(rec, cls, version, lambda o: o.load_population_subgroups(*args),
                     [[{'n_residents': k + 1} for k in range(5)], pop, 25e6], 'population', {'type': args})
            try:
                cls(version).load_population_subgroups('other')
                rec.fail('a population that does not exist is given', {'version': version}, 'population')
            except ValueError:
                pass
        rec.state((version, salt, perm))


# ---- climate and light ---------------------------------------------------------------------------------------------
def clearness(rec, scen):
    for version, salt in scen:
        cells = {(8, 3): POISON, (9, 2): 'k', (9, 104): 'Sum'}
        labels = [(i + 1) / 100 for i in range(99)] + [.995, 'Clear']
        w = np.zeros((101, 101))
        for i in range(101):
            for d in range(3):
                w[i, (i + d * (1 + salt)) % 101] += (1 + (i + 3 * d + salt) % 5) / 8
            w[i] *= (1 + (i % 3 - 1) / 4096) / w[i].sum()
        w[0] = 0     # the first state never occurs
        for j in range(101):
            cells[9, 3 + j] = labels[j]
            cells[10 + j, 2], cells[10 + j, 104] = labels[j], POISON
            for i in range(101):
                cells[10 + i, 3 + j] = float(w[i, j])
        cells[111, 3] = cells[111, 50] = POISON
        w[0, 1] = 1
        with book(version, {'ClearnessIndexTPM': cells}) as cls:
            def load(o):
                a, b, s = o.load_clearness_tpms()
                return a, b, s.total_seconds()
            both(rec, cls, version, load, [w / w.sum(1, keepdims=True), labels[:-1] + [1.], 60.], 'clearness')
            geo = {'2.2': {'country': 'england', 'latitude': 52.8, 'longitude': -1.2, 'meridian': 0., 'use_daylight_saving_time': True},
                   '2.3.3': {'country': 'india', 'latitude': 13.1, 'longitude': 80.3, 'meridian': 82.5,
                             'use_daylight_saving_time': False}}[version]
            both(rec, cls, version, lambda o: o.load_geographic_data(), geo, 'site')
            if version == '2.2':
                both(rec, cls, version, lambda o: o.load_temperatures_arma(), {
                    'T_mean': 9.3, 'T_std': 6.5, 'T_shift': -115, 'AR': .81, 'MA': .62, 'SD': .5}, 'temperatures')
        rec.state((version, salt))


def lights(rec, scen):
    for version, salt in scen:
        conf = np.full((100, 38), NAN)
        cells = {(9, 3): POISON, (10, 2): 'n', **{(10, 3 + j): j for j in range(38)}}
        for h in range(100):
            cells[11 + h, 2] = h + 1
            for j in range((h * 5 + salt) % 39):
                conf[h, j] = 5 + (h * 3 + j * 11 + salt) % 23
                cells[11 + h, 3 + j] = float(conf[h, j])
            cells[11 + h, 41] = POISON
        cells[111, 3] = POISON
        light = {(r, c): POISON for r in (3, 5, 23, 25, 35, 43, 53, 64) for c in (4, 6, 7, 8)}
        scalar = {6: .125 + salt, 7: .25 + salt}     # the scalar is in column F or G
        for c, v in scalar.items():
            light[24, c] = v
        light[4, 6], light[4, 7] = 60.5 + salt, 10.25 + salt
        light[36, 5], light[36, 6] = 'occupancy', 'share'
        occ = [0, 1, 1.5, 1.75, 2 + salt, 3 + salt]
        for i, v in enumerate(occ):
            light[37 + i, 5], light[37 + i, 6] = v, POISON
        heads = ('index', '(minutes)', '(minutes)', 'probability')
        for c, h in enumerate(heads):
            light[54, 3 + c] = h
        lo, hi = [1 + 10 * i + salt for i in range(9)], [5 + 10 * i + salt for i in range(9)]
        cdf = [(i + 1) / 9 for i in range(9)]
        for i in range(9):
            for c, v in enumerate((i, lo[i], hi[i], cdf[i])):
                light[55 + i, 3 + c] = v
        with book(version, {'bulbs': cells, 'light_config': light}) as cls:
            both(rec, cls, version, lambda o: o.load_crest_lighting(), {
                'calibration_scalar': scalar[6 if version == '2.2' else 7], 'effective_occupancy': occ, 'durations_cdf': cdf,
                'durations_minutes_low': lo, 'durations_minutes_high': hi, 'irradiance_threshold_mean': 60.5 + salt,
                'irradiance_threshold_std': 10.25 + salt}, 'lighting')
            for sg in ({}, {'n_residents': 2}):
                both(rec, cls, version, lambda o: o.load_bulbs_config(dict(sg)), [conf], 'bulbs of the houses', {'subgroup': sg})
                n = (conf > 0).sum(1)
                both(rec, cls, version, lambda o: o.load_installed_bulbs_stats(dict(sg)), [n.mean(), n.std()], 'number of bulbs', {'subgroup': sg})
            vals = sorted(set(conf[conf > 0].tolist()))
            both(rec, cls, version, lambda o: o.load_bulbs(), [vals, [(conf == v).sum() / n.sum() for v in vals]], 'kinds of bulbs')
        rec.state((version, salt))


# ---- heating and buildings -------------------------------------------------------------------------------------------
HEAT = [('equipped_prob', 'Proportion of dwellings with this heating system'), ('name', 'Type of heating unit'),
        ('is_combi', 'Type of system'), ('fuel_type', 'Type of fuel'), ('fuel_flow_rate', 'Fuel flow rate (nominal)'),
        ('flow_rate_to_W', 'Calorific value of fuel flow rate'), ('heat_output', 'Heat output of unit'), ('standby_power', 'Standby power'),
        ('pump_power', 'Pump power'), ('cyl_volume', 'DHW cylinder volume'), ('cyl_loss', 'DHW Tank Heat Loss')]
U = 'Thermal transfer coefficient '
HOUSE = [('equipped_prob', 'Proportion of dwellings of this building type'), ('name', 'Description'),
         ('out_build_transfer_coef', U + 'between outside air and external building thermal capacitance'),
         ('build_int_transfer_coef', U + 'between external building thermal capacitance and internal building thermal capacitance'),
         ('ventilation_transfer_coef', U + 'representing ventilation heat loss between outside air and internal building thermal capacitance'),
         ('ext_capacitance', 'External building thermal capacitance'), ('int_capacitance', 'Internal building thermal capacitance'),
         ('irradiance_multiplier', 'Global irradiance multiplier'), ('floor_area', 'Floor area, living space'),
         ('height', 'Height, living space'), ('emitters_target_temperature', 'Nominal temperature of emitters '),
         ('emitters_transfer_coef', 'Heat transfer coefficient of emitters'),
         ('emitters_capacitance', 'Thermal capacitance of emitters')]


def heating(rec, scen):
    for version, salt in scen:
        n = 3 if version == '2.2' else 5
        order = list(range(len(HEAT)))
        order = order[salt:] + order[:salt]
        cells, vals = {(1, 2): POISON}, {}
        for c, k in enumerate(order):
            key, head = HEAT[k]
            cells[2, 2 + c] = head
            cells[3, 2 + c], cells[4, 2 + c] = 'symbol', 'unit'
            for i in range(n + 2):
                v = (i * 5 + k * 3 + salt) % 19 / 4
                if key == 'name':
                    v = 'Boiler %d' % i
                elif key == 'is_combi':
                    v = 1 + (i + salt) % 3
                elif key == 'fuel_type':
                    v = ['Mains gas', 'Heating oil', 'Elec tri city'][(i + salt) % 3]
                cells[5 + i, 2 + c] = v
                vals[key, i] = v
        want = {k: [vals[k, i] for i in range(n)] for k, _ in HEAT}
        want['is_combi'] = [v == 2 for v in want['is_combi']]
        want['fuel_type'] = [v.replace(' ', '') for v in want['fuel_type']]
        want['heat_output_sh'] = want['heat_output_dhw'] = want.pop('heat_output')

        house, hv, nb = {(1, 2): POISON}, {}, 4 + salt
        for k, (key, head) in enumerate(HOUSE):
            c = 2 + (k + salt) % len(HOUSE)
            house[2, c], house[3, c], house[4, c] = head, 'symbol', 'unit'
            for i in range(nb):
                house[5 + i, c] = hv[key, i] = 'House %d' % i if key == 'name' else (i * 7 + k * 3 + salt) % 23 / 8

        ctrl = {(r, c): POISON for r in (3, 20, 22, 36) for c in (2, 3, 4)}
        p1 = [(1 + (i + salt) % 4) / 64 for i in range(15)]
        p2 = [(1 + (i + salt) % 5) / 64 for i in range(12)]
        t1, t2 = [13 + i + salt for i in range(15)], [42 + 2 * i + salt for i in range(12)]
        for row, head, t, p in ((4, 'Demand temperature', t1, p1), (23, 'Hot water delivery temperature', t2, p2)):
            ctrl[row, 2], ctrl[row, 3], ctrl[row, 4] = 'Number', head, 'Percentage of homes'
            for i in range(len(t)):
                ctrl[row + 1 + i, 2], ctrl[row + 1 + i, 3], ctrl[row + 1 + i, 4] = i, t[i], p[i]
        with book(version, {'PrimaryHeatingSystems': cells, 'Buildings': house, 'HeatingControls': ctrl}) as cls:
            for sg in ({}, {'n_residents': 2}):
                both(rec, cls, version, lambda o: o.load_heating_system_dict(dict(sg)), want, 'heating systems', {'subgroup': sg})
                both(rec, cls, version, lambda o: o.load_buildings_dict(dict(sg)),
                     {k: [hv[k, i] for i in range(nb)] for k, _ in HOUSE}, 'buildings', {'subgroup': sg})
                both(rec, cls, version, lambda o: o.load_thermostat_dict(dict(sg)), {
                    'home_temperatures_cdf': np.cumsum(p1), 'home_temperatures_values': t1, 'water_temperatures_cdf': np.cumsum(p2),
                    'water_temperatures_values': t2, 'emitter_setpoints': 50.,
                    'deadband': {'space_heating': 2, 'space_cooling': 2, 'hot_water': 5, 'emitter': 5}}, 'thermostats', {'subgroup': sg})
        rec.state((version, salt))


# ---- what comes with demod -----------------------------------------------------------------------------------------
def shipped(rec, scen):
    """The parsed data of the two versions that come with demod agree with the layout and can be simulated for ever."""
    import json
    base = os.path.join(os.environ['MC_TREE'], 'demod', 'datasets', 'CREST', 'parsed_data')
    with open(os.path.join(base, 'v_2.2', 'appliance_dict.json')) as f:
        d = json.load(f)
    names = [a[0] for a in APPS]
    for k, want in (('name', names), ('type', [a[1] for a in APPS]), ('related_activity', [ACTS[a[2]] for a in APPS]),
                    ('uses_water', [n in LITRES for n in names]), ('number', 35),
                    ('poisson_sampling_lambda_liters', [LITRES.get(n, 0) for n in names]),
                    ('inactive_switch_off', [not (a[2] in ('LEVEL', 'ACT_WASHDRESS') or a[0] == 'DISH_WASHER') for a in APPS])):
        rec.expect(eq(d[k], want), 'shipped appliances of CREST', lambda: {'key': k, 'got': d[k], 'want': want}, 'shipped appliances')
        rec.transition()
    for version in ('v_2.2', 'v_2.3.3'):
        folder = os.path.join(base, version, '4_states')
        for n in range(1, 7):
            for day in ('1,2,3,4,5', '6,7'):
                t, lab, p0 = (np.load(os.path.join(folder, '%s__n_residents_%d__weekday_%s.npy' % (k, n, day)))
                              for k in ('tpm', 'labels', 'start_pdf'))
                S = (n + 1) ** 2
                ok = (t.shape == (144, S, S) and lab.tolist() == [10 * a + b for a in range(n + 1) for b in range(n + 1)]
                      and abs(p0.sum() - 1) < 1e-2 and p0.min() >= 0 and t.min() >= 0 and abs(t.sum(2) - 1).max() < 1e-9)
                rec.expect(ok, 'shipped transitions of CREST', {'version': version, 'residents': n, 'days': day}, 'shipped transitions')
                rec.state((version, n, day))
                rec.transition()
    rec.trace()


def build(ck):
    th = ck.thorough
    for version in VERSIONS:
        for salt in range(4 if th else 1):
            ck.add(f'transitions {version}, 1 to 3 residents, {salt}', tpms((1, 2, 3), 'de', version, salt))
            for n in (4, 5, 6):
                for d in 'de':
                    if n == 4 or th or (version == '2.2') == (n == 5):
                        ck.add(f'transitions {version}, {n} residents, {d}, {salt}', tpms((n,), d, version, salt + n))
        for salt in range(11 if th else 3):
            ck.add(f'heating {version}, {salt}', heating, [(version, salt)])
            ck.add(f'lights {version}, {salt}', lights, [(version, salt)])
        for salt in range(6 if th else 2):
            ck.add(f'clearness {version}, {salt}', clearness, [(version, salt)])
        perms = list(itertools.permutations(range(6)))
        for i, p in enumerate(perms[::24 if th else 144]):
            ck.add(f'activities {version}, {p}', activities, [(version, i, p)])
    ck.add('subgroups', subgroups)
    ck.add('appliances', appliances)
    ck.add('cycles', profiles)
    ck.add('shipped', shipped)
    ck.rule = ('Workbooks laid out as the one of CREST, every cell that is to be read holding a number of its own and the cells around '
               'them other ones, are parsed, then loaded again: for all versions, subgroups, orders of columns and activities.')
    ck.assumptions = ['the original workbook cannot be fetched here: its layout is the one the parsers of the pinned tree follow, '
                      'checked to yield the parsed data shipped with demod']
