"""C35: data files of the user and of the surveys are read as they are written."""
import contextlib
import datetime as dt
import io
import itertools
import json
import os
import re
import shutil
import urllib.request
import warnings
import zipfile
import xml.etree.ElementTree as ET

import numpy as np

LEVEL = 'model_checking'
NAMES = itertools.count()
NAN = float('nan')


def folder():
    return os.path.join(os.environ['MC_TREE'], 'demod', 'datasets')


@contextlib.contextmanager
def quiet():
    def refused(*a, **k):
        raise OSError('no network')
    old = urllib.request.urlopen
    urllib.request.urlopen = refused
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        urllib.request.urlopen = old


def eq(a, b):
    """Equal up to round-off; blanks (nan) match blanks only."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    a, b = np.asarray(a, dtype=object).ravel().tolist(), np.asarray(b, dtype=object).ravel().tolist()
    return len(a) == len(b) and all(eq1(x, y) for x, y in zip(a, b))


def eq1(x, y):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    x, y = float(x), float(y)
    return x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def private(cls, files=(), **texts):
    """The dataset in a new folder with these raw files."""
    name = '%s_%d_%d' % (cls.DATASET_NAME, os.getpid(), next(NAMES))
    raw = os.path.join(folder(), name, 'raw_data')
    os.makedirs(raw)
    os.makedirs(os.path.join(folder(), name, 'parsed_data'))
    for src, dst in files:
        shutil.copyfile(src, os.path.join(raw, dst))
    return os.path.join(folder(), name), type('P', (cls,), {'DATASET_NAME': name})


# ---- the survey of the ownership of appliances ------------------------------------------------------------------
T = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
O = '{urn:oasis:names:tc:opendocument:xmlns:office:1.0}'
X = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'


def survey_path():
    return os.path.join(folder(), 'DESTATIS', 'raw_data', 'appliances_penetration.ods')


def coded(path, out):
    """The same sheet, each number replaced by a number of its own (shares below numbers, up to 100 %)."""
    with zipfile.ZipFile(path) as z:
        parts = {n: z.read(n) for n in z.namelist()}
    root = ET.fromstring(parts['content.xml'])
    tab = next(root.iter(T + 'table'))
    r = 0
    for tr in tab.iter(T + 'table-row'):
        c = 0
        for cell in tr:
            if cell.tag not in (T + 'table-cell', T + 'covered-table-cell'):
                continue
            n = int(cell.get(T + 'number-columns-repeated', 1))
            if cell.get(O + 'value') is not None and r > 5:
                # the numbers come first, the shares 51 rows below
                share = 1 + ((r % 51) * 73 + c) % 3719 / 3719 * 90
                v = share if r >= 57 else share + 1 + (r * 73 + c) % 1013 / 4
                if n > 1:  # the same number in several columns
                    v = .5 if r >= 57 else 250.
                cell.set(O + 'value', repr(v))
                for p in list(cell):
                    if p.tag == X + 'p':
                        p.text = repr(v)
            c += n
        r += int(tr.get(T + 'number-rows-repeated', 1))
    parts['content.xml'] = ET.tostring(root)
    with zipfile.ZipFile(out, 'w') as z:
        for n, b in parts.items():
            z.writestr(n, b)


def sheet(path):
    root = ET.fromstring(zipfile.ZipFile(path).read('content.xml'))
    rows = []
    for tr in next(root.iter(T + 'table')).iter(T + 'table-row'):
        row = []
        for cell in tr:
            if cell.tag not in (T + 'table-cell', T + 'covered-table-cell'):
                continue
            v = cell.get(O + 'value')
            v = float(v) if v is not None else (''.join(''.join(p.itertext()) for p in cell.iter(X + 'p')) or None)
            row += [v] * min(int(cell.get(T + 'number-columns-repeated', 1)), 100)
        rows += [row + [None] * (100 - len(row))] * min(int(tr.get(T + 'number-rows-repeated', 1)), 5)
    return rows


def header(rows, top, *path):
    """The column below these headers."""
    def text(v):
        return '' if v is None else str(int(v)) if isinstance(v, float) else ' '.join(v.split())
    cols = [c for c in range(100) if text(rows[0][c]).startswith(top)]
    start = cols[0]
    stop = next(c for c in range(start + 1, 100) if rows[0][c] is not None)
    for level, want in path:
        hit = [c for c in range(start, stop) if text(rows[level][c]) == want]
        if not hit:
            raise KeyError((top, path))
        start = hit[0]
        if level == 1:
            stop = next((c for c in range(start + 1, stop) if rows[1][c] is not None), stop)
    return start


def survey_column(rows, sg):
    t, n, g = sg.get('household_type'), sg.get('n_residents'), sg.get('gender')
    kind, kids = 'Davon nach dem Haushaltstyp', 'Darunter nach Alleinerziehenden'
    if t == 1:
        if g is None:
            return header(rows, kind, (1, 'Allein- lebende'))
        return header(rows, kind, (1, 'davon Allein- lebende'), (2, {1: 'Männer', 2: 'Frauen'}[g]))
    if t == 2:
        return header(rows, kind, (1, 'davon Paare'), (2, 'ohne Kind'))
    if t == 3 and n in (2, 3, 4):
        return header(rows, kids, (1, 'davon mit Kind(ern) 1)'), (2, '1' if n == 2 else '2 und mehr'))
    if t == 4 and n in (3, 4, 5):
        return header(rows, kids, (1, 'davon mit Kind(ern) 2)'), (2, ('1', '2', '3 und mehr')[n - 3]))
    if n is not None:
        return header(rows, 'Davon mit ... Person(en)', (1, str(n) if n < 5 else '5 und mehr'))
    rev = sg.get('household_revenue')
    if rev is not None:
        for c in range(header(rows, 'Darunter nach dem monatlichen'), 100):
            label = rows[1][c]
            if label is None:
                break
            bounds = [int(re.sub(r'\D', '', x)) for x in re.split('[–-]', label)]
            if rev < bounds[-1] or rows[1][c + 1] is None:
                return c
    return header(rows, 'Deutschland', (1, str(sg['year'])))


def survey_ownership(rows, col):
    """{type: share of the households with at least one, and the further copies}"""
    stop = next(r for r in range(len(rows)) if rows[r][1] == '% of equipped households')

    def value(r):
        v = rows[r][col]
        return v / 100 if isinstance(v, float) else NAN
    out = {}
    for r in range(5, stop):
        name = rows[r][0]
        if name is None:
            continue
        name = name.replace(' ', '')
        share, number = value(r + 51), value(r)
        number = share if number != number else number
        for k in [k for k in out if re.fullmatch(re.escape(name) + r'(_\d+)?', k)]:
            del out[k]
        out[name] = 0.0 if share != share else share
        rest, k = number - share, 2
        while rest > 1e-12:
            out['%s_%d' % (name, k)] = min(rest, 1.0)
            rest, k = rest - 1, k + 1
    return out


def survey_groups():
    G = []
    for t, n in itertools.product((None, 1, 2, 3, 4, 5), (None, 1, 2, 3, 4, 5)):
        for g in (None, 1, 2) if t == 1 else (None, 2):
            G.append(dict(household_type=t, n_residents=n, gender=g))
    for rev in (0, 1, 899, 899.99, 900, 1299, 1300, 1499, 1500, 1999, 2000, 2599, 2600, 3599, 3600, 4999, 5000, 17999, 50000):
        G.append(dict(household_revenue=rev))
    G += [dict(household_revenue=1400, n_residents=2), dict(household_type=5, household_revenue=3000), dict(household_revenue=100, year=2013)]
    G += [dict(year=y) for y in (2008, 2013, 2018)] + [dict(year=2018, n_residents=4), dict(household_type=2, year=2008)]
    G += [dict(n_residents=3, weekday=[6, 7]), dict(household_type=4, n_residents=4, weekday=[1, 2, 3, 4, 5], quarter=2),
          dict(n_residents=1, hh_work_type='1_retired'), dict(household_type=1, quarter=1, n_residents=1)]
    out = []
    for g in G:
        g = {k: v for k, v in g.items() if v is not None}
        if g not in out:
            out.append(g)
    return out


def survey(rec, scen):
    from demod.datasets.DESTATIS.loader import Destatis
    doc, part, parts = scen
    where, cls = private(Destatis)
    path = os.path.join(where, 'raw_data', 'appliances_penetration.ods')
    (shutil.copyfile if doc == 'shipped' else coded)(survey_path(), path)
    rows = sheet(path)
    data = cls()
    for sg in survey_groups()[part::parts]:
        try:
            want = survey_ownership(rows, survey_column(rows, sg))
        except KeyError:
            want = None
        given = json.dumps(sg)
        ctx = {'document': doc, 'subgroup': dict(sg)}
        got = []
        for k in range(2):  # from the survey, then from the parsed data
            try:
                with quiet():
                    got.append({a: float(v) for a, v in data.load_appliance_ownership_dict(dict(sg)).items()})
            except Exception as e:
                got.append(repr(e)[:100])
        rec.state((doc, given))
        rec.transition(2)
        rec.trace()
        if want is None:
            rec.expect(all(isinstance(g, str) for g in got), 'an ownership was made up for a subgroup the survey does not have',
                       {**ctx, 'got': got}, 'unknown subgroup')
            continue
        for k, g in enumerate(got):
            if isinstance(g, str):
                rec.fail('the ownership of a subgroup of the survey is not found', {**ctx, 'got': g}, 'survey error')
                continue
            # a copy nobody owns may be left out
            g = {a: v for a, v in g.items() if v or a in want}
            bad = {a: (g.get(a), want.get(a)) for a in set(g) | set(want) if not eq1(g.get(a), want.get(a))
                   and abs((g.get(a) or 0) - (want.get(a) or 0)) > 1e-9}
            rec.expect(not bad, 'the ownership is not the one of the subgroup in the survey',
                       lambda: {**ctx, 'load': k, 'got,want': bad}, 'survey')
    if doc == 'shipped' and part == 0:
        shipped(rec, rows)
    rec.sample({'document': doc, 'subgroup': sg})
    shutil.rmtree(where)


def shipped(rec, rows):
    """The parsed ownership that comes with demod is the one of the survey that comes with it."""
    base = os.path.join(folder(), 'DESTATIS', 'parsed_data', 'appliance_ownership')
    for f in sorted(os.listdir(base)):
        if not f.endswith('.npz') or f.startswith('.'):  # being written
            continue
        sg = {}
        for k in ('household_type', 'n_residents'):
            m = re.search(k + r'_(\d)', f)
            if m:
                sg[k] = int(m.group(1))
        if '_year' in f or 'gender' in f or 'revenue' in f or not sg:
            continue
        want = survey_ownership(rows, survey_column(rows, sg))
        with np.load(os.path.join(base, f)) as z:
            got = {k: float(z[k]) for k in z}
        got = {a: v for a, v in got.items() if v or a in want}
        bad = {a: (got.get(a), want.get(a)) for a in set(got) | set(want) if abs((got.get(a) or 0) - (want.get(a) or 0)) > 1e-9}
        rec.state(f)
        rec.transition()
        rec.expect(not bad, 'the parsed ownership in demod is not the one of the survey in demod', {'file': f, 'got,want': bad}, 'shipped')


def population(rec, _):
    from demod.datasets.DESTATIS.loader import Destatis
    where, cls = private(Destatis)
    laws = {}
    size = {1: lambda n: n == 1, 2: lambda n: n == 2, 3: lambda n: n >= 2, 4: lambda n: n >= 3}
    for kind in ('resident_number', 'resident_number_2013', 'resident_number_2019', 'household_types', 'household_types_2019', 'crest'):
        got = []
        for k in range(2):
            with quiet():
                groups, probs, total = cls().load_population_subgroups(kind)
            groups = [dict(g) for g in groups]
            got.append((groups, [float(p) for p in probs], int(total)))
            rec.transition()
        rec.state(kind)
        rec.trace()
        ctx = {'population_type': kind, 'got': got[0]}
        rec.expect(got[0] == got[1], 'the population changes when it is loaded again', {**ctx, 'second': got[1]}, 'population reload')
        groups, probs, total = got[0]
        rec.expect(len(groups) == len(probs) and abs(sum(probs) - 1) < 1e-9 and min(probs) >= 0,
                   'the shares of the population are not probabilities', ctx, 'population probabilities')
        rec.expect(len({json.dumps(g, sort_keys=True) for g in groups}) == len(groups), 'a subgroup is given twice', ctx, 'population subgroups')
        rec.expect(all(size[g['household_type']](g['n_residents']) for g in groups if 'household_type' in g)
                   and {g['n_residents'] for g in groups} == {1, 2, 3, 4, 5},
                   'the households of the population have an impossible size', ctx, 'population sizes')
        rec.expect(30e6 < total < 50e6, 'the total number of households is not the one of Germany', ctx, 'population total')
        laws[kind] = got[0]
    rec.expect(laws['resident_number'] == laws['resident_number_2019'] and laws['household_types'] == laws['household_types_2019'],
               'a population without a year is not the last one', laws, 'population default')
    try:
        with quiet():
            cls().load_population_subgroups('unknown')
        rec.fail('an unknown population was accepted', None, 'population unknown')
    except NotImplementedError:
        pass
    shutil.rmtree(where)


# ---- the spreadsheets -------------------------------------------------------------------------------------------
APPLIANCES = [('name', 's'), ('type', 's'), ('equipped_prob', 'f'), ('related_activity', 's'), ('inactive_switch_off', 'b'),
              ('mean_elec_consumption', 'f'), ('uses_water', 'b'), ('mean_duration', 'i'), ('probabilistic', 'b'), ('target_cycle_year', 'f')]
BUILDINGS = [('equipped_prob', 'f'), ('name', 's'), ('ext_capacitance', 'f'), ('floor_area', 'i')]
SYSTEMS = [('equipped_prob', 'f'), ('name', 's'), ('is_combi', 'i'), ('fuel_type', 's'), ('standby_power', 'f')]
WORDS = ['fridge', 'tv', 'big oven', 'hob', ' lamp ', 'pc 1']


def table(columns, n, seed, blanks=()):
    """A table with a value of its own in each cell."""
    out = {}
    for c, (label, kind) in enumerate(columns):
        col = []
        for r in range(n):
            k = seed + 17 * c + 5 * r
            col.append({'s': '%s %d' % (WORDS[k % len(WORDS)], k), 'f': k / 8, 'i': k, 'b': (k // 5 + c + r) % 2}[kind])
            if (c, r) in blanks and kind == 'f':
                col[-1] = None
        out[label] = col
    return out


def put(ws, top, tab, order, gaps, left=3):
    """Writes a table with its labels on row `top`, some columns without a label in between."""
    col = left
    for k, label in enumerate(order):
        if k in gaps:  # a column of the file that is not used
            for r in range(len(tab[label])):
                ws.cell(top + 1 + r, col, 'note %d' % r)
            col += 1
        ws.cell(top, col, label)
        for r, v in enumerate(tab[label]):
            if v is not None:
                ws.cell(top + 1 + r, col, v)
        col += 1


def workbook(path, apps=None, lighting=None, buildings=None, systems=None, houses=None, order=0, gaps=()):
    """A spreadsheet laid out as inputs.xlsx."""
    import openpyxl
    wb = openpyxl.Workbook()
    wb.active.title = 'Main'

    def rot(t):
        keys = list(t)
        return keys[::-1] if order == -1 else keys[order % len(keys):] + keys[:order % len(keys)]
    if apps:
        ws = wb.create_sheet('Appliances')
        ws['A1'], ws['B7'] = 'Appliance and water fixture data', 'Names'
        for c in range(1, 6):
            ws.cell(14, c, '(unit %d)' % c)
        put(ws, 15, apps, rot(apps), gaps)
    for name, tab in (('Buildings', buildings), ('Heating Systems', systems)):
        if tab:
            ws = wb.create_sheet(name)
            ws['A1'] = 'data'
            for c in range(1, 6):
                ws.cell(4, c, 'W/K')
            for r in range(len(next(iter(tab.values())))):
                ws.cell(6 + r, 1, r + 1)
            put(ws, 5, tab, rot(tab), gaps, 2)
    if lighting:
        ws = wb.create_sheet('Lighting')
        ws['B1'], ws['B3'], ws['F3'], ws['G3'] = 'Lighting Model', '1. General configuration', 'Mean', 'S.D.'
        ws['D4'], ws['F4'], ws['G4'], ws['H4'] = 'House external', lighting['irradiance_threshold_mean'], lighting['irradiance_threshold_std'], 'W/m2'
        ws['D24'], ws['E24'], ws['F24'] = 'Calibration scalar', 'z', lighting['calibration_scalar']
        ws['D35'], ws['E35'], ws['D36'], ws['E36'] = 'Number of', 'Effective', 'active occupants', 'occupancy'
        for k, v in enumerate(lighting['effective_occupancy']):
            ws.cell(37 + k, 4, k), ws.cell(37 + k, 5, v)
        for c, v in zip('BCDE', ('range of equal', 'lower value', 'upper value', 'cumulative')):
            ws[c + '53'] = v
        for c, v in zip('BCDE', ('probability number', '(minutes)', '(minutes)', 'probability')):
            ws[c + '54'] = v
        for k in range(9):
            for c, key in ((2, None), (3, 'durations_minutes_low'), (4, 'durations_minutes_high'), (5, 'durations_cdf')):
                ws.cell(55 + k, c, k + 1 if key is None else lighting[key][k])
        ws['G68'] = 'Source'
        ws['C70'], ws['D70'], ws['C71'], ws['D71'] = 'Mean number of bulbs', lighting['mean'], 'Std', lighting['std']
        ws['C76'], ws['D76'], ws['E76'] = 'Name', 'Penetration', 'Consumption[W]'
        for k, (p, w) in enumerate(lighting['bulbs']):
            ws.cell(77 + k, 3, 'bulb %d' % k), ws.cell(77 + k, 4, p), ws.cell(77 + k, 5, w)
    if houses is not None:
        ws = wb.create_sheet('bulbs')
        ws['A1'], ws['A10'] = 'Sample installed bulbs', 'House Nb'
        for c in range(3, 3 + max(map(len, houses))):
            ws.cell(10, c, c - 2)
        for r, h in enumerate(houses):
            ws.cell(11 + r, 1, r + 1)
            for c, v in enumerate(h):
                ws.cell(11 + r, 3 + c, v)
    wb.save(path)


def flat(v):
    return NAN if v is None or v == '#DIV/0!' else v.replace(' ', '') if isinstance(v, str) else v


def expected(tab, columns):
    kinds = dict(columns)
    out = {k: [bool(x) if kinds[k] == 'b' else flat(x) for x in v] for k, v in tab.items()}
    out['number'] = len(next(iter(tab.values())))
    return out


def readers():
    """The two loaders of such spreadsheets: {name: function(path) -> object with the load methods}"""
    from demod.datasets.ExcellInputFile.loader import InputFileLoader
    from demod.datasets.Germany import loader as germany

    def input_file(path):
        return InputFileLoader(path)

    def german(path, version='v0.1'):
        where, cls = private(germany.GermanDataHerus, [(path, 'data_%s.xlsx' % version)])
        with quiet():
            return cls(version=version)
    return {'InputFileLoader': input_file, 'GermanDataHerus': german}


def compare(rec, ctx, what, got, want, key):
    rec.transition()
    rec.trace()
    return rec.expect(eq(got, want), what, lambda: {**ctx, 'got': got, 'want': want}, key)


def tables(rec, scen):
    """All layouts: numbers of rows, orders of columns, unlabelled columns, optional columns, blanks."""
    reader, cases = scen
    read = readers()[reader]
    tmp = os.path.join(folder(), 'tables_%d_%d.xlsx' % (os.getpid(), next(NAMES)))
    for n, order, gaps, drop, blanks in cases:
        cols = [c for c in APPLIANCES if c[0] not in drop and (reader == 'GermanDataHerus' or c[0] != 'probabilistic')]
        apps = table(cols, n, 3, blanks)
        build, heat = table(BUILDINGS, n, 40, blanks), table(SYSTEMS, n, 90, blanks)
        workbook(tmp, apps, None, build, heat, order=order, gaps=gaps)
        ctx = {'reader': reader, 'rows': n, 'order': order, 'unlabelled columns before': gaps, 'without': drop, 'blank cells': blanks}
        with quiet():
            data = read(tmp)
        rec.state((reader, n, order, gaps, drop, blanks))
        for k in range(2 if reader == 'GermanDataHerus' else 1):  # from the file, then from the parsed data
            with quiet():
                got = [dict(data.load_appliance_dict()), dict(data.load_buildings_dict({})), dict(data.load_heating_system_dict({}))]
            compare(rec, {**ctx, 'load': k}, 'the appliances are not the ones of the spreadsheet', got[0], expected(apps, cols), 'appliances')
            compare(rec, {**ctx, 'load': k}, 'the buildings are not the ones of the spreadsheet', got[1], expected(build, BUILDINGS), 'buildings')
            compare(rec, {**ctx, 'load': k}, 'the heating systems are not the ones of the spreadsheet', got[2], expected(heat, SYSTEMS), 'systems')
            for g, kinds in ((got[0], dict(cols)),):
                for c, kind in kinds.items():
                    if kind == 'b':
                        rec.expect(np.asarray(g[c]).dtype == bool, 'a yes/no column of the spreadsheet is not boolean', {**ctx, 'column': c}, 'bool')
            if 'target_cycle_year' in dict(cols) and not any(b[0] == len(cols) - 1 for b in blanks):
                with quiet():
                    tgt = data.load_yearly_target_switchons({})
                compare(rec, {**ctx, 'load': k}, 'the targets are not the ones of the spreadsheet',
                        {a: float(v) for a, v in tgt.items()}, dict(zip(map(flat, apps['type']), apps['target_cycle_year'])), 'targets')
    os.remove(tmp)
    rec.sample(ctx)


def lamp(change=None):
    L = dict(irradiance_threshold_mean=60.5, irradiance_threshold_std=10.25, calibration_scalar=0.0081,
             effective_occupancy=[0, 1, 1.5, 1.75, 2, 2.125], durations_cdf=[.1, .2, .3, .4, .5, .6, .7, .8, 1],
             durations_minutes_low=[1, 2, 3, 5, 9, 17, 28, 50, 92], durations_minutes_high=[1, 2, 4, 8, 16, 27, 49, 91, 259],
             mean=25.5, std=15.75, bulbs=[(.625, 7), (.25, 14), (.125, 60)])
    if change is not None:
        key, k, v = change
        if k is None:
            L[key] = v
        else:
            L[key] = list(L[key])
            L[key][k] = v
    return L


def lights(rec, scen):
    """Each single change of a cell of the lighting sheet, and each number of types of bulbs."""
    reader, changes = scen
    read = readers()[reader]
    tmp = os.path.join(folder(), 'lights_%d_%d.xlsx' % (os.getpid(), next(NAMES)))
    for change in changes:
        L = lamp(change)
        houses = [[12, 60, 100.5, 9], [60], [7, 7, 40]][:1 + len(L['bulbs']) % 3]
        workbook(tmp, lighting=L, houses=houses)
        ctx = {'reader': reader, 'changed cell': change}
        with quiet():
            data = read(tmp)
        rec.state((reader, change))
        for k in range(2 if reader == 'GermanDataHerus' else 1):
            with quiet():
                crest = {a: v for a, v in data.load_crest_lighting().items()}
                cons, pen = data.load_bulbs()
                stats = data.load_installed_bulbs_stats()
            compare(rec, ctx, 'the lighting data are not the ones of the spreadsheet', crest,
                    {a: v for a, v in L.items() if a not in ('mean', 'std', 'bulbs')}, 'lighting')
            compare(rec, ctx, 'the types of bulbs are not the ones of the spreadsheet', [list(cons), list(pen)],
                    [[b[1] for b in L['bulbs']], [b[0] for b in L['bulbs']]], 'bulbs')
            compare(rec, ctx, 'the number of bulbs is not the one of the spreadsheet', list(stats), [L['mean'], L['std']], 'bulb stats')
        if reader == 'InputFileLoader':
            with quiet():
                got = data.load_bulbs_config()
            w = max(map(len, houses))
            compare(rec, ctx, 'the bulbs of the houses are not the ones of the spreadsheet', np.asarray(got, dtype=float),
                    [h + [NAN] * (w - len(h)) for h in houses], 'houses')
    os.remove(tmp)
    rec.sample(ctx)


def labelled(path, title, anchor):
    """The columns of a sheet below the row that has this label."""
    import openpyxl
    ws = openpyxl.load_workbook(path, data_only=True)[title]
    rows = [[c.value for c in r] for r in ws.iter_rows()]
    top = next(r for r, row in enumerate(rows) if anchor in [str(v).strip() for v in row if v is not None])
    out = {}
    key = [c for c, v in enumerate(rows[top]) if str(v).strip() == anchor][0]
    body = []
    for row in rows[top + 1:]:
        if row[key] is None:
            break
        body.append(row)
    for c, v in enumerate(rows[top]):
        if isinstance(v, str):
            out[v.replace(' ', '')] = [flat(r[c]) for r in body]
    return out


def shipped_books(rec, scen):
    """The spreadsheets that come with demod, and the data parsed from them."""
    which = scen
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.datasets.ExcellInputFile.loader import InputFileLoader
    if which == 'inputs':
        path = os.path.join(folder(), 'ExcellInputFile', 'inputs.xlsx')
        with quiet():
            sources = {'the default file': InputFileLoader()}
    else:
        path = os.path.join(folder(), 'Germany', 'raw_data', 'data_%s.xlsx' % which)
        with quiet():
            sources = {'demod': GermanDataHerus(version=which), 'parsed again': readers()['GermanDataHerus'](path, which)}
    want = {'Appliances': labelled(path, 'Appliances', 'type'), 'Buildings': labelled(path, 'Buildings', 'floor_area'),
            'Heating Systems': labelled(path, 'Heating Systems', 'fuel_type')}
    bulbs = labelled(path, 'Lighting', 'Penetration')
    for src, data in sources.items():
        with quiet():
            got = {'Appliances': dict(data.load_appliance_dict()), 'Buildings': dict(data.load_buildings_dict({})),
                   'Heating Systems': dict(data.load_heating_system_dict({}))}
            cons, pen = data.load_bulbs()
        for title in got:
            ctx = {'file': os.path.basename(path), 'sheet': title, 'data': src}
            rec.state((which, src, title))
            n = len(want[title]['name'])
            rec.expect(int(got[title].pop('number')) == n, 'the number of rows differs', ctx, 'rows')
            g = {k: [NAN if x == 'nan' else x for x in np.asarray(v, dtype=object).tolist()] for k, v in got[title].items()}
            w = want[title]
            if src == 'demod':  # parsed from a spreadsheet with fewer columns
                w = {k: v for k, v in w.items() if k in g}
            bad = sorted(k for k in set(g) | set(w) if k not in g or k not in w or not eq(g[k], w[k]))
            rec.transition()
            rec.trace()
            rec.expect(not bad, 'the data are not the ones of the spreadsheet',
                       lambda: {**ctx, 'got': {k: g.get(k) for k in bad}, 'want': {k: w.get(k) for k in bad}},
                       'shipped %s, %s: %s' % (title, src, ', '.join(bad)))
        compare(rec, {'file': os.path.basename(path), 'data': src}, 'the bulbs are not the ones of the spreadsheet',
                [list(cons), list(pen)], [bulbs['Consumption[W]'], bulbs['Penetration']], 'shipped bulbs')
    rec.sample({'file': which})


# ---- reference load profiles and weather ------------------------------------------------------------------------
NAMES_FFE = {1: (1, 0, 'full'), 2: (1, 0, 'pension'), 3: (2, 0, 'full'), 4: (2, 0, 'pension'), 5: (2, 0, 'part'), 6: (2, 1, 'full'),
             7: (2, 1, 'part'), 8: (2, 2, 'full'), 9: (2, 2, 'part'), 10: (2, 3, 'full'), 11: (2, 3, 'part')}


def profiles(rec, scen):
    """All files of up to three households, in every order, with all phases of the load."""
    from demod.datasets.FfE_Open_Data import FfE_DataLoader
    for types in scen:
        for phases in ((0,), (0, 1, 2, 3), (3, 2, 1, 0), (1, 0)):
            where, cls = private(FfE_DataLoader)
            entries = [dict(internal_id_1=t, internal_id_2=p, values=[t + p / 8 + q / 64, 2.5 * t, p + .25])
                       for q, t in enumerate(types) for p in phases]
            json.dump({'data': [entries]}, open(os.path.join(where, 'raw_data', 'v_opendata_electric_load.htm'), 'w'))
            heat = [dict(internal_id_1=t, values=[t + q / 16, .5, 3.5]) for q, t in enumerate(types)]
            json.dump({'data': [heat]}, open(os.path.join(where, 'raw_data', 'v_opendata_thermal_load.htm'), 'w'))
            elec = [e['values'] for e in entries if e['internal_id_2'] == 0]
            data = cls(allow_pickle=True)
            rec.state((types, phases))
            ctx = {'households': types, 'phases': phases}
            for k, watts in enumerate((True, False, None, True)):
                kw = {} if watts is None else dict(convert_to_watts=watts)
                scale = 1 if watts is False else 1000
                with quiet():
                    st, lab = data.load_electric_load_profiles(return_labels=True, **kw)
                    th, thlab = data.load_thermal_load_profiles(return_labels=True)
                    only = data.load_electric_load_profiles(**kw), data.load_thermal_load_profiles()
                c = {**ctx, 'load': k, 'convert_to_watts': watts}
                compare(rec, c, 'the electric profiles are not the totals of the file', [*np.shape(st), *np.ravel(st)], [*np.shape(elec), *np.ravel(elec) * scale], 'ffe electric')
                compare(rec, c, 'the thermal profiles are not the ones of the file', th, [h['values'] for h in heat], 'ffe thermal')
                for l in (lab, thlab):
                    compare(rec, c, 'the labels are not the ones of the households', [dict(x)['hh_type'] for x in l], list(types), 'ffe labels')
                compare(rec, c, 'the profiles differ without their labels', [list(only[0].ravel()), list(only[1].ravel())],
                        [list(np.ravel(st)), list(np.ravel(th))], 'ffe without labels')
            shutil.rmtree(where)
    for t, (adults, kids, word) in NAMES_FFE.items():
        text = FfE_DataLoader.load_labels_name(data, t).lower()
        n = {'no': 0, 'one child': 1, 'two children': 2, 'three children': 3}
        k = next((v for w, v in n.items() if w in text), 0)
        full = text.count('one ') - ('one child' in text) + 2 * (text.count('two ') - ('two children' in text))
        rec.transition()
        rec.expect(k == kids and full == adults and word in text, 'the name of a type of household is another one',
                   {'type': t, 'name': text}, 'ffe names')
        rec.expect(FfE_DataLoader.load_labels_name(data, [t, 1])[0].lower() == text, 'names of several types differ from the ones of each', {'type': t}, 'ffe names')
    rec.sample(ctx)


def weather(rec, _):
    """The deprecated weather data: each country its own columns."""
    from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
    codes = {'germany': 'DE', 'switzerland': 'CH', 'england': 'GB'}
    for perm in itertools.permutations(codes.values()):
        for n in (1, 3, 25):
            where, cls = private(OpenPowerSystemClimate)
            times = [(dt.datetime(2014, 12, 31, 12) + dt.timedelta(hours=k)).strftime('%Y-%m-%dT%H:%M:%S') for k in range(n)]
            cells = {c: [[(i + 1) * 100 + j * 10 + k / 8 for j in range(3)] for k in range(n)] for i, c in enumerate(codes.values())}
            with open(os.path.join(where, 'raw_data', 'weather_data.csv'), 'w') as f:
                f.write('utc_timestamp,' + ','.join('%s_temperature,%s_radiation_direct_horizontal,%s_radiation_diffuse_horizontal' % (c, c, c)
                                                    for c in perm) + '\n')
                for k in range(n):
                    f.write(times[k] + ',' + ','.join('%r,%r,%r' % tuple(cells[c][k]) for c in perm) + '\n')
            for country, code in codes.items():
                for load in range(2):
                    with quiet():
                        got = cls(country)._parse_historical_climate_data()
                    ctx = {'country': country, 'columns': perm, 'hours': n}
                    rec.state((perm, n, country))
                    compare(rec, ctx, 'the outside temperature is not the one of the country', got['outside_temperature'],
                            [x[0] for x in cells[code]], 'ops temperature')
                    compare(rec, ctx, 'the irradiance is not direct plus diffuse of the country', got['irradiance'],
                            [x[1] + x[2] for x in cells[code]], 'ops irradiance')
                    rec.expect([str(t)[:19] for t in got['datetime']] == times, 'the times are not the ones of the file', ctx, 'ops times')
            shutil.rmtree(where)
    # Renewables.ninja: a file by country and weighting, the irradiance is the one at the ground
    from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
    cols = ['precipitation', 'temperature', 'irradiance_surface', 'irradiance_toa', 'snowfall', 'snow_mass', 'cloud_cover', 'air_density']
    names = {'outside_temperature': 'temperature', 'irradiance': 'irradiance_surface', 'precipitation': 'precipitation',
             'snowfall': 'snowfall', 'snow_mass': 'snow_mass', 'air_density': 'air_density'}
    asked = list(itertools.product(codes.items(), ('population', 'land_area')))
    for shift in range(len(cols)):
        order = cols[shift:] + cols[:shift]
        for n in (1, 3, 25):
            where, cls = private(NinjaRenewablesClimate)
            times = [dt.datetime(2014, 12, 31, 12) + dt.timedelta(hours=k) for k in range(n)]
            cells = {}
            for i, ((_, code), weight) in enumerate(asked):
                # a cell left blank in some hours, in a column
                cells[code, weight] = {c: [NAN if (k + i) % 7 == 3 and j == (shift + i) % len(cols) else (i + 1) * 1000 + j * 100 + k / 8 for k in range(n)]
                                       for j, c in enumerate(cols)}
                with open(os.path.join(where, 'raw_data', '%s_%s.csv' % (code, weight)), 'w') as f:
                    f.write('# about\n# units\ntime,%s\n' % ','.join(order))
                    for k in range(n):
                        f.write(','.join([str(times[k])] + ['' if v != v else repr(v) for v in (cells[code, weight][c][k] for c in order)]) + '\n')
            for k, ((country, code), weight) in enumerate(asked + asked):
                name = code if k % 3 == 1 else country
                kw = {} if weight == 'population' and k % 2 else {'weighted_type': weight}
                start = times[k % n]
                with quiet():
                    got = cls(name, **kw).load_historical_climate_data(start)
                ctx = {'country': name, 'weighted by': weight, 'columns': order, 'hours': n, 'load': k, 'from': start}
                rec.state((shift, n, name, weight, k))
                for key, col in names.items():
                    compare(rec, ctx, 'the climate of the country is not the one of its file: ' + key, got[key],
                            cells[code, weight][col][k % n:], 'ninja ' + key)
                rec.expect([str(t)[:19] for t in got['datetime']] == [t.isoformat() for t in times[k % n:]], 'the times are not the ones of the file',
                           ctx, 'ninja times')
            shutil.rmtree(where)
    rec.sample({'columns': perm})


def build(ck):
    import demod.datasets.DESTATIS.loader  # noqa
    th = ck.thorough
    for doc in ('shipped', 'coded'):
        for part in range(8):
            ck.add('survey %s %d' % (doc, part), survey, (doc, part, 8))
    ck.add('population', population)
    cases = []
    for n, order, gaps in itertools.product((1, 2, 5), (0, 1, 3, -1), ((), (0,), (1, 3), (2,))):
        for drop in ((), ('inactive_switch_off',), ('uses_water', 'probabilistic'), ('inactive_switch_off', 'uses_water', 'probabilistic', 'target_cycle_year')):
            if th or (n + order + len(gaps) + len(drop)) % 2 == 0:
                cases.append((n, order, gaps, drop, ((2, 0), (5, n - 1)) if (n + len(drop)) % 3 == 0 else ()))
    for reader in ('InputFileLoader', 'GermanDataHerus'):
        for part in range(4):
            ck.add('tables %s %d' % (reader, part), tables, (reader, cases[part::4]))
        changes = [None]
        for key, v in lamp().items():
            if key == 'bulbs':
                changes += [('bulbs', None, b) for b in (((1, 40),), ((.5, 7.5), (.5, 60)), ((.25, 5), (.25, 6), (.25, 7), (.25, 8)))]
                changes += [('bulbs', k, (.375, 33)) for k in range(3)]
            elif isinstance(v, list):
                changes += [(key, k, 123.5) for k in range(len(v))]
            else:
                changes.append((key, None, 77.25))
        for part in range(2):
            ck.add('lights %s %d' % (reader, part), lights, (reader, changes[part::2]))
    for which in ('inputs', 'v0.1', 'vBottaccioli'):
        ck.add('shipped %s' % which, shipped_books, which)
    types = [(t,) for t in range(1, 12)] + list(itertools.permutations((1, 4, 11), 2)) + list(itertools.permutations((2, 9, 10), 3)) + [(5, 5)]
    for part in range(2):
        ck.add('profiles %d' % part, profiles, types[part::2])
    ck.add('weather', weather)
    ck.rule = ('all subgroups the survey distinguishes, in the survey of demod and in one with a number of its own in each cell; spreadsheets of 1 to 5 rows, '
               'several orders of columns, unlabelled, optional and blank cells; each change of one cell of the lighting sheet; all types of households and '
               'orders of the reference profiles; all countries and orders of columns of the weather')
    ck.assumptions = ['spreadsheets have the layout of inputs.xlsx; the survey the layout of the file of demod; downloads are out of scope (C28)']
