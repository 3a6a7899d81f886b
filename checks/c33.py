"""C33: measured load profiles, resampled to the step size."""
import contextlib
import datetime as dt
import io
import itertools
import os
import shutil
import urllib.request
import warnings

import numpy as np

LEVEL = 'model_checking'
NAMES = itertools.count()
ON = ['dev_995BAC_2012.06.11.csv', 'dev_11F01E_2011.12.10.csv', 'Microwave_2011.12.30.csv', 'dev_D337C2_2011.12.26.csv',
      'dev_B7E43D_2012.01.24.csv']


def folder():
    return os.path.join(os.environ['MC_TREE'], 'demod', 'datasets')


def refused(*a, **k):
    raise AssertionError('raw data that are there are downloaded again')


@contextlib.contextmanager
def quiet():
    old = urllib.request.urlopen
    urllib.request.urlopen = refused
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        urllib.request.urlopen = old


def dataset(files, text):
    """A new dataset with these files: {appliance folder: {file: records}}."""
    from demod.datasets.tracebase.loader import Tracebase
    name = 'tracebase_%d_%d' % (os.getpid(), next(NAMES))
    raw = os.path.join(folder(), name, 'raw_data')
    for d, profiles in files.items():
        os.makedirs(os.path.join(raw, 'tracebase-master', 'complete', d))
        for f, records in profiles.items():
            with open(os.path.join(raw, 'tracebase-master', 'complete', d, f), 'w') as fd:
                fd.write(text(records))
    with open(os.path.join(raw, 'raw_github.zip'), 'wb'):
        pass
    return name, type('T', (Tracebase,), {'DATASET_NAME': name})


def csv(records):
    day = dt.datetime(2012, 1, 13)
    return ''.join('%s;%s;%s\n' % ((day + dt.timedelta(seconds=s)).strftime('%d/%m/%Y %H:%M:%S'), w, 1) for s, w in records)


def resampled(records, step):
    """Mean over each step of the load interpolated each second; nothing after the last record."""
    first, last = records[0][0], records[-1][0]
    load = []
    for (a, x), (b, y) in zip(records, records[1:]):
        load += [x + (y - x) * (s - a) / (b - a) for s in range(a, b)]
    assert len(load) == last - first
    return [sum(load[i:i + step]) / step for i in range(0, len(load), step)]


def check(rec, files, step, key, on=False):
    name, cls = dataset(files, csv)
    try:
        with quiet():
            data = cls(step_size=dt.timedelta(seconds=step))
            got = [data.load_real_profiles_dict('full'), cls(step_size=dt.timedelta(seconds=step)).load_real_profiles_dict('full')]
            gon = data.load_real_profiles_dict('switchedON') if on else None
    finally:
        shutil.rmtree(os.path.join(folder(), name))
    from demod.datasets.tracebase.loader import traceback_type_to_demod as types
    want, won = {}, {}
    for d, profiles in files.items():
        if d not in types:
            continue
        for f, records in profiles.items():
            w = want.setdefault(types[d], {})[f] = resampled(records, step)
            if f in ON:
                idx = [i for i, x in enumerate(w) if x > 6]
                won.setdefault(types[d], {})[f] = w[idx[0]:idx[-1] + 1]

    def compare(g, w, kind):
        if not rec.expect({k: set(v) for k, v in g.items() if v} == {k: set(v) for k, v in w.items()}, 'appliances with a profile are wrong',
                          {'got': {k: sorted(v) for k, v in g.items()}, 'want': {k: sorted(v) for k, v in w.items()}}, kind + ' names'):
            return
        for t in w:
            for f in w[t]:
                rec.expect(len(g[t][f]) == len(w[t][f]) and np.allclose(g[t][f], w[t][f], rtol=1e-12, atol=1e-9),
                           'the profile is not the mean load of each step', lambda: {
                               'records': [p[f] for p in files.values() if f in p], 'step size': step, 'got': g[t][f], 'want': w[t][f]}, kind)
                rec.transition()
    for g in got:
        compare(g, want, 'full')
    if on:
        compare(gon, won, 'on')


def records(rec, scen):
    """All short profiles, many at once."""
    gaps, loads, n, starts, steps, part, parts = scen
    every = []
    for start in starts:
        for gs in itertools.product(gaps, repeat=n - 1):
            times = list(itertools.accumulate((start,) + gs))
            if times[-1] < 86400:
                for ls in itertools.product(loads, repeat=n):
                    every.append(list(zip(times, ls)))
    every = every[part::parts]
    for step in steps:
        check(rec, {'Refrigerator': {'f%d.csv' % i: r for i, r in enumerate(every)}}, step, 'records')
        rec.trace(len(every))
        for r in every:
            rec.state((step, tuple(r)))


def switched_on(rec, scen):
    """Profiles of one cycle: the part where the appliance is on."""
    n, step, part, parts = scen
    every = [p for p in itertools.product((0, 5, 6, 7, 100), repeat=n) if max(p) > 6][part::parts]
    for i in range(0, len(every), 4):
        files = {'Washingmachine': {}, 'Refrigerator': {'other.csv': [(0, 0), (step, 50)]}, 'Unknown': {'x.csv': [(0, 1), (60, 1)]}, 'MicrowaveOven': {}}
        for j, p in enumerate(every[i:i + 4]):
            t, recs = 10, []
            for x in p:                     # constant load during each step
                recs += [(t, x), (t + step - 1, x)] if step > 1 else [(t, x)]
                t += step
            recs.append((t, p[-1]))
            files['Washingmachine' if j % 2 else 'MicrowaveOven'][ON[j]] = recs
            rec.state((step, p))
            rec.trace()
        files['Washingmachine']['not listed.csv'] = [(0, 200), (3 * step, 200)]
        check(rec, files, step, 'on', on=True)


def types(rec, scen):
    """All the folders of the data: each type of appliance under its own name."""
    from demod.datasets.tracebase.loader import traceback_type_to_demod as types
    dirs = sorted(types) + ['Charger-PSP', 'USBHub', 'WaterFountain']
    for n in (1, 2):
        files = {d: {'%s_%d.csv' % (d, j): [(60 * i + j, 10 * i + j), (60 * i + j + 90, 10 * i + j)] for j in range(n)} for i, d in enumerate(dirs)}
        check(rec, files, 60, 'types', on=False)
        rec.state(n)
    rec.trace()


def build(ck):
    import demod.datasets.tracebase.loader  # noqa
    th = ck.thorough
    steps = (1, 2, 3, 7, 60) if th else (1, 2, 3, 60)
    for part in range(8):
        ck.add('short gaps %d' % part, records, ((1, 2, 3, 5), (0, 7, 100), 4 if not th else 5, (0, 3599), steps, part, 8 if not th else 8))
        ck.add('minutes %d' % part, records, ((1, 29, 60, 61, 120), (0, 60), 4, (0, 59, 36000), (1, 10, 60, 120, 600), part, 8))
    ck.add('day', records, ((30000, 56399), (0, 1000), 3, (0,), (60, 900, 3600), 0, 1))
    for step in (60, 1, 600):
        for part in range(2):
            ck.add('switched on, %d s, %d' % (step, part), switched_on, (5 if th else 4 if step == 60 else 3, step, part, 2))
    ck.add('types', types, None)
    ck.rule = ('all profiles of %d records with gaps of 1 to 5 seconds and of 4 records with gaps of seconds to minutes, all their loads over a few '
               'values, all step sizes of a list; all cycles of up to 4 steps; all types of appliances' % (5 if th else 4))
    ck.assumptions = ['records are in order, within one day; the step size is a whole number of seconds']
