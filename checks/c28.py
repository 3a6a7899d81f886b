"""C28: downloaded raw data are complete or not there, whatever interrupted the download."""
import contextlib
import datetime as dt
import io
import itertools
import os
import shutil
import traceback
import urllib.request
import warnings
import zipfile

import numpy as np

from mc import fs

LEVEL = 'model_checking'
NAMES = itertools.count()


class Response(io.BytesIO):
    """Served content; may break after a number of bytes."""

    def __init__(self, data, broken=None):
        super().__init__(data)
        self.broken = broken

    def read(self, n=-1):
        if self.broken is None:
            return super().read(n)
        left = self.broken - self.tell()
        if left <= 0 or n is None or n < 0:
            raise ConnectionResetError('connection lost')
        return super().read(min(n, left))

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def close(self):
        pass


@contextlib.contextmanager
def serving(content, broken=None):
    """content: bytes, or None: no network."""
    asked = []

    def urlopen(url, *a, **k):
        asked.append(url)
        if content is None:
            raise OSError('no network')
        return Response(content, broken)
    old = urllib.request.urlopen
    urllib.request.urlopen = urlopen
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield asked
    finally:
        urllib.request.urlopen = old


def zipped(files):
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for name, data in files.items():
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data)
    return out.getvalue()


def npz(**kw):
    out = io.BytesIO()
    np.savez(out, **kw)
    return out.getvalue()


def ninja_csv(k, n=5):
    rows = ['# x', '# y', 'time,precipitation,temperature,irradiance_surface,irradiance_toa,snowfall,snow_mass,cloud_cover,'
            'air_density']
    t = dt.datetime(2014, 1, 1)
    for i in range(n):
        rows.append(f'{t + dt.timedelta(hours=i):%Y-%m-%d %H:%M:%S},0,{k + i},{i},{2 * i},0,0,0.5,1.25')
    return ('\n'.join(rows) + '\n').encode()


class Crest:
    name = 'Crest'

    def content(self, k):
        return b'workbook %d ' % k * 12

    def cls(self, dataset):
        from demod.datasets.CREST.loader import Crest
        return type('C', (Crest,), {'DATASET_NAME': dataset})

    def make(self, cls, update=False):
        return cls()

    def see(self, o):
        with open(o.raw_file_path, 'rb') as f:
            return f.read()

    def want(self, k):
        return self.content(k)


class Gtou:
    name = 'GTOU'

    def tpm(self, k, sg):
        return np.full((2, 2, 2), .5) + np.array([[k / 64, -k / 64]]), np.array(['a', 'b']), np.array([.25 * sg, 1 - .25 * sg])

    def content(self, k):
        files = {}
        for sg in (1, 2):
            t, l, p = self.tpm(k, sg)
            files['n_residents_%d.npz' % sg] = npz(tpm=t, labels=l, initial_pdf=p)
        return zipped(files)

    def cls(self, dataset):
        from demod.datasets.GermanTOU.loader import GTOU
        return type('G', (GTOU,), {'DATASET_NAME': dataset})

    def make(self, cls, update=False):
        return cls('McActs')

    def see(self, o):
        return [[x.tolist() for x in o.load_tpm({'n_residents': sg})] for sg in (1, 2)]

    def want(self, k):
        return [[x.tolist() for x in self.tpm(k, sg)] for sg in (1, 2)]


class Ninja:
    name = 'NinjaRenewablesClimate'

    def content(self, k):
        return ninja_csv(k)

    def cls(self, dataset):
        from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
        return type('N', (NinjaRenewablesClimate,), {'DATASET_NAME': dataset})

    def make(self, cls, update=False):
        return cls('germany', update_raw_data=update)

    def see(self, o):
        return o.load_historical_climate_data(dt.datetime(2014, 1, 1))['outside_temperature'].tolist()

    def want(self, k):
        return [float(k + i) for i in range(5)]


class Trace:
    name = 'Tracebase'
    DIRS = {'Refrigerator': ['a.csv', 'b.csv'], 'Washingmachine': ['dev_11F01E_2011.12.10.csv'], 'Unknown': ['z.csv']}

    def content(self, k):
        files = {}
        for d, names in self.DIRS.items():
            for j, f in enumerate(names):
                rows = [f'01/01/2012 00:{m:02d}:00;{k + 10 * j + m};0' for m in range(4)]
                files[f'tracebase-master/complete/{d}/{f}'] = '\n'.join(rows) + '\n'
        return zipped(files)

    def cls(self, dataset):
        from demod.datasets.tracebase.loader import Tracebase
        return type('T', (Tracebase,), {'DATASET_NAME': dataset})

    def make(self, cls, update=False):
        return cls(update_raw_data=update)

    def see(self, o):
        d = o.load_real_profiles_dict('full')
        return {t: {n: [float(v[0]), float(v[1]), float(v[2])] for n, v in p.items()} for t, p in d.items()}

    def want(self, k):
        def prof(j):
            # mean over the seconds of each minute of what is interpolated
            return [k + 10 * j + m + 29.5 / 60 for m in range(3)]
        return {'fridge': {'a.csv': prof(0), 'b.csv': prof(1)}, 'washingmachine': {'dev_11F01E_2011.12.10.csv': prof(0)}}


SOURCES = [Crest(), Gtou(), Ninja(), Trace()]
UPDATES = ('NinjaRenewablesClimate', 'Tracebase')


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return abs(a - b) < 1e-9
    return a == b


class Place:
    def __init__(self, src, state=None):
        from demod.datasets import base_loader as B
        name = 'McD%d_%d' % (os.getpid(), next(NAMES))
        self.root = os.path.join(os.path.dirname(B.__file__), name)
        assert os.environ['MC_TREE'] in self.root
        os.mkdir(self.root)
        if state:
            fs.restore(self.root, state)
        self.src, self.cls = src, src.cls(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root)

    def run(self, k, broken=None, update=False):
        """Build a loader and read its data; k: what is served (None: no network)."""
        with warnings.catch_warnings(), serving(None if k is None else self.src.content(k), broken) as asked:
            warnings.simplefilter('ignore')
            return self.src.see(self.src.make(self.cls, update)), len(asked)


def check_after(rec, src, state, possible, detail, key):
    """After an interruption: the data are those of one download, completely, and stay the same."""
    with Place(src, state) as p:
        try:
            got, asked = p.run(7)
            again, more = p.run(None)
        except Exception as e:
            rec.fail(f'{src.name}: fails after an interrupted download', {**detail, 'error': repr(e)[:300]}, key)
            return
        rec.transition(2)
        rec.expect(any(close(got, src.want(k)) for k in (7, *possible)), f'{src.name}: incomplete data of an interrupted download',
                   lambda: {**detail, 'got': got}, key)
        rec.expect(close(got, again) and more == 0, f'{src.name}: data change or are downloaded again', lambda: {**detail, 'got': got,
                   'then': again}, key)
        rec.trace()
        if src.name not in UPDATES:
            return
        # what was parsed before is not of another download than the raw data
        for d, _, files in os.walk(os.path.join(p.root, 'parsed_data')):
            for name in files:
                os.unlink(os.path.join(d, name))
        try:
            again, more = p.run(None)
        except OSError as e:
            again, more = repr(e), 0
        rec.expect(close(got, again) and more == 0, f'{src.name}: data are those of the raw data', lambda: {**detail, 'got': got,
                   'once parsed again': again}, key)


def cuts(fine):
    return (lambda n: range(1, n + 1)) if fine else (lambda n: {1, n // 3, n // 2, n - 1, n})


def crashes(src, update, fine):
    """Every state a crash can leave, of a first download or of an update."""
    def f(rec, scen):
        states, ops = {}, []
        with Place(src) as p:
            if update:
                p.run(3)

            def hook(op):
                ops.append(repr(op))
                if op.kind == 'read':
                    return
                s = fs.snapshot(p.root)
                for t in (s, *fs.torn(p.root, s, op, cuts(fine))):
                    states.setdefault(repr(sorted(t.items())), (t, len(ops)))
            with fs.watching(p.root, hook):
                got, _ = p.run(5, update=update)
            rec.expect(close(got, src.want(5)), f'{src.name}: data are those downloaded', lambda: got, f'{src.name} data')
        for t, n in states.values():
            check_after(rec, src, t, (3, 5) if update else (5,), {'crash at operation': n, 'of': ops[max(0, n - 3):n + 1],
                        'update': update}, f'{src.name} crash')
            rec.state((src.name, update, n, len(repr(t))))
        rec.sample({'source': src.name, 'update': update, 'operations': len(ops), 'crash states': len(states)})
    return f


def broken(src, update, fine):
    """The connection is lost after any number of bytes; or any file operation fails."""
    def f(rec, scen):
        n = len(src.content(5))
        with Place(src) as p:
            if update:
                p.run(3)
            p.run(5, update=update)
            complete = set(fs.snapshot(p.root))

        def clean(s, detail):
            rec.expect(set(s) <= complete, f'{src.name}: a download that fails leaves files behind',
                       lambda: {**detail, 'update': update, 'files': sorted(set(s) - complete)}, f'{src.name} leftovers')
        for cut in range(0, n, 1 if fine or n < 500 else 5):
            with Place(src) as p:
                if update:
                    p.run(3)
                try:
                    p.run(5, broken=cut, update=update)
                    rec.fail(f'{src.name}: a broken download goes unnoticed', {'bytes': cut}, f'{src.name} unnoticed')
                except OSError:
                    pass
                s = fs.snapshot(p.root)
            clean(s, {'connection lost after bytes': cut})
            check_after(rec, src, s, (3,) if update else (), {'connection lost after bytes': cut, 'update': update},
                        f'{src.name} broken')
            rec.state((src.name, update, 'broken', cut))
        for exc in (OSError(28, 'No space left on device'), KeyboardInterrupt()):
            for k in itertools.count():
                hit = [0, None]
                with Place(src) as p:
                    if update:
                        p.run(3)

                    def hook(op):
                        hit[0] += 1
                        if hit[0] == k + 1 and op.kind != 'read':
                            hit[1] = op.kind
                            raise exc
                    try:
                        with fs.watching(p.root, hook):
                            p.run(5, update=update)
                    except (OSError, KeyboardInterrupt):
                        pass
                    s = fs.snapshot(p.root)
                if hit[0] < k + 1:
                    break
                if hit[1]:
                    if hit[1] not in ('remove', 'rmdir'):
                        clean(s, {'failure': repr(exc), 'at operation': k})
                    check_after(rec, src, s, (3, 5) if update else (5,), {'failure': repr(exc), 'at operation': k},
                                f'{src.name} failure')
                    rec.state((src.name, update, repr(exc), k))
    return f


def histories(src, depth):
    """All sequences of runs: with or without network, asking for an update, a lost connection."""
    def f(rec, scen):
        ops = ['run', 'offline', 'lost'] + (['update', 'lost update'] if src.name in UPDATES else [])
        for seq in itertools.product(ops, repeat=depth):
            with Place(src) as p:
                have = None
                for i, op in enumerate(seq):
                    k = i + 1
                    rec.transition()
                    upd = 'update' in op
                    fetch = have is None or upd
                    try:
                        got, asked = p.run(None if op == 'offline' else k, broken=20 if 'lost' in op else None, update=upd)
                        ok = True
                    except OSError:
                        ok = False
                    should = not fetch or op in ('run', 'update')
                    if not rec.expect(ok == should, f'{src.name}: whether a run succeeds', {'history': seq[:i + 1]}, f'{src.name} success'):
                        break
                    if ok:
                        if fetch:
                            have = k
                        rec.expect(close(got, src.want(have)), f'{src.name}: data of the last complete download',
                                   lambda: {'history': seq[:i + 1], 'got': got}, f'{src.name} history')
                        rec.expect(bool(asked) == fetch, f'{src.name}: downloads only what is missing', {'history': seq[:i + 1]},
                                   f'{src.name} asked')
            rec.trace()
            rec.state((src.name, seq))
    return f


def two(src, present, bound):
    """Two runs at the same time, on raw data already there or not."""
    def f(rec, scen):
        with Place(src) as p:
            if present:
                p.run(1)
            start = fs.snapshot(p.root)
        if present:  # only the raw data
            start = {k: v for k, v in start.items() if k.split(os.sep)[0] == 'raw_data'}
        with Place(src, start) as p:
            count = [0]

            def hook(op):
                count[0] += 1
            with fs.watching(p.root, hook):
                p.run(None if present else 1)
        for sched in fs.schedules(count[0] + 4, count[0] + 4, bound):
            with Place(src, start) as p:
                with warnings.catch_warnings(), serving(None if present else src.content(1)):
                    warnings.simplefilter('ignore')
                    pr = fs.Pair(p.root, [lambda: src.see(src.make(p.cls))] * 2, sched)
                    out, err = pr.run()
                rec.transition(sum(pr.ops))
                for v, e in zip(out, err):
                    rec.expect(e is None and close(v, src.want(1)), f'{src.name}: two runs at the same time',
                               lambda: {'schedule': sched, 'error': repr(e), 'got': v,
                                        'where': traceback.format_tb(e.__traceback__)[-4:] if e else None}, f'{src.name} concurrent')
                try:
                    got = p.run(None)[0]
                except Exception as e:
                    got = repr(e)
                rec.expect(close(got, src.want(1)), f'{src.name}: run after two at the same time',
                           lambda: {'schedule': sched, 'got': got}, f'{src.name} after concurrent')
            rec.trace()
            rec.state((src.name, present, tuple(sched)))
        rec.sample({'source': src.name, 'operations': count[0]})
    return f


def weightings(rec, scen):
    """Countries and weightings have their own data, whatever the order of the runs."""
    src = Ninja()
    kinds = [('germany', 'population'), ('germany', 'land_area'), ('switzerland', 'population'), ('switzerland', 'land_area')]
    for seq in itertools.product(range(4), repeat=4):
        with Place(src) as p:
            have = {}
            for i, k in enumerate(seq):
                with warnings.catch_warnings(), serving(src.content(10 * k + i)) as asked:
                    warnings.simplefilter('ignore')
                    got = src.see(p.cls(kinds[k][0], weighted_type=kinds[k][1]))
                have.setdefault(k, 10 * k + i)
                rec.expect(close(got, src.want(have[k])), 'climate data of another country or weighting',
                           lambda: {'history': [kinds[j] for j in seq[:i + 1]], 'got': got}, 'ninja weighting')
                rec.transition()
        rec.trace()
        rec.state(seq)


def build(ck):
    fs.install()
    ck.rule = ('every crash state (each file operation, torn writes), every byte at which the connection is lost, every failing '
               'file operation, every sequence of runs, every schedule of two runs on downloaded data up to %d switches at file '
               'operations' % (3 if ck.thorough else 2))
    ck.assumptions = ['urllib.request.urlopen is replaced by stand-ins serving small contents',
                      'two runs at the same time only on data already downloaded']
    th = ck.thorough
    for src in SOURCES:
        for update in ((False, True) if src.name in UPDATES else (False,)):
            u = ' update' if update else ''
            ck.add(f'crashes: {src.name}{u}', crashes(src, update, th))
            ck.add(f'lost connections: {src.name}{u}', broken(src, update, th))
        ck.add(f'histories: {src.name}', histories(src, 5 if th else 3))
        if src.name != 'GTOU':
            ck.add(f'two runs: {src.name}', two(src, True, 3 if th else 2))
    ck.add('weightings', weightings, None)
