"""C39: clearing the parsed data erases them, nothing else, and they are parsed again."""
import builtins
import contextlib
import datetime as dt
import io
import os
import shutil
import urllib.request
import warnings

import numpy as np

from checks import c28
from checks.c35 import folder, private
from mc import fs

LEVEL = 'model_checking'
ANSWERS = [('yes',), ('no',), ('maybe', 'no'), ('', 'YES', 'yes'), ('n', 'y', 'no')]


class Asked(Exception):
    pass


@contextlib.contextmanager
def user(answers, content=None):
    """Answers the questions; the network serves content; nothing outside of the scratch tree is removed."""
    left, asked = list(answers), []

    def answer(prompt=''):
        asked.append(prompt)
        if not left:
            raise Asked(prompt)
        return left.pop(0)

    def inside(f):
        def g(path, *a, **k):
            if not isinstance(path, int):
                where = os.path.realpath(path) if k.get('dir_fd') is None else os.path.realpath('/proc/self/fd/%d' % k['dir_fd'])
                if not where.startswith(os.path.realpath(os.environ['MC_TREE'])):
                    raise AssertionError('removes %s' % path)
            return f(path, *a, **k)
        return g
    real = builtins.input, shutil.rmtree, os.remove, os.unlink
    builtins.input, shutil.rmtree, os.remove, os.unlink = answer, inside(shutil.rmtree), inside(os.remove), inside(os.unlink)
    try:
        with warnings.catch_warnings(), c28.serving(content) as net:
            warnings.simplefilter('ignore')
            yield asked, left, net
    finally:
        builtins.input, shutil.rmtree, os.remove, os.unlink = real


# ---- datasets ---------------------------------------------------------------------------------------------------
class Kind:
    """What the exploration needs to know about a kind of dataset.

    places: what is loaded (class arguments); parts: what is asked of it; group(place): the places a clear of this
    place erases; asks(place): whether the user must confirm.
    """
    serves = False
    answers = ANSWERS

    def asks(self, place):
        return False

    def group(self, place):
        return [place]

    def content(self, k):
        return None


class User(Kind):
    """A dataset of the user, of several kinds of data, parsed from a file he may change."""
    name = 'user'
    places = ['v1', 'v1.0', None]
    parts = ['tpm', 'appliance', 'climate']

    def __init__(self):
        from demod.datasets.base_loader import (ApplianceLoader, ClimateLoader, HeatingLoader, LightingLoader,
                                                PopulationLoader)
        from demod.datasets.tou_loader import LoaderTOU

        class Mine(ApplianceLoader, LoaderTOU, PopulationLoader, ClimateLoader, LightingLoader, HeatingLoader):
            DATASET_NAME = 'McUser'

            def number(self):
                with open(os.path.join(self.raw_path, 'raw.txt')) as f:
                    return int(f.read())

            def _parse_tpm(self, subgroup):
                return np.ones((1, 1, 1)), np.array(['state']), np.array([float(self.number())]), {}

            def _parse_appliance_dict(self):
                return {'name': ['a', 'b'], 'type': ['kettle', 'oven'], 'number': self.number()}

            def _parse_clearness_tpms(self):
                return np.full((1, 1), 1.), np.array([float(self.number())]), dt.timedelta(minutes=self.number())
        self.where, self.cls = private(Mine)

    def raw(self, k):
        with open(os.path.join(self.where, 'raw_data', 'raw.txt'), 'w') as f:
            f.write(str(k))

    def make(self, place, clear):
        return self.cls(version=place, clear_parsed_data=clear)

    def see(self, o, part):
        if part == 'tpm':
            tpm, labels, initial = o.load_tpm({'n_residents': 1})
            assert tpm.shape == (1, 1, 1) and list(labels) == ['state'], (tpm, labels)
            return int(initial[0])
        if part == 'appliance':
            return int(o.load_appliance_dict()['number'])
        tpm, labels, step = o.load_clearness_tpms()
        assert step == dt.timedelta(minutes=int(labels[0])), (labels, step)
        return int(labels[0])

    def asks(self, place):
        return place is None

    def group(self, place):
        return [place] if place else self.places


class Crest(User):
    """The versions of CREST."""
    name = 'CREST'
    places = ['2.2', '2.3.3']
    parts = ['population', 'lighting']

    def __init__(self):
        from demod.datasets.CREST.loader import Crest

        class Mine(Crest):
            def number(self):
                with open(self.raw_file_path) as f:
                    return int(f.read())

            def _parse_population_subgroups(self, population_type):
                return [{'n_residents': self.number()}], [1.], self.number()

            def _parse_crest_lighting(self):
                return {'effective_occupancy': np.array([self.number()])}
        self.where, self.cls = private(Mine)

    def raw(self, k):
        for v in self.places:
            with open(os.path.join(self.where, 'raw_data', 'CREST_Demand_Model_v%s.xlsm' % v), 'w') as f:
                f.write(str(k))

    def make(self, place, clear):
        return self.cls(place, clear_parsed_data=clear)

    def see(self, o, part):
        if part == 'lighting':
            return int(o.load_crest_lighting()['effective_occupancy'][0])
        a, b, c = o.load_population_subgroups('x')
        assert a == [{'n_residents': c}] and list(b) == [1.], (a, b, c)
        return c

    asks = Kind.asks
    group = Kind.group


class Gtou(Kind):
    """The transition matrices of the survey, downloaded parsed."""
    name = 'GTOU'
    places = ['McActs', 'McActsFine']
    parts = [1, 2]
    serves = True

    def __init__(self):
        self.src = c28.Gtou()
        from demod.datasets.GermanTOU.loader import GTOU
        self.where, self.cls = private(GTOU)

    def raw(self, k):
        pass

    def content(self, k):
        return self.src.content(k)

    def make(self, place, clear):
        return self.cls(place, clear_parsed_data=clear)

    def see(self, o, part):
        got = [x.tolist() for x in o.load_tpm({'n_residents': part})]
        return next((k for k in range(1, 4) if [x.tolist() for x in self.src.tpm(k, part)] == got), got)


class Ninja(Kind):
    """The climate of countries."""
    name = 'Ninja'
    places = ['germany', 'FR']
    parts = ['climate']

    def __init__(self):
        from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
        self.where, self.cls = private(NinjaRenewablesClimate)

    def raw(self, k):
        for c in ('DE', 'FR'):
            with open(os.path.join(self.where, 'raw_data', c + '_population.csv'), 'wb') as f:
                f.write(c28.ninja_csv(k))

    def make(self, place, clear):
        return self.cls(place, clear_parsed_data=clear)

    def see(self, o, part):
        t = o.load_historical_climate_data(dt.datetime(2014, 1, 1))['outside_temperature'].tolist()
        assert t == [t[0] + i for i in range(5)], t
        return int(t[0])

    def asks(self, place):
        return True

    def group(self, place):
        return self.places


class Trace(Kind):
    """The profiles, at several step sizes."""
    name = 'Tracebase'
    places = [60, 120]
    parts = ['full']

    def __init__(self):
        from demod.datasets.tracebase.loader import Tracebase
        self.where, self.cls = private(Tracebase)

    def raw(self, k):
        base = os.path.join(self.where, 'raw_data')
        with open(os.path.join(base, 'raw_github.zip'), 'w') as f:
            f.write('extracted')
        d = os.path.join(base, 'tracebase-master', 'complete', 'Refrigerator')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'a.csv'), 'w') as f:
            f.write('\n'.join(f'01/01/2012 00:{m:02d}:00;{k};0' for m in range(7)) + '\n')

    def make(self, place, clear):
        return self.cls(step_size=dt.timedelta(seconds=place), clear_parsed_data=clear)

    def see(self, o, part):
        v = np.asarray(o.load_real_profiles_dict(part)['fridge']['a.csv'])
        n = round(360 / o.step_size.total_seconds())
        assert np.isclose(v, v[0]).all() and n <= len(v) <= n + 1, v
        return round(float(v[0]))


KINDS = [User, Crest, Gtou, Ninja, Trace]


# ---- exploration ------------------------------------------------------------------------------------------------
class Model:
    """parsed: {(place, part): the raw data they were parsed from}."""

    def __init__(self, kind, raw=1, parsed=(), fetched=()):
        self.kind, self.raw, self.parsed, self.fetched = kind, raw, dict(parsed), dict(fetched)

    def copy(self):
        return Model(self.kind, self.raw, self.parsed, self.fetched)

    def key(self):
        return self.raw, tuple(sorted(self.parsed.items(), key=str)), tuple(sorted(self.fetched.items(), key=str))

    def load(self, place, part):
        if self.kind.serves:
            # all that is parsed comes with the download
            return self.fetched.setdefault(place, self.raw)
        return self.parsed.setdefault((place, part), self.raw)

    def clear(self, place):
        gone = self.kind.group(place)
        self.parsed = {k: v for k, v in self.parsed.items() if k[0] not in gone}
        self.fetched = {k: v for k, v in self.fetched.items() if k not in gone}
        if self.kind.serves:
            self.fetched[place] = self.raw


def operations(kind):
    out = [('raw',)]
    for place in kind.places:
        out += [('load', place, part) for part in kind.parts]
        out += [('clear', place, a) for a in (kind.answers if kind.asks(place) else [()])]
    return out


def files(state, under):
    under = os.path.normpath(under)
    return {p: v for p, v in state.items() if v is not None and (p + os.sep).startswith(under + os.sep)}


def belongs(kind, path, place):
    """Whether a parsed file is one of this place."""
    inner = path.split(os.sep)[1:]
    if kind.name == 'user':
        return place is None or inner[0] == place
    if kind.name == 'CREST':
        return inner[0] == 'v_' + place
    if kind.name == 'GTOU':
        return inner[0] == place
    if kind.name == 'Ninja':
        return True
    return inner[0].endswith('_%d_seconds' % place)


def step(rec, kind, model, op, ctx):
    """Do the operation on the code and on the model, and compare."""
    before = fs.snapshot(kind.where)
    key = kind.name
    if op[0] == 'raw':
        model.raw = 3 - model.raw
        kind.raw(model.raw)
        return
    with user(op[2] if op[0] == 'clear' else (), kind.content(model.raw)) as (asked, left, net):
        if op[0] == 'load':
            o = kind.make(op[1], False)
            got = kind.see(o, op[2])
            want = model.load(op[1], op[2])
            rec.expect(got == want, 'data parsed are kept until they are cleared', lambda: {**ctx, 'got': got, 'expected': want}, key)
            rec.expect(not asked, 'asks before loading', lambda: {**ctx, 'asked': asked}, key)
            after = fs.snapshot(kind.where)
            changed = [p for p, v in before.items() if v is not None and after.get(p) != v]
            rec.expect(not changed, 'loading changes what is there', lambda: {**ctx, 'files': changed}, key)
            return
        kind.make(op[1], True)
        after = fs.snapshot(kind.where)
        rec.expect(not left and len(asked) == len(op[2]), 'asks until it is answered yes or no',
                   lambda: {**ctx, 'asked': len(asked), 'answers': op[2]}, key)
        if op[2] and op[2][-1] == 'no':
            rec.expect({p: v for p, v in before.items() if v is not None} == {p: v for p, v in after.items() if v is not None},
                       'answered no: nothing is erased', lambda: {**ctx, 'files': sorted(set(before) ^ set(after))}, key)
            if kind.serves:
                model.load(op[1], None)
            return
        model.clear(op[1])
        served = kind.serves
        old, new = files(before, 'parsed_data'), files(after, 'parsed_data')
        mine = lambda d: {p: v for p, v in d.items() if any(belongs(kind, p, q) for q in kind.group(op[1]))}  # noqa: E731
        rec.expect(served or not mine(new), 'cleared: nothing parsed is left', lambda: {**ctx, 'left': sorted(mine(new))}, key)
        rec.expect(not served or len(net) == 1, 'cleared: downloaded again', lambda: {**ctx, 'downloads': len(net)}, key)
        other = {p: v for p, v in old.items() if p not in mine(old)}
        rec.expect(other == {p: v for p, v in new.items() if p not in mine(new)}, 'other data are erased or changed',
                   lambda: {**ctx, 'files': sorted(p for p in {*other, *new} if other.get(p) != new.get(p))}, key)
        r0, r1 = ({p: v for p, v in files(s, 'raw_data').items() if not (served and p.endswith(op[1] + '.zip'))}
                  for s in (before, after))
        rec.expect(r0 == r1, 'raw data are erased or changed', lambda: {**ctx, 'files': sorted(set(r0) ^ set(r1))}, key)


def put(kind, state):
    shutil.rmtree(kind.where)
    os.mkdir(kind.where)
    fs.restore(kind.where, state)


def histories(cls, depth):
    def f(rec, _):
        kind = cls()
        try:
            kind.raw(1)
            start = fs.snapshot(kind.where)
            ops = operations(kind)
            seen = {Model(kind).key()}
            level = [(Model(kind), start, ())]
            for d in range(depth):
                nxt = []
                for model, state, path in level:
                    for op in ops:
                        put(kind, state)
                        m = model.copy()
                        ctx = {'dataset': kind.name, 'history': [*path, op]}
                        try:
                            step(rec, kind, m, op, ctx)
                        except (AssertionError, Asked, OSError) as e:
                            rec.fail('the operation fails', {**ctx, 'error': repr(e)[:300]}, kind.name + ' ' + op[0])
                            continue
                        rec.transition()
                        rec.trace()
                        if m.key() not in seen:
                            seen.add(m.key())
                            nxt.append((m, fs.snapshot(kind.where), (*path, op)))
                for model, _, _ in level:
                    rec.state((kind.name, model.key()))
                level = nxt
            rec.sample({'dataset': kind.name, 'states': len(seen), 'operations': [str(o) for o in ops]})
        finally:
            shutil.rmtree(kind.where)
    return f


OTHERS = []   # the files of the other datasets, listed before anything is loaded


def composite(rec, _):
    """Clearing a dataset made of others erases its own parsed data, and leaves the other datasets alone."""
    from demod.datasets.Germany.loader import GermanDataHerus
    for version in ('v0.1', 'vBottaccioli'):
        where, cls = private(GermanDataHerus, [(os.path.join(folder(), 'Germany', 'raw_data', 'data_%s.xlsx' % version), 'data_%s.xlsx' % version)])
        try:
            with user(()):
                cls(version=version).load_appliance_dict()
            stat = lambda: {p: (os.stat(p).st_mtime_ns, os.stat(p).st_size) if os.path.exists(p) else None for p in OTHERS}  # noqa: E731
            before, mine = stat(), fs.snapshot(where)
            rec.expect(any(p.startswith('parsed_data') and v is not None for p, v in mine.items()), 'parsed data are kept', {}, version)
            with user(()) as (asked, left, net):
                o = cls(version=version, clear_parsed_data=True)
                after = fs.snapshot(where)
                rec.transition()
                rec.expect(not asked and not net, 'asks or downloads', lambda: {'asked': asked, 'network': net}, version)
                rec.expect(not [p for p, v in files(after, 'parsed_data').items()], 'parsed data are left', lambda: {'files': sorted(after)}, version)
                rec.expect(files(mine, 'raw_data') == files(after, 'raw_data'), 'raw data are erased', lambda: {'files': sorted(after)}, version)
                rec.expect(stat() == before, 'erases the data of other datasets', lambda: {'files': sorted(p for p, v in stat().items() if v != before[p])[:10]}, version)
                o.load_appliance_dict()
                again = fs.snapshot(where)
                rec.expect({p: v for p, v in again.items() if v is not None} == {p: v for p, v in mine.items() if v is not None},
                           'parsed again, they are others', lambda: {'files': sorted({*again} ^ {*mine})}, version)
            rec.trace()
        finally:
            shutil.rmtree(where)


def build(ck):
    deep = ck.thorough
    OTHERS[:] = [os.path.join(b, f) for s in ('GermanTOU', 'DESTATIS', 'RenewablesNinja') for b, _, fs_ in os.walk(os.path.join(folder(), s)) for f in fs_]
    for cls in KINDS:
        depth = {User: 4, Crest: 5, Gtou: 5, Ninja: 5, Trace: 5}[cls] + (2 if deep else 0)
        ck.add('histories %s' % cls.name, histories(cls, depth), cls.name)
    ck.add('composite', composite, 'composite')
    ck.rule = ('breadth-first, every history of loading, changing the raw data and clearing (with every listed sequence of answers) up to the '
               'depth, for five kinds of dataset with two or three versions; the folder is compared with the model after every operation')
    ck.assumptions = ['one loader at a time is used: no loader made before a clear is used after it']
