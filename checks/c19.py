"""C19: parsed data kept on disk: transparent, separate, and safe against crashes and concurrent loads."""
import datetime as dt
import io
import itertools
import json
import os
import shutil
import warnings

import numpy as np

from mc import fs

LEVEL = 'model_checking'

SGS = [{'n_residents': 1}, {'weekday': [6, 7], 'n_residents': 1}, {'n_residents': 1, 'weekday': [1, 2, 3, 4, 5]},
       {'n_residents': 12, 'quarter': 2, 'weekday': 3}, {}]
NAMES = itertools.count()


def code(*key):
    """A number depending on everything in key."""
    return sum((i + 3) * ord(c) for i, c in enumerate(json.dumps(key, sort_keys=True, default=str))) % 997


def no_time(sg):
    return {k: v for k, v in sg.items() if k not in ('weekday', 'quarter')}


# What there is in the raw data, for each kind of data
def r_tpm(key, c):
    return (np.full((2, 2, 2), .5) + np.array([[c / 4000, -c / 4000]]), np.array(['home', 'out%d' % c]), np.array([.25, .75]))


def r_dur(key, c):
    return (np.arange(8).reshape(2, 2, 2) + c, np.arange(6).reshape(2, 3) * .5 + c, np.array(['a', 'b%d' % c]),
            np.array([.5, .5]), np.eye(2) * c)


def r_sparse(key, c):
    from demod.utils.sparse import SparseTPM
    L = 3 + c % 3
    return (SparseTPM(np.array([0, 0, 2]), np.array([0, 1, 0]), np.array([1, 0, 1]), np.array([.5, .5, 1.]), n_states=L,
                      n_times=4 + c % 2, dead_state_value=1), np.arange(L) + c, np.array(['active', 'HWH', 'HOH']), np.ones(L) / L)


def r_arrays(key, c):
    return {'act': np.array([.25, .5]) + c, 'active_occupancy': np.arange(3 + c % 4) * c}


def r_floats(key, c):
    return {'oven': c + .5, 'tv': c / 8}


def r_app(key, c):
    return {'type': np.array(['tv', 'oven']), 'name': ['TV', 'Oven %d' % c], 'number': 2, 'mean': np.array([1.5, c]),
            'on': np.array([True, False])}


def r_profiles(key, c):
    return {'fridge': {'A class': np.arange(4) + c, 'B.2': np.arange(2) * 1.5}, 'tv_lcd': {'x': np.array([c])}}


def r_pop(key, c):
    return [{'n_residents': 1, 'age': c}, {'n_residents': 2}], [.25, .75], 1000 + c


def r_clear(key, c):
    return np.full((3, 3), 1 / 3) + c, np.array([0., .5, 1.]) * c, dt.timedelta(minutes=c, seconds=1, days=2)


def r_hist(key, c):
    t = np.datetime64('2014-01-01T00:00') + np.arange(6) * np.timedelta64(60, 'm')
    return {'datetime': t, 'outside_temperature': np.arange(6) * .5 + c, 'irradiance': np.arange(6) + c}


def r_bulbs(key, c):
    return np.array([10., 20. + c]), np.array([.25, .75])


def r_config(key, c):
    return np.arange(6).reshape(2, 3) + c


def r_stats(key, c):
    return c + .25, c + .5


def r_heat(key, c):
    return {'number': 2, 'cdf': np.array([.5, 1.]), 'names': np.array(['house', 'flat']), 'sub': {'x': [1.5, c], 'y': c}}


def r_json(key, c):
    return {'country': 'x%d' % c, 'latitude': c + .5, 'use_daylight_saving_time': True}


START = dt.datetime(2014, 1, 1, 2, 30)
# kind: (arguments, raw data, method that parses, method that loads, what the data depend on, what loading returns)
sgs, some = 'sgs', lambda *a: list(a)   # noqa: E731
KINDS = {
    'tpm': (sgs, r_tpm, '_parse_tpm', 'load_tpm', None),
    'duration': (sgs, r_dur, '_parse_tpm_with_duration', 'load_tpm_with_duration', None),
    'sparse': (sgs, r_sparse, '_parse_sparse_tpm', 'load_sparse_tpm', None),
    'activity profiles': (sgs, r_arrays, '_parse_activity_profiles', 'load_activity_probability_profiles', None),
    'daily starts': (sgs, r_arrays, '_parse_daily_activity_starts', 'load_daily_activity_starts', None),
    'activity duration': (sgs, r_arrays, '_parse_activity_duration', 'load_activity_duration', None),
    'activity probabilities': (sgs, r_arrays, '_parse_activity_probabilities', 'load_activity_probabilities', None),
    'appliances': ([()], r_app, '_parse_appliance_dict', 'load_appliance_dict', None),
    'real profiles': ([('full',), ('switchedON',), ()], r_profiles, '_parse_real_profiles_dict', 'load_real_profiles_dict', None),
    'ownership': (sgs, r_floats, '_parse_appliance_ownership_dict', 'load_appliance_ownership_dict', no_time),
    'switch-ons': (sgs, r_floats, '_parse_yearly_target_switchons', 'load_yearly_target_switchons', no_time),
    'consumption': (sgs, r_floats, '_parse_yearly_target_consumption', 'load_yearly_target_consumption', no_time),
    'duration target': (sgs, r_floats, '_parse_yearly_target_duration', 'load_yearly_target_duration', no_time),
    'population': ([('types',), ('types_2',), ('t',)], r_pop, '_parse_population_subgroups', 'load_population_subgroups', None),
    'clearness': ([()], r_clear, '_parse_clearness_tpms', 'load_clearness_tpms', None),
    'arma': ([()], r_json, '_parse_temperatures_arma', 'load_temperatures_arma', None),
    'geography': ([()], r_json, '_parse_geographic_data', 'load_geographic_data', None),
    'historical': ([(START,), (START - dt.timedelta(hours=4),), (START + dt.timedelta(minutes=30),)], r_hist,
                   '_parse_historical_climate_data', 'load_historical_climate_data', None),
    'fisher': ([()], r_json, '_parse_fisher_lighting', 'load_fisher_lighting', None),
    'crest light': ([()], r_heat, '_parse_crest_lighting', 'load_crest_lighting', None),
    'bulbs': ([()], r_bulbs, '_parse_bulbs', 'load_bulbs', None),
    'bulbs config': (sgs, r_config, '_parse_bulbs_config', 'load_bulbs_config', None),
    'bulbs stats': (sgs, r_stats, '_parse_installed_bulbs_stats', 'load_installed_bulbs_stats', None),
    'buildings': (sgs, r_heat, '_parse_buildings_dict', 'load_buildings_dict', None),
    'heating systems': (sgs, r_heat, '_parse_heating_system_dict', 'load_heating_system_dict', None),
    'thermostats': (sgs, r_heat, '_parse_thermostat_dict', 'load_thermostat_dict', None),
}
LEGEND = {'tpm', 'duration', 'sparse'}


def args_of(kind):
    a = KINDS[kind][0]
    if a is sgs:
        # any order of the keys is the same subgroup
        return [(dict(sg),) for sg in SGS]
    return a


def raw(kind, args, version, activity):
    """(value the raw data hold, identity of the data)"""
    _, fn, _, _, reduce = KINDS[kind]
    key = args[0] if args else {}
    if kind in ('historical', 'real profiles'):
        key = {} if kind == 'historical' else (args[0] if args else 'full')
    if reduce:
        key = reduce(key)
    act = activity if kind in ('tpm', 'duration', 'sparse') or kind.startswith(('activity', 'daily')) else ''
    ident = (kind, json.dumps(key, sort_keys=True), version, act)
    return fn(key, code(*ident)), ident


def norm(v):
    from demod.utils.sparse import SparseTPM
    if isinstance(v, SparseTPM):
        return [norm(x) for x in (v.times, v.inds_from, v.inds_to, v.values, v.n_states, v.n_times, v.dead_state_value)]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray):
        return norm(v.tolist())
    if isinstance(v, np.generic):
        return norm(v.item())
    if isinstance(v, (bool, int, float)):
        return float(v)
    return v


def expected(kind, args, version='v1', activity='Acts'):
    v = raw(kind, args, version, activity)[0]
    if kind == 'historical':
        t, keep = args[0], []
        for i, x in enumerate(v['datetime'].tolist()):
            if x > t - dt.timedelta(hours=1):
                keep.append(i)
        v = {k: a[keep] for k, a in v.items()}
    return norm(v)


def loader_class(name, log, blank=False):
    from demod.datasets import base_loader as B
    from demod.datasets.tou_loader import LoaderTOU

    class Stub(B.ApplianceLoader, LoaderTOU, B.ClimateLoader, B.LightingLoader, B.PopulationLoader, B.HeatingLoader):
        DATASET_NAME = name
        step_size = dt.timedelta(hours=1)
        mc_version = None

        def __init__(self, activity='Acts', version='v1', **kw):
            self.mc = (version, activity)
            super().__init__(activity, version=version, **kw)

    def parser(kind):
        def parse(self, *args):
            if blank:
                raise FileNotFoundError('there is no raw data')
            v, ident = raw(kind, args, *self.mc)
            log.append(ident)
            if kind in LEGEND:
                v = (*v, {'about': 'legend', 'x': np.arange(2)})
            return v
        return parse
    for kind, k in KINDS.items():
        setattr(Stub, k[2], parser(kind))
    return Stub


class Place:
    """A folder of a dataset of its own."""

    def __init__(self, state=None):
        from demod.datasets import base_loader as B
        self.name = 'Mc%d_%d' % (os.getpid(), next(NAMES))
        self.root = os.path.join(os.path.dirname(B.__file__), self.name)
        assert os.environ['MC_TREE'] in self.root
        os.mkdir(self.root)
        if state:
            fs.restore(self.root, state)
        self.log = []
        self.cls = loader_class(self.name, self.log)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root)


def load(loader, kind, args):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return getattr(loader, KINDS[kind][3])(*args)


def sequences(kinds, n_args, depth):
    """All sequences of loads, restarts, changes to results and clearings."""
    def f(rec, scen):
        ops = [('load', k, a) for k in kinds for a in args_of(k)[:n_args]] + ['restart', 'spoil', 'other version', 'clear']
        for seq in itertools.product(ops, repeat=depth):
            if not isinstance(seq[-1], tuple):
                continue
            with Place() as p:
                loader, last, seen, version = p.cls(), None, {}, 'v1'
                for op in seq:
                    rec.transition()
                    if op == 'restart':
                        p.cls = loader_class(p.name, p.log)
                        loader = p.cls(version=version)
                    elif op == 'clear':
                        loader = p.cls(version=version, clear_parsed_data=True)
                        seen = {k: v for k, v in seen.items() if k[2] != version}
                    elif op == 'other version':
                        version = 'v2' if version == 'v1' else 'v1'
                        loader = p.cls(version=version)
                    elif op == 'spoil':
                        spoil(last)
                    else:
                        _, kind, args = op
                        given = tuple(dict(a) if isinstance(a, dict) else a for a in args)
                        n = len(p.log)
                        last = load(loader, kind, given)
                        rec.expect(norm(last) == expected(kind, args, version), f'{kind}: loaded data are those of the raw data',
                                   lambda: {'sequence': seq, 'got': norm(last), 'raw': expected(kind, args, version)},
                                   f'{kind} data')
                        rec.expect(given == args, f'{kind}: the arguments of a load are modified', lambda: {'sequence': seq,
                                   'got': given}, f'{kind} arguments')
                        ident = raw(kind, args, version, 'Acts')[1]
                        if ident in seen:
                            rec.expect(len(p.log) == n, f'{kind}: data already parsed are parsed again',
                                       lambda: {'sequence': seq}, f'{kind} parsed again')
                        seen[ident] = 1
                rec.state((seq,))
            rec.trace()
        rec.sample({'kinds': kinds, 'last sequence': str(seq)})
    return f


def spoil(v):
    """Change a result in place, as its user may."""
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoilt'] = 1
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append('spoilt')
    elif isinstance(v, np.ndarray) and v.size and v.dtype.kind in 'fi' and v.flags.writeable:
        v += 1000


def isolation(rec, scen):
    """Everything loaded in one folder, in two orders, then loaded again without raw data."""
    for order in (1, -1):
        for kinds in (sorted(set(KINDS) - {'tpm'}), sorted(set(KINDS) - {'sparse'})):
            with Place() as p:
                todo = [(k, a, v, t) for k in kinds for a in args_of(k) for v in ('v1', 'v2') for t in ('Acts', 'Acts2')][::order]
                for blank in (False, True):
                    for kind, args, version, act in todo:
                        if blank:
                            p.cls = loader_class(p.name, p.log, blank=True)
                        v = load(p.cls(act, version), kind, args)
                        rec.transition()
                        rec.expect(norm(v) == expected(kind, args, version, act), f'{kind}: data of another load',
                                   lambda: {'args': args, 'version': version, 'type': act, 'again': blank, 'got': norm(v)},
                                   f'{kind} isolation')
                rec.trace()
    # the order in which the keys of a subgroup are given
    for kind in KINDS:
        if KINDS[kind][0] is sgs:
            sg = SGS[3]
            with Place() as p:
                for i, perm in enumerate(itertools.permutations(sg)):
                    n = len(p.log)
                    v = load(p.cls(), kind, ({k: sg[k] for k in perm},))
                    rec.expect(norm(v) == expected(kind, (sg,)) and (i == 0) == (len(p.log) > n),
                               f'{kind}: order of the keys of the subgroup', lambda: {'order': perm, 'got': norm(v)}, f'{kind} order')
                    rec.trace()


def cuts(fine):
    def f(n):
        if fine:
            return range(1, n + 1)
        return {1, 8, n // 4, n // 2, n - 22, n - 1, n, *range(64, n, 192)}
    return f


def crashes(kind, fine):
    """Every state of the folder a crash may leave, after each of which data are loaded again."""
    def f(rec, scen):
        for first in (None, 1):
            args, other = args_of(kind)[0], args_of(kind)[-1]
            states, ops = {}, []
            with Place() as p:
                if first is not None:   # other data are there already
                    load(p.cls(), kind, other)

                def hook(op):
                    ops.append(repr(op))
                    s = fs.snapshot(p.root)
                    for t in (s, *fs.torn(p.root, s, op, cuts(fine))):
                        states.setdefault(repr(sorted(t.items())), (t, len(ops)))
                with fs.watching(p.root, hook):
                    load(p.cls(), kind, args)
                s = fs.snapshot(p.root)
                states.setdefault(repr(sorted(s.items())), (s, len(ops)))
            for t, n in states.values():
                after(rec, t, kind, [args, other, args], {'crash at operation': n, 'of': ops[max(0, n - 2):n + 1]})
                rec.state((kind, first, n, len(repr(t))))
        rec.sample({'kind': kind, 'operations': ops, 'crash states': len(states)})
    return f


def after(rec, state, kind, todo, detail):
    with Place(state) as p:
        for args in todo:
            rec.transition()
            try:
                v = norm(load(p.cls(), kind, args))
            except Exception as e:
                rec.fail(f'{kind}: an interrupted load makes a later one fail', {**detail, 'error': repr(e)[:300]}, f'{kind} crash')
                return
            rec.expect(v == expected(kind, args), f'{kind}: an interrupted load changes what a later one gives',
                       lambda: {**detail, 'got': v}, f'{kind} crash')
        n = len(p.log)
        load(p.cls(), kind, todo[0])
        rec.expect(len(p.log) == n, f'{kind}: data parsed after an interruption are parsed again', detail, f'{kind} crash again')
    rec.trace()


class Stop(BaseException):
    pass


def errors(kind):
    """A load fails at any of its file operations: disk full, interruption by the user."""
    def f(rec, scen):
        args, other = args_of(kind)[0], args_of(kind)[-1]
        with Place() as p:
            load(p.cls(), kind, args)
            complete = set(fs.snapshot(p.root))
        for exc in (OSError(28, 'No space left on device'), KeyboardInterrupt(), Stop()):
            for part in (0, 1, 2):  # nothing, half or all of the data is written
                for n in itertools.count():
                    hit = [0, None]
                    with Place() as p:
                        def hook(op):
                            hit[0] += 1
                            if hit[0] == n + 1 and op.kind != 'read':
                                hit[1] = op.kind
                                if op.kind == 'write' and part:
                                    with open(op.path, 'r+b') as h:
                                        h.seek(op.pos)
                                        h.write(op.data[:len(op.data) * part // 2])
                                raise exc
                        try:
                            with fs.watching(p.root, hook):
                                v = load(p.cls(), kind, args)
                            rec.expect(norm(v) == expected(kind, args), f'{kind}: value of a load with a failure', lambda: norm(v),
                                       f'{kind} error value')
                        except (OSError, KeyboardInterrupt, Stop):
                            pass
                        s = fs.snapshot(p.root)
                    if hit[0] < n + 1:
                        break
                    if hit[1]:
                        rec.expect(hit[1] in ('remove', 'rmdir') or set(s) <= complete, f'{kind}: a load that fails leaves files behind',
                                   lambda: {'failure': repr(exc), 'at operation': n, 'files': sorted(set(s) - complete)}, f'{kind} leftovers')
                        after(rec, s, kind, [args, other], {'failure': repr(exc), 'at operation': n, 'part': part})
                        rec.state((kind, repr(exc), n, part))
    return f


def two(kind, bound):
    """Two loads at the same time, from nothing."""
    def f(rec, scen):
        a0, a1 = args_of(kind)[0], args_of(kind)[-1]
        for pair in ((a0, a0), (a0, a1)):
            with Place() as p:
                count = [0]

                def hook(op):
                    count[0] += 1
                with fs.watching(p.root, hook):
                    load(p.cls(), kind, pair[0])
            n = count[0] + 4
            done = set()
            for sched in fs.schedules(n, n, bound):
                with Place() as p:
                    pr = fs.Pair(p.root, [lambda a=a: load(p.cls(), kind, a) for a in pair], sched)
                    out, err = pr.run()
                    rec.transition(sum(pr.ops))
                    for a, v, e in zip(pair, out, err):
                        rec.expect(e is None and norm(v) == expected(kind, a), f'{kind}: loads at the same time',
                                   lambda: {'schedule': sched, 'args': a, 'error': repr(e), 'got': norm(v)}, f'{kind} concurrent')
                    for a in pair:
                        v = load(p.cls(), kind, a)
                        rec.expect(norm(v) == expected(kind, a), f'{kind}: load after concurrent ones',
                                   lambda: {'schedule': sched, 'args': a, 'got': norm(v)}, f'{kind} after concurrent')
                done.add(tuple(sched))
                rec.trace()
                rec.state((kind, pair is a0, tuple(sched)))
    return f


def build(ck):
    fs.install()
    ck.rule = ('every sequence of loads, restarts, clearings and versions; every state that a crash (torn writes included), an '
               'error or a concurrent load leaves in the folder of parsed data')
    ck.assumptions = ['raw data are stub parsers; parsing is deterministic', 'operations reach the disk in order',
                      'an activity type is parsed either sparse or not', 'interruptions of the clearing itself are left out']
    th = ck.thorough
    for kind in KINDS:
        n_args = 3 if KINDS[kind][0] is sgs or len(args_of(kind)) > 2 else len(args_of(kind))
        ck.add(f'sequences: {kind}', sequences([kind], n_args, 4 if th else 3), {'depth': 4 if th else 3})
        ck.add(f'crashes: {kind}', crashes(kind, th), {'every byte': th})
        ck.add(f'errors: {kind}', errors(kind))
        ck.add(f'two loads: {kind}', two(kind, 2 if th else 1), {'preemptions': 2 if th else 1})
    for a, b in itertools.combinations(KINDS, 2):
        if {a, b} == {'tpm', 'sparse'}:
            continue
        ck.add(f'sequences: {a} and {b}', sequences([a, b], 1, 3 if th else 2), {'depth': 3 if th else 2})
    ck.add('isolation of kinds, subgroups, versions and activity types', isolation)
