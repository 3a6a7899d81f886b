"""C38: a dataset made of others answers as they do, whatever was asked before; the models shipped are models."""
import copy
import datetime as dt
import hashlib
import itertools
import os
import shutil

import numpy as np

from checks.c33 import csv, dataset as tracebase
from checks.c35 import eq, folder, private, quiet
from mc.choice import Fixed, active
from mc.util import interleave

LEVEL = 'model_checking'
TYPES = [(1, 1), (2, 2), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (4, 5)]
HOUSES = [{}] + [{'household_type': t, 'n_residents': n} for t, n in TYPES] + [{'n_residents': n} for n in range(1, 7)]
DAYS = [{}, {'weekday': [1, 2, 3, 4, 5]}, {'weekday': [6, 7]}, {'weekday': [6]}, {'weekday': 7}]
SEASONS = [{}, {'quarter': None}, {'quarter': 2}]
SGS = [{**h, **d, **q} for h in HOUSES for d in DAYS for q in SEASONS]
STARTS = [dt.datetime(2014, 1, 1), dt.datetime(2014, 1, 3, 5, 40), dt.datetime(2014, 2, 1, 12, tzinfo=dt.timezone.utc), dt.datetime(2030, 1, 1)]
TOU = ['load_tpm', 'load_tpm_with_duration', 'load_sparse_tpm', 'load_activity_probabilities', 'load_daily_activity_starts',
       'load_activity_probability_profiles']
OWN = ['load_appliance_dict', 'load_crest_lighting', 'load_bulbs', 'load_installed_bulbs_stats', 'load_fisher_lighting',
       'load_buildings_dict', 'load_heating_system_dict', 'load_thermostat_dict']
ACTIVITY = {'v0.1': 'Sparse9States', 'vBottaccioli': 'Bottaccioli2018'}


# ---- values -----------------------------------------------------------------------------------------------------
def parts(v):
    """The fields of an object of demod, or None."""
    return vars(v) if hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v) else None


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if {type(a), type(b)} == {np.ndarray, list}:   # parsed just now, or read from a text file
        return len(a) == len(b) and np.allclose(a, b, rtol=1e-12, atol=0)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if parts(a) is not None:
        return type(a) is type(b) and same(parts(a), parts(b))
    return type(a) is type(b) and (a == b or a != a)


def spoil(v):
    """Change everything in v, as its owner may."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = v.ravel()[::-1].reshape(v.shape) if v.dtype.kind not in 'iuf' else v.ravel()[::-1].reshape(v.shape) + 1
    elif isinstance(v, dict):
        for k in list(v):
            spoil(v[k])
        for k in list(v)[:1]:
            del v[k]
        v['spoilt'] = 1
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append('spoilt')
            v.reverse()
    elif parts(v) is not None:
        spoil(parts(v))


def ask(data, method, args):
    """(value, None) or (None, type of the error)."""
    with quiet():
        try:
            return getattr(data, method)(*copy.deepcopy(args)), None
        except AttributeError:
            raise
        except Exception as e:
            return None, type(e).__name__


def agree(rec, got, want, what, ctx, key):
    rec.expect(got[1] == want[1] and same(got[0], want[0]), what,
               lambda: {**ctx, 'got': got[1] or str(got[0])[:400], 'want': want[1] or str(want[0])[:400]}, key)
    rec.transition()


SHIPPED = []   # the data files that come with demod, listed before anything is loaded


def list_shipped():
    SHIPPED[:] = [os.path.join(root, f) for root, _, files in os.walk(folder()) if 'parsed_data' in root or 'raw_data' in root for f in files]


def shipped_files():
    out = {}
    for p in SHIPPED:
        try:
            with open(p, 'rb') as fd:
                out[p] = hashlib.sha1(fd.read()).hexdigest()
        except FileNotFoundError:
            out[p] = None
    return out


# ---- every question, to the whole and to its sources ------------------------------------------------------------
def sources(rec, scen):
    from demod.datasets.DESTATIS.loader import Destatis
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.datasets.GermanTOU.loader import GTOU
    from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
    version, part, n = scen
    data = GermanDataHerus(version)
    tou, population, climate = GTOU(ACTIVITY[version]), Destatis(), NinjaRenewablesClimate('germany')
    rec.expect(data.refresh_time == tou.refresh_time and data.step_size == dt.timedelta(minutes=1),
               'refresh time or step size of the dataset are wrong', [str(data.refresh_time), str(data.step_size)], 'times')
    asks = [(tou, m, (sg,)) for m in TOU for sg in SGS]
    asks += [(population, 'load_appliance_ownership_dict', (sg,)) for sg in SGS]
    asks += [(population, 'load_population_subgroups', (k,)) for k in (
        'household_types_2019', 'household_types', 'resident_number_2013', 'resident_number_2019', 'resident_number', 'crest', 'unknown')]
    asks += [(climate, 'load_historical_climate_data', (s,)) for s in STARTS]
    for k, (src, method, args) in enumerate(asks):
        if k % n != part:
            continue
        got = ask(data, method, args)
        agree(rec, got, ask(src, method, args), 'the dataset does not answer as the source of its data',
              {'version': version, 'method': method, 'arguments': args, 'source': type(src).__name__}, method)
        rec.state((method, args))
        rec.case('found' if got[1] is None else got[1])
        rec.trace()
    if part == 0:
        agree(rec, ask(data, 'load_population_subgroups', ()), ask(population, 'load_population_subgroups', ('household_types_2019',)),
              'the population is not the one of 2019 unless asked otherwise', {'version': version}, 'default population')
        rec.sample({'version': version, 'questions': len(asks)})


def profiles(rec, _):
    """The loads measured by Tracebase, from a synthetic set of files."""
    import demod.datasets.Germany.loader as L
    files = {'Washingmachine': {'a.csv': [(0, 10), (130, 50), (300, 7)], 'Microwave_2011.12.30.csv': [(0, 2), (60, 80), (200, 80)]},
             'MicrowaveOven': {'Microwave_2011.12.30.csv': [(0, 3), (60, 900), (200, 800), (400, 1)]}}
    name, cls = tracebase(files, csv)
    old = L.Tracebase
    L.Tracebase = cls
    try:
        for version in ACTIVITY:
            for seq in itertools.permutations([('full',), ('switchedON',), ('full',), ('unknown',)]):
                data = L.GermanDataHerus(version)
                for k, args in enumerate(seq):
                    got, want = ask(data, 'load_real_profiles_dict', args), ask(cls(), 'load_real_profiles_dict', args)
                    ctx = {'version': version, 'history': seq[:k + 1]}
                    agree(rec, got, want, 'the measured loads are not those of Tracebase', ctx, 'profiles')
                    rec.expect(args == ('unknown',) or want[1] is None and len(want[0]), 'no measured loads', [ctx, want[1]], 'profiles missing')
                    spoil(got[0])
                rec.state((version, seq))
                rec.trace()
    finally:
        L.Tracebase = old
        shutil.rmtree(os.path.join(folder(), name))


# ---- histories: load, change what was loaded, load again --------------------------------------------------------
def world():
    from demod.datasets.CREST.loader import Crest
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.datasets.GermanTOU.loader import GTOU
    return {'v0.1': GermanDataHerus('v0.1'), 'vBottaccioli': GermanDataHerus('vBottaccioli'), 'crest': Crest(), '4': GTOU('4_States'),
            'demod': GTOU('DemodActivities_0')}


def operations():
    one, two, week = {'household_type': 1, 'n_residents': 1}, {'n_residents': 2}, {'n_residents': 2, 'weekday': [1, 2, 3, 4, 5]}
    ops = [('v0.1', 'load_sparse_tpm', ({},)), ('v0.1', 'load_sparse_tpm', (one,)),
           ('v0.1', 'load_activity_probability_profiles', ({**one, 'weekday': [6, 7]},)),
           ('vBottaccioli', 'load_tpm_with_duration', ({},)), ('vBottaccioli', 'load_activity_probabilities', ({},)),
           ('vBottaccioli', 'load_daily_activity_starts', ({},)), ('vBottaccioli', 'load_sparse_tpm', ({},)),
           ('v0.1', 'load_tpm_with_duration', ({},)),
           ('v0.1', 'load_population_subgroups', ()), ('vBottaccioli', 'load_population_subgroups', ('resident_number',)),
           ('v0.1', 'load_appliance_ownership_dict', (two,)), ('v0.1', 'load_appliance_ownership_dict', (week,)),
           ('v0.1', 'load_historical_climate_data', (STARTS[0],)), ('vBottaccioli', 'load_historical_climate_data', (STARTS[1],)),
           ('vBottaccioli', 'load_yearly_target_switchons', (one,)),
           ('crest', 'load_tpm', (week,)), ('crest', 'load_activity_probability_profiles', (week,)), ('crest', 'load_clearness_tpms', ()),
           ('crest', 'load_bulbs_config', ()), ('crest', 'load_population_subgroups', ('resident_number',)),
           ('crest', 'load_appliance_dict', ()), ('crest', 'load_heating_system_dict', ()), ('crest', 'load_temperatures_arma', ()),
           ('4', 'load_tpm', (week,)), ('demod', 'load_tpm', ({'n_residents': 1},))]
    return ops + [(v, m, ()) for v in ACTIVITY for m in OWN]


def histories(rec, scen):
    first, depth = scen
    before = shipped_files()
    ops = operations()
    want = {}
    for k, (who, method, args) in enumerate(ops):
        want[k] = copy.deepcopy(ask(world()[who], method, args))
    for f in first:
        for seq in itertools.product(range(len(ops)), repeat=depth - 1):
            seq = (f,) + seq + (f,)
            data = world()
            for step, k in enumerate(seq):
                who, method, args = ops[k]
                mine = copy.deepcopy(args)
                with quiet():
                    try:
                        got = getattr(data[who], method)(*mine), None
                    except Exception as e:
                        got = None, type(e).__name__
                if not (got[1] == want[k][1] and same(got[0], want[k][0]) and mine == args):
                    rec.fail('an answer depends on what was asked before, or on what was done with the answers',
                             {'history': [ops[i] for i in seq[:step + 1]], 'got': got[1] or str(got[0])[:300],
                              'want': want[k][1] or str(want[k][0])[:300], 'arguments after': mine}, 'history ' + method)
                spoil(got[0])
                rec.transition()
            rec.trace()
            rec.state(seq)
    after = shipped_files()
    rec.expect(before == after and None not in after.values(), 'loading changed data that come with demod',
               lambda: [os.path.relpath(p, folder()) for p, h in after.items() if h is None or before[p] != h][:10], 'shipped files')


# ---- the data of its own ----------------------------------------------------------------------------------------
def own(rec, _):
    """The parsed data that come with demod are the raw ones that come with it."""
    from demod.datasets.Germany.loader import GermanDataHerus
    known = {'fisher': {'irradiation_threshold_min': 30, 'irradiation_threshold_max': 60, 'individual_light_use': 12}}
    for version in ACTIVITY:
        where, cls = private(GermanDataHerus, [(os.path.join(folder(), 'Germany', 'raw_data', 'data_%s.xlsx' % version), 'data_%s.xlsx' % version)])
        calls = [(m, ()) for m in OWN] + [('load_yearly_target_switchons', (sg,)) for sg in HOUSES]
        for method, args in calls:
            old = ask(GermanDataHerus(version), method, args)
            new = [ask(cls(version), method, args) for _ in range(2)]   # parsed, then read again
            ctx = {'version': version, 'method': method, 'arguments': args}
            rec.expect(new[0][1] == new[1][1] and (new[0][1] or eqs(*[x[0] for x in new])), 'parsed again, the data are others',
                       lambda: {**ctx, 'got': str(new)[:400]}, 'parsed again ' + method)
            absent = version == 'vBottaccioli' and method == 'load_fisher_lighting'
            rec.expect((old[1], new[0][1]) == (('NotImplementedError',) * 2 if absent else (None, None)),
                       'data the dataset does not have are not refused as such' if absent else 'data cannot be loaded',
                       {**ctx, 'errors': [old[1], new[0][1]]}, 'error ' + method)
            if old[1] is None and new[0][1] is None:
                a, b = old[0], new[0][0]
                if isinstance(a, dict):   # columns added later to the raw data are not in the old parsed data
                    b = {k: b.get(k) for k in a}
                differ = sorted(k for k in a if not eq(a[k], b[k])) if isinstance(a, dict) else []
                rec.expect(eqs(a, b), 'the parsed data are not those of the raw data', lambda: {**ctx, 'differ': differ or [str(a), str(b)]},
                           'own %s %s: %s' % (version, method, ', '.join(differ)))
                if method == 'load_fisher_lighting':
                    rec.expect(eqs(b, known['fisher']), 'the parameters of the lighting are not those of Fisher', {**ctx, 'got': b}, 'fisher')
            rec.state((version, method, args))
            rec.transition(3)
        rec.trace()
        shutil.rmtree(where)


def eqs(a, b):
    return eq(a, b) if isinstance(a, dict) else len(np.atleast_1d(a)) == len(np.atleast_1d(b)) and all(eq(x, y) for x, y in zip(a, b))


def absent(rec, _):
    """What a dataset does not have is refused as such, naming the dataset."""
    from demod.datasets import base_loader as B
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.datasets.tou_loader import LoaderTOU
    for cls in (B.PopulationLoader, B.ApplianceLoader, B.ClimateLoader, B.LightingLoader, B.HeatingLoader, LoaderTOU):
        name = 'absent_%d_%s' % (os.getpid(), cls.__name__)
        os.makedirs(os.path.join(folder(), name))
        mine = type('Mine' + cls.__name__, (cls,), {'DATASET_NAME': name})
        args = {'load_population_subgroups': ('x',), 'load_real_profiles_dict': ('full',), 'load_historical_climate_data': (STARTS[0],)}
        with quiet():
            data = mine()
        for m in sorted(x for x in dir(cls) if x.startswith('load_')):
            for a in [args[m]] if m in args else [({},), ({'n_residents': 3, 'weekday': [6, 7]},), ()]:
                if not fits(getattr(cls, m), a):
                    continue
                with quiet():
                    try:
                        getattr(data, m)(*a)
                        rec.fail('data the dataset does not have were made up', [cls.__name__, m, a], 'absent ' + m)
                    except NotImplementedError as e:
                        rec.expect(cls is LoaderTOU or mine.__name__ in str(e), 'the error does not name the dataset', [m, str(e)], 'absent name ' + m)
                    except Exception as e:
                        rec.fail('data the dataset does not have are not refused as such', [cls.__name__, m, a, repr(e)[:200]], 'absent ' + m)
                rec.state((cls.__name__, m, a))
                rec.transition()
        left = [f for _, _, fs in os.walk(os.path.join(folder(), name)) for f in fs]
        rec.expect(not left, 'data that are not there were saved', left[:5], 'absent saved')
        shutil.rmtree(os.path.join(folder(), name))
        rec.trace()
    for version in ('', 'v0.2', 'V0.1', None, 'vbottaccioli'):
        with quiet():
            try:
                GermanDataHerus(version)
                rec.fail('an unknown version was accepted', version, 'version')
            except ValueError:
                pass
        rec.transition()


def fits(f, args):
    import inspect
    try:
        inspect.signature(f).bind(None, *args)
        return True
    except TypeError:
        return False


# ---- the models -------------------------------------------------------------------------------------------------
def support(rows):
    return [np.flatnonzero(r > 0) for r in rows]


def reach(rec, edges, start, T, ctx):
    """All (time, state) of the chain, day after day; edges(t, s) -> (successors, total)."""
    seen, todo = set(), [(0, int(s)) for s in start]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        nxt, total, low = edges(*v)
        rec.expect(abs(total - 1) < 1e-6 and low >= 0 and len(nxt), 'what follows a state that can be reached is not a probability',
                   lambda: {**ctx, 'time': v[0], 'state': v[1], 'total': total}, 'model')
        rec.transition(len(nxt))
        todo += [((v[0] + 1) % T, int(s)) for s in nxt]
    return seen


def models():
    """(kind, dataset, subgroup) of all the models that come with demod."""
    from demod.datasets.CREST.loader import Crest
    from demod.datasets.GermanTOU.loader import GTOU
    out = []
    for kind, mk, method in (('sparse', lambda: GTOU('Sparse9States'), 'load_sparse_tpm'), ('chain', lambda: GTOU('4_States'), 'load_tpm'),
                             ('chain', lambda: GTOU('DemodActivities_0'), 'load_tpm'),
                             ('semi', lambda: GTOU('Bottaccioli2018'), 'load_tpm_with_duration'), ('chain', lambda: Crest(), 'load_tpm')):
        for h, d, q in itertools.product(HOUSES, DAYS[:3], SEASONS[:2]):
            sg = {**h, **d, **q}
            data = mk()
            if ask(data, method, (sg,))[1] is None:
                out.append((kind, data, sg))
    return out


class Quantiles(Fixed):
    """Draws covering the quantiles, in another order at each draw."""

    def __init__(self, n, k):
        super().__init__(k, grid=n)
        self.n, self.k = n, k

    def pick(self, m):
        self.k = self.k + 1
        r = (self.k * 7 + self.k // m) % m
        self.trace.append((r, m))
        return r


def shipped(rec, scen):
    from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator
    from demod.simulators.sparse_simulators import SparseStatesSimulator
    part, n, days = scen
    found = models()
    rec.expect(len(found) >= 40, 'models that come with demod cannot be loaded', len(found), 'models missing')
    for j, (kind, data, sg) in enumerate(found):
        if j % n != part:
            continue
        ctx = {'dataset': data.DATASET_NAME, 'activities': getattr(data, 'activity_type', ''), 'subgroup': sg}
        N = 24
        if kind == 'sparse':
            tpm, labels, acts, pdf = ask(data, 'load_sparse_tpm', (sg,))[0]
            T, S = tpm.shape[0], tpm.shape[-1]
            dense = np.array([np.asarray(tpm[t]) for t in range(T)])
        elif kind == 'chain':
            dense, labels, pdf = ask(data, 'load_tpm', (sg,))[0]
            T, S = len(dense), dense.shape[-1]
        else:
            dense, dur, labels, pdf, first = ask(data, 'load_tpm_with_duration', (sg,))[0]
            T, S = len(dense), dense.shape[-1]
        rec.expect(dense.shape == (T, S, S) and T == 144 and len(labels) == S == len(np.unique(labels, axis=0)) and pdf.shape == (S,)
                   and abs(pdf.sum() - 1) < 1e-6 and pdf.min() >= 0, 'shapes, labels or initial probabilities of the model are wrong',
                   lambda: {**ctx, 'shapes': [dense.shape, len(labels), pdf.shape], 'labels': labels}, 'model shape')
        start = np.flatnonzero(pdf > 0)
        first_index = int(kind == 'chain')   # the matrix of t leads to t, or from t
        if kind == 'semi':
            rec.expect(dur.shape[:2] == (T, S) and first.shape[0] == S and dur.min() >= 0 and first.min() >= 0
                       and np.abs(first.sum(-1)[start] - 1).max() < 1e-6, 'durations of the model are wrong', ctx, 'durations')
            # an activity starts, lasts, and another starts
            seen, todo = set(), [('first', int(s)) for s in start]
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                t, s = (0, v[1]) if v[0] == 'first' else v
                law = first[s] if v[0] == 'first' else dur[t, s]
                lasts = np.flatnonzero(law > 0)
                rec.expect(abs(law.sum() - 1) < 1e-6, 'how long an activity that can start lasts is not a probability',
                           lambda: {**ctx, 'time': v[0], 'state': s, 'total': law.sum()}, 'durations law')
                for d in lasts:
                    e = int(t + max(1, d)) % T
                    nxt = np.flatnonzero(dense[e, s] > 0)
                    rec.expect(abs(dense[e, s].sum() - 1) < 1e-6 and len(nxt), 'what follows an activity is not a probability',
                               lambda: {**ctx, 'time': e, 'state': s}, 'model')
                    todo += [(e, int(x)) for x in nxt]
                    rec.transition(len(nxt))
            rec.state((str(ctx), len(seen)))
        else:
            seen = reach(rec, lambda t, s: (lambda row: (np.flatnonzero(row > 0), row.sum(), row.min()))(dense[(t + first_index) % T, s]), start, T, ctx)
            for v in seen:
                rec.state((str(ctx), v))
        # the simulators stay on the edges of the model
        with quiet(), active(Quantiles(29, j)):
            if kind == 'sparse':
                sim = SparseStatesSimulator(N, tpm, pdf, labels=labels)
            elif kind == 'chain':
                sim = MarkovChain1rstOrder(N, S, dense, labels=labels)
                sim.initialize_starting_state(pdf)
            else:
                sim = SemiMarkovSimulator(N, S, dense, dur, labels=labels)
                sim.initialize_starting_state(pdf, first)
            old = np.array(sim.current_states)
            ok = np.all(pdf[old] > 0)
            for t in range(days * T):
                sim.step()
                new = np.array(sim.current_states)
                if kind == 'semi':
                    ok = ok and np.all((new == old) | (dense[:, old, new].max(axis=0) > 0))
                else:
                    ok = ok and np.all(dense[(t + first_index) % T, old, new] > 0)
                if not ok:
                    break
                old = new
                rec.transition()
        rec.expect(ok, 'a simulated transition is impossible in the model', lambda: {**ctx, 'time': t, 'old': old, 'new': new}, 'edges')
        rec.trace()
        rec.case(kind)


def simulators(rec, scen):
    """Full load simulators on the data of Germany."""
    from demod.datasets.Germany.loader import GermanDataHerus
    from demod.simulators.load_simulators import LoadSimulator
    climate, heating, n, start, steps, k = scen
    ext = {} if climate else {'external_outside_temperature': 3.5, 'external_irradiance': 40.}
    with quiet(), active(Quantiles(17, k)):
        sim = LoadSimulator(n, start, include_climate=climate, include_heating=heating, data=GermanDataHerus())
        for t in range(steps):
            sim.step(**ext)
            power = np.array(sim.get_power_demand())
            app = np.array(sim.appliance_simulator.get_power_demand())
            light = np.array(sim.light_sim.get_power_demand())
            rest = np.array(sim.heating.get_power_demand()) if heating else 0.
            ok = power.shape == (n,) and np.isfinite(power).all() and (power >= 0).all() and np.allclose(power, app + light + rest)
            if heating:
                heat = [np.asarray(getattr(sim, g)()) for g in ('get_total_heat_demand', 'get_dhw_heat_demand', 'get_sh_heat_demand')]
                ok = ok and all(h.shape == (n,) and np.isfinite(h).all() and (h >= -1e-9).all() for h in heat)
            rec.expect(ok, 'demands of a simulation with the data of Germany are wrong', lambda: {'scenario': scen, 'step': t, 'power': power}, 'load')
            rec.transition()
            rec.state((scen, t, power.tolist()))
    rec.trace()


def build(ck):
    import demod.datasets.Germany.loader  # noqa
    import demod.simulators.load_simulators  # noqa
    list_shipped()
    th = ck.thorough
    for v in ACTIVITY:
        for p in range(4):
            ck.add('sources %s #%d' % (v, p), sources, (v, p, 4))
    ck.add('profiles', profiles)
    depth = 3 if th else 2
    for part in interleave(range(len(operations())), 40 if th else 8):
        ck.add('histories from %s' % part, histories, (part, depth))
    ck.add('own', own)
    ck.add('absent', absent)
    for p in range(8):
        ck.add('models #%d' % p, shipped, (p, 8, 3 if th else 1))
    for k, (c, h) in enumerate(itertools.product((True, False), repeat=2)):
        for n, start in ((1, dt.datetime(2014, 1, 1, 4)), (9, dt.datetime(2014, 1, 31, 23, 50))) + (((40, dt.datetime(2014, 2, 3, 11, 7)),) if th else ()):
            ck.add('load %s %s %d' % (c, h, n), simulators, (c, h, n, start, 200 if th else 25, k))
    ck.rule = ('all questions to both versions of the German dataset for %d subgroups; all histories of %d loads (of %d), each answer '
               'changed in place by its owner, the first one asked again; all states that can be reached of all models that come with demod'
               % (len(SGS), depth, len(operations())))
    ck.assumptions = ['synthetic climate and measured loads stand for the files that are downloaded',
                      'raw data of the survey are not there: subgroups without parsed data raise the same error as their source']
