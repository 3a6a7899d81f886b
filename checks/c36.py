"""C36: invalid models and arguments are refused, valid ones are accepted.

Every small model (pdfs over a grid of values that holds negative, too large, missing and rounded-off entries, at every
position) and every small argument; whether it is valid is decided by an independent specification.
"""
import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from checks import _apps, _heat
from mc import zoo
from mc.choice import Fixed, active
from mc.util import chunks

LEVEL = 'model_checking'
NAN = float('nan')
TINY, OFF = 1e-7, 1e-4
VALUES = (-.25, 0., .25, .5, 1., 1.25, NAN)
DAY = dt.datetime(2014, 1, 31, 3, 20)
M1, M10, H1 = dt.timedelta(minutes=1), dt.timedelta(minutes=10), dt.timedelta(hours=1)
NOT_IMPLEMENTED = (NotImplementedError,)


def is_pdf(row):
    """None: not specified (a round-off below zero)."""
    if any(v != v for v in row):
        return False
    if any(v < 0 for v in row):
        return False
    return abs(float(sum(map(Fraction, map(float, row)))) - 1) < 1e-6


def is_cdf(row):
    if any(v != v for v in row):
        return False
    return bool(all(a <= b for a, b in zip(row, row[1:])) and row[0] >= 0 and abs(row[-1] - 1) < 1e-6)


def verdict(rec, kind, fn, ok, case, key=None, kinds=(Exception,)):
    """fn must succeed exactly when ok."""
    rec.transition()
    rec.state((kind, str(case), ok))
    try:
        with active(Fixed(5)):
            fn()
    except AttributeError as e:
        # not a way to refuse an argument, but for the documented one
        got, why = ('refused' if 'need to specify both' in str(e) else 'broken'), repr(e)
    except kinds as e:
        got, why = 'refused', repr(e)[:300]
    else:
        got, why = 'accepted', ''
    want = 'accepted' if ok else 'refused'
    rec.expect(got == want, f'{kind}: {"valid" if ok else "invalid"} values are {want}', lambda: {'case': str(case)[:600], 'got': got, 'error': why},
               key=key or f'{kind} {want}')


# ------------------------------------------------------------- distributions
def cdfs(rec, scen):
    from demod.utils.distribution_functions import check_valid_cdf
    first, = scen
    vals = VALUES + (1 + TINY, 1 - TINY, 1 + OFF, 1 - OFF)
    rows = [(first, *r) for k in range(3) for r in itertools.product(vals, repeat=k)]
    sure = [r for r in rows if not any(0 < a - b < 1e-5 for a, b in zip(r, r[1:]))]
    for r in sure:
        verdict(rec, 'a cdf', lambda: check_valid_cdf(np.array(r)), is_cdf(r), r)
        rec.trace()
    # among others, at any position of arrays of one more or two more dimensions
    good = {1: (1.,), 2: (.5, 1.), 3: (0., .25, 1.)}
    for r in sure:
        for pos in range(3):
            a = [good[len(r)]] * 3
            a[pos] = r
            verdict(rec, 'an array of cdfs', lambda: check_valid_cdf(np.array(a)), is_cdf(r), a)
            verdict(rec, 'an array of arrays of cdfs', lambda: check_valid_cdf(np.array([[good[len(r)]] * 3, a])), is_cdf(r), a)
            rec.trace(2)


def rescaling(rec, scen):
    from demod.utils.distribution_functions import rescale_cdf, rescale_pdf
    eps, = scen
    kw = {} if eps is None else {'epsilon': eps}
    e = .1 if eps is None else eps
    vals = (0., .125, .25, .5, .75, 1., 1.25, .5625, .4375)
    for n in (1, 2, 3):
        for row in itertools.product(vals, repeat=n):
            s = sum(row)
            if abs(abs(s - 1) - e) < 1e-9:
                continue
            ok = abs(s - 1) < e
            for a in ([row], [row, (1.,) + (0.,) * (n - 1)], [(0.,) * (n - 1) + (1.,), row]):
                for name, f, arr in (('rescale_pdf', rescale_pdf, np.array(a)), ('rescale_cdf', rescale_cdf, np.cumsum(a, axis=-1))):
                    for arr2 in (arr, arr[None]):
                        keep = arr2.copy()
                        verdict(rec, name, lambda: f(arr2, **kw), ok, (eps, a), f'{name} {ok}')
                        if ok:
                            got = f(arr2, **kw)
                            want = keep / (keep.sum(axis=-1) if name == 'rescale_pdf' else keep[..., -1])[..., None]
                            rec.expect(np.shape(got) == keep.shape and np.allclose(got, want), f'{name} divides by the total', lambda: (a, got),
                                       key=f'{name} total')
                        rec.expect(np.array_equal(arr2, keep), f'{name} modifies its argument', a, key=f'{name} argument')
            rec.trace(12)


def population(rec, scen):
    from demod.simulators.util import sample_population
    for n in (1, 2, 3):
        for row in itertools.product(VALUES + (.5 + TINY, .5 + OFF), repeat=n):
            for algo in ('real_population', 'monte_carlo', 'census', None):
                ok = is_pdf(row) and algo in ('real_population', 'monte_carlo')
                verdict(rec, 'sample_population', lambda: sample_population(5, np.array(row), algo), ok, (row, algo))
                rec.trace()


# ------------------------------------------------------------- Markov chains
def matrices(rec, scen):
    """One matrix of two states anything, at any time of a chain of one or two times."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator
    first, kind = scen
    other = np.array([[.25, .75], [1., 0.]])
    dur = np.array([[[.5, .5], [0., 1.]]])
    for r in itertools.product(VALUES + (.5 + TINY, .5 + OFF), repeat=3):
        m = np.array([first, *r]).reshape(2, 2)
        ok = is_pdf(m[0]) and is_pdf(m[1])
        for T, pos in ((1, 0), (2, 0), (2, 1)):
            a = np.array([other] * T)
            a[pos] = m

            def run():
                if kind == 'markov':
                    MarkovChain1rstOrder(2, 2, a).initialize_starting_state(np.array([.5, .5]))
                else:
                    SemiMarkovSimulator(2, 2, a, np.array([dur[0]] * T)).initialize_starting_state(np.array([.5, .5]), dur[0])
            verdict(rec, f'{kind} transition matrix', run, ok, (T, pos, m.tolist()))
            rec.trace()


def durations(rec, scen):
    from demod.simulators.activity_simulators import SemiMarkovSimulator
    first, four = scen
    tpm = np.array([[[0., 1.], [1., 0.]]] * 2)
    good = np.array([[[.5, .5], [0., 1.]]] * 2)
    for r in itertools.product((-.25, 0., .5, 1., NAN, .5 + TINY, .5 + OFF), repeat=3):
        m = np.array([first, *r]).reshape(2, 2)
        ok = is_pdf(m[0]) and is_pdf(m[1])
        for pos in (0, 1):
            d = good.copy()
            d[pos] = m
            if four:   # the duration depends on the previous state as well
                d4 = np.array([[good[t]] * 2 for t in range(2)])
                for prev in (0, 1):
                    e = d4.copy()
                    e[pos, prev] = m
                    verdict(rec, 'duration pdfs by previous state', lambda: SemiMarkovSimulator(2, 2, tpm, e).initialize_starting_state(
                        np.array([.5, .5]), good[0]), ok, (pos, prev, m.tolist()))
            else:
                verdict(rec, 'duration pdfs', lambda: SemiMarkovSimulator(2, 2, tpm, d).initialize_starting_state(
                    np.array([.5, .5]), good[0]), ok, (pos, m.tolist()))
            rec.trace()


def sparse():
    from demod.utils.sparse import SparseTPM
    return SparseTPM([0, 0, 1, 1], [0, 1, 0, 1], [1, 0, 0, 1], [1., 1., 1., 1.])


def starts(rec, scen):
    """Starting pdfs of chains of two states."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator
    from demod.simulators.sparse_simulators import SparseStatesSimulator
    first, = scen
    tpm = np.array([[[0., 1.], [1., 0.]]] * 2)
    dur = np.array([[[.5, .5], [0., 1.]]] * 2)
    for n in (0, 1, 2):
        for r in itertools.product(VALUES + (.5 + TINY, .5 - TINY, .5 + OFF), repeat=n):
            pdf = (first, *r)
            ok = len(pdf) == 2 and is_pdf(pdf)
            for start in (0, 1, 3):
                kw = {'start_time_step': start}
                verdict(rec, 'starting pdf of MarkovChain1rstOrder',
                        lambda: MarkovChain1rstOrder(2, 2, tpm).initialize_starting_state(np.array(pdf), **kw), ok, pdf)
                verdict(rec, 'starting pdf of SemiMarkovSimulator',
                        lambda: SemiMarkovSimulator(2, 2, tpm, dur).initialize_starting_state(np.array(pdf), dur[0], **kw), ok, pdf)
                verdict(rec, 'starting pdf of SparseStatesSimulator',
                        lambda: SparseStatesSimulator(2, sparse(), [.5, .5]).initialize_starting_state(np.array(pdf), **kw), ok, pdf)
                rec.trace(3)


def sparse_matrices(rec, scen):
    """The matrices of a sparse chain: a state is left with probability one, or never (a dead state)."""
    from demod.simulators.sparse_simulators import SparseStatesSimulator
    from demod.utils.sparse import SparseTPM
    first, = scen
    for r in itertools.product(VALUES + (.5 + TINY, .5 + OFF), repeat=3):
        m = np.array([first, *r]).reshape(2, 2)
        ok = is_pdf(m[0]) and is_pdf(m[1])
        if not ok and all(is_pdf(x) or not np.any(x) for x in m):
            continue
        ti, fr, to, va = zip(*[(t, i, j, (m if t == 1 else np.eye(2))[i, j]) for t in (0, 1) for i in (0, 1) for j in (0, 1)])
        for order in (1, -1):
            verdict(rec, 'sparse transition matrix', lambda: SparseStatesSimulator(
                2, SparseTPM(ti[::order], fr[::order], to[::order], va[::order]), [.5, .5]).initialize_starting_state(np.array([.5, .5])),
                ok, m.tolist())
            rec.trace()


def chain_shapes(rec, scen):
    from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator
    from demod.simulators.sparse_simulators import SparseStatesSimulator
    from demod.utils.sparse import SparseTPM
    uniform = lambda *s: np.full(s, 1. / s[-1])  # noqa: E731
    for T, a, b, n, lab in itertools.product((1, 2), (1, 2, 3), (1, 2, 3), (1, 2, 3), (None, 1, 2, 3)):
        labels = None if lab is None else list('abc')[:lab]
        ok = a == b == n and lab in (None, n)
        ctx = {'matrices': (T, a, b), 'states': n, 'labels': labels}
        verdict(rec, 'shape of a chain', lambda: MarkovChain1rstOrder(2, n, uniform(T, a, b), labels=labels).initialize_starting_state(
            uniform(n)), ok, ctx)
        if lab is not None:
            verdict(rec, 'shape of a chain', lambda: MarkovChain1rstOrder(2, n, uniform(T, a, b), labels=np.array(labels)).initialize_starting_state(
                uniform(n)), ok, ctx)
        for d in (1, 2, 3):
            verdict(rec, 'shape of a semi-Markov chain', lambda: SemiMarkovSimulator(
                2, n, uniform(T, a, b), uniform(T, d, 2), labels=labels).initialize_starting_state(uniform(n), uniform(n, 2)),
                ok and d == n, {**ctx, 'durations': (T, d, 2)})
        rec.trace(5)
    for n in (1, 2, 3):
        for what, m in (('a list', uniform(1, n, n).tolist()), ('a tuple', tuple(uniform(1, n, n))), ('None', None), ('an array', uniform(1, n, n)),
                        ('a sparse TPM', sparse())):
            verdict(rec, 'type of the matrices', lambda: MarkovChain1rstOrder(2, n, m), what == 'an array', (what, n))
            if what not in ('a sparse TPM',):
                verdict(rec, 'type of the sparse matrices', lambda: SparseStatesSimulator(2, m, [1.]), False, (what, n))
            rec.trace(2)
    for lab, start in itertools.product((None, 1, 2, 3), (1, 2, 3)):
        labels = None if lab is None else list('abc')[:lab]
        verdict(rec, 'shape of a sparse chain', lambda: SparseStatesSimulator(2, sparse(), uniform(start), labels=labels), lab in (None, 2) and start == 2,
                (lab, start))
    for ls in itertools.product((1, 2, 3), repeat=4):
        verdict(rec, 'lengths of the transitions', lambda: SparseTPM(*([0] * n for n in ls[:3]), [1.] * ls[3]), len(set(ls)) == 1, ls)
    for k in (0, 1, 2, 5, -1, 0.5, '0', None, (0,), slice(0, 1)):
        verdict(rec, 'time of a sparse matrix', lambda: sparse()[k], isinstance(k, int), k)
        for shape in itertools.product((1, 2, 3), repeat=2):
            def put():
                t = sparse()
                t[k] = np.zeros(shape)
            verdict(rec, 'assigned sparse matrix', put, isinstance(k, int) and shape == (2, 2), (k, shape))
        rec.trace()
    act = lambda: SparseStatesSimulator(2, sparse(), [.5, .5], labels=np.array([0, 1], dtype=np.uint64))  # noqa: E731
    for named in (False, True):
        s = act()
        if named:
            s.activity_labels = np.array(['home', 'out'])
        for x in (0, 1, 'home', 'out', 'nothing', '', None, 1.5, [0], ['home'], [0, 'nothing'], [None]):
            flat = x if isinstance(x, list) else [x]
            ok = all(isinstance(y, int) or (named and y in ('home', 'out')) for y in flat)
            verdict(rec, 'asked state of a sparse simulator', lambda: s.get_n_doing_state(x), ok, (named, x))
    for start in (None, '2014', 3, dt.date(2014, 1, 1), DAY):
        verdict(rec, 'start of a time aware sparse simulator', lambda: Aware(2, sparse(), [.5, .5], time_aware=True, start_datetime=start),
                isinstance(start, dt.datetime), start)


def Aware(*a, **kw):
    from demod.simulators.sparse_simulators import SparseStatesSimulator

    class S(SparseStatesSimulator):
        def update_new_day(self):
            pass
    return S(*a, **kw)


# ---------------------------------------------------------------- simulators
def simulators(rec, scen):
    from demod.simulators.base_simulators import (ExampleSimulator, SimLogger, Simulator, TimeAwareExampleSimulator, TimeAwareSimulator)
    for cls in (Simulator, ExampleSimulator, TimeAwareSimulator, TimeAwareExampleSimulator):
        args = (3,) if 'Example' in cls.__name__ else ()
        for n in (1, 2, 3., np.int64(2), np.array(2), '2', True, 0, -1, -2.5, 0., '0', 'two', None, [], [1, 2], {}, (), NAN, float('inf')):
            try:
                ok = int(n) > 0
            except Exception:
                ok = False
            if ok and args and type(n) not in (int, np.int64):
                continue   # the examples themselves need integers
            verdict(rec, 'number of households', lambda: cls(n, *args), ok, (cls.__name__, n))
        for log in (None, SimLogger('current_time_step'), SimLogger, 'get_x', ['get_x'], 0, False, {}, True):
            verdict(rec, 'logger', lambda: cls(2, *args, logger=log), log is None or isinstance(log, SimLogger), (cls.__name__, str(type(log))))
        rec.trace(2)
    for cls in (TimeAwareSimulator, TimeAwareExampleSimulator):
        args = (3,) if 'Example' in cls.__name__ else ()
        for d in (DAY, DAY.replace(tzinfo=dt.timezone.utc), DAY.date(), DAY.time(), '2014-01-01', 2014, None, np.datetime64('2014-01-01')):
            for s in (M1, H1, 60, 60., '1min', None, np.timedelta64(1, 'm'), DAY):
                verdict(rec, 'start and step size', lambda: cls(2, *args, start_datetime=d, step_size=s),
                        isinstance(d, dt.datetime) and isinstance(s, dt.timedelta), (cls.__name__, d, s))
                rec.trace()
    for k in (0, 1, 5, True, -1, -7, 0., 1., '1', None, [], np.array([1])):
        class S(Simulator):
            def step(self):
                super().step()
        if isinstance(k, bool):
            continue
        verdict(rec, 'start time step', lambda: S(2).initialize_starting_state(k), isinstance(k, int) and k >= 0, k)
        verdict(rec, 'start time step', lambda: S(2).initialize_starting_state(start_time_step=k), isinstance(k, int) and k >= 0, k)
    for step in (M1, M10, H1, dt.timedelta(days=1), dt.timedelta(seconds=7)):
        for off in (dt.timedelta(0), -M1, M1, -M10, M10, -H1, H1, dt.timedelta(days=-1), dt.timedelta(days=1), dt.timedelta(microseconds=1)):
            def aware(t):
                TimeAwareSimulator(2, start_datetime=DAY, step_size=step).initialize_starting_state(initialization_time=t)
            verdict(rec, 'initialization time', lambda: aware(DAY + off), off <= dt.timedelta(0), (step, off))
            verdict(rec, 'initialization time', lambda: aware((DAY + off).time()), True, (step, off, 'time'))
        for t in ('04:00', 4, DAY.date(), [], 0., True):
            verdict(rec, 'initialization time', lambda: aware(t), False, (step, t))
        rec.trace()


def loggers(rec, scen):
    from demod.simulators.base_simulators import SimLogger
    names = ('get_x', 'get_y', 'get_z')
    for n in (1, 2, 3):
        for form in ('args', 'list', 'tuple', 'set', 'dict', 'int', 'none'):
            v = {'list': list(names[:n]), 'tuple': tuple(names[:n]), 'set': set(names[:n]), 'dict': dict.fromkeys(names[:n]), 'int': n, 'none': None}
            for agg in (True, False, 1, 0, None, 'yes', (True,) * n, *([b] * m for m in range(0, 5) for b in (True, False))):
                ok = form in ('args', 'list') and (isinstance(agg, bool) or isinstance(agg, list) and len(agg) == n)
                verdict(rec, 'arguments of a logger', lambda: SimLogger(*(names[:n] if form == 'args' else (v[form],)), aggregated=agg), ok, (form, n, agg))
                rec.trace()
    for n in (1, 2):
        for asked in (*names, None, '', 'current_time', 3):
            log = SimLogger(list(names[:n]))
            ok = asked in names[:n] or (asked is None and n == 1)
            verdict(rec, 'asked name of a logger', lambda: log.get(asked), ok, (n, asked))
            if asked is not None:
                verdict(rec, 'cleared name of a logger', lambda: log.clear(asked), ok, (n, asked))
                verdict(rec, 'cleared names of a logger', lambda: log.clear(['get_x', asked]), ok, (n, asked))
    for a, b in itertools.product(range(4), repeat=2):
        from demod.simulators.base_simulators import ExampleSimulator

        def logged(k):
            s = ExampleSimulator(2, 1, logger=SimLogger('current_time_step'))
            for _ in range(k):
                s.step(np.ones(2, dtype=int), 1)
            return s.logger
        verdict(rec, 'sum of loggers', lambda: logged(a) + logged(b), a == b, (a, b))
    for x in (None, 1, 'get_x', [], {}):
        verdict(rec, 'sum of loggers', lambda: SimLogger('get_x') + x, False, x)


# ---------------------------------------------------------------- appliances
def appliance_arguments(rec, scen):
    from demod.simulators.appliance_simulators import (ActivityApplianceSimulator, OccupancyApplianceSimulator,
                                                       ProbabiliticActivityAppliancesSimulator)
    sgs = [{'n_residents': 1}, {'n_residents': 2}]
    occ = {n: np.ones(n) for n in range(1, 6)}

    def acts(n):
        return {k: np.ones(n) for k in ('cook', 'wash')}
    data, prob = zoo.app_data(zoo.APPS), zoo.app_data(zoo.PROB)
    act = lambda n, **kw: ActivityApplianceSimulator(n, acts(n), data=data, **{'step_size': M1, **kw})  # noqa: E731
    pro = lambda n, **kw: ProbabiliticActivityAppliancesSimulator(n, acts(n), data=prob, **{'step_size': M1, **kw})  # noqa: E731
    occs = lambda n, **kw: OccupancyApplianceSimulator(  # noqa: E731
        **{'subgroups_list': [dict(s) for s in sgs[:1]], 'n_households_list': [n], 'initial_active_occupancy': occ[n], 'data': data,
           'start_datetime': DAY, **kw})
    for name, f in (('ActivityApplianceSimulator', act), ('ProbabiliticActivityAppliancesSimulator', pro)):
        for total in range(1, 5):
            for a, b in itertools.product(range(0, 4), repeat=2):
                verdict(rec, f'{name}: number of households of the subgroups',
                        lambda: f(total, subgroups_list=[dict(s) for s in sgs], n_households_list=[a, b]), a + b == total, (total, a, b))
                rec.trace()
            both = {'subgroups_list': [dict(s) for s in sgs], 'n_households_list': [1, total - 1]}
            for given in itertools.chain.from_iterable(itertools.combinations(both, k) for k in range(3)):
                if name.startswith('Prob') and not given:
                    continue
                verdict(rec, f'{name}: both lists are given', lambda: f(total, **{k: both[k] for k in given}), len(given) != 1, (total, given))
        both = {'subgroups_list': [dict(s) for s in sgs], 'n_households_list': [1, 2]}
        for algo, ok in (('subgroup', True), ('basic', True), ('all', True), ('set_defined', None), ('correlated', False), ('', False),
                         ('Subgroup', False)):
            if ok is not None:
                verdict(rec, f'{name}: equipped_sampling_algo', lambda: f(3, equipped_sampling_algo=algo, **both), ok, algo)
        for algo, ok in (('nothing', True), ('only_always_on', True), ('only_switched_on', True), ('uniform', True), ('mean', False), ('', False),
                         ('Uniform', False)):
            verdict(rec, f'{name}: real_profiles_algo', lambda: f(3, real_profiles_algo=algo, **both), ok, algo)
        rec.trace()
    for step in (None, M1, M10, dt.timedelta(seconds=59), dt.timedelta(seconds=61), dt.timedelta(0)):
        for mine in (M1, M10):
            d = zoo.app_data(zoo.APPS)
            d.step_size = mine
            verdict(rec, 'OccupancyApplianceSimulator: step size', lambda: occs(2, data=d, step_size=step), step in (None, mine), (step, mine))
    known = ('active_occupancy', 'cook', 'level')
    for has in itertools.chain.from_iterable(itertools.combinations(known, k) for k in range(4)):
        for apps in itertools.product(known, repeat=2):
            # every appliance gets one of these activities
            rows = [dict(type='k%d' % i, related_activity=a, switch_on_prob_crest=.5) for i, a in enumerate(apps)]
            d = _apps.Data(rows, ownership=lambda sg: {r['type']: 1. for r in rows}, activity=lambda sg: {k: np.full((4, 4), .5) for k in has})
            verdict(rec, 'OccupancyApplianceSimulator: activities of the appliances', lambda: occs(2, data=d),
                    set(apps) <= set(has), (has, apps))
            rec.trace()
    for algo, ok in (('subgroup', True), ('basic', True), ('all', True), ('correlated', False), ('any', False)):
        verdict(rec, 'OccupancyApplianceSimulator: equipped_sampling_algo', lambda: occs(2, equipped_sampling_algo=algo), ok, algo)


def ownership(rec, scen):
    from demod.utils.appliances import assign_ownership_from_prob1_and_number as f
    vals = (-1., -.25, 0., .25, .5, .75, 1., 1.25, 2., 3.5, NAN)
    for p, n in itertools.product(vals, repeat=2):
        if p != p:
            continue
        ok = 0 <= p <= 1 and (n != n or n >= p)
        for algo in ('floor', 'ceil', '', None):
            verdict(rec, 'ownership from the probability of one and the number', lambda: f(p, n, algo), ok and algo == 'floor', (p, n, algo))
            rec.trace()


def edges(rec, scen):
    from demod.metrics.loads import cumulative_changes_in_demand as f
    for prof in itertools.product((0., 1., 2., 5.), repeat=3):
        p = np.array([prof, prof[::-1]])
        ch = np.abs(np.diff(p, axis=-1))
        for norm in (False, True):
            top = ch.max() if norm and ch.max() > 0 else 1.
            for lo, mid, hi in itertools.product((-1., 0., .2, .5, 2.), (2.5, .75), (1., 3., 4., 5., 6.)):
                e = np.array(sorted((lo, mid, hi)))
                verdict(rec, 'bin edges of the load changes', lambda: f(p, normalize=norm, bin_edges=e),
                        e[0] <= (ch / top).min() and (ch / top).max() <= e[-1], (prof, norm, e))
                rec.trace()


def days(rec, scen):
    from demod.utils.subgroup_handling import add_time, check_weekend_day_format
    for k in range(8):
        for d in itertools.combinations(range(1, 8), k):
            for form in (list, tuple):
                verdict(rec, 'weekday or week-end format', lambda: check_weekend_day_format({'n_residents': 1, 'weekday': form(d)}),
                        form is list and d in ((1, 2, 3, 4, 5), (6, 7)), form(d))
    for d in (*range(9), 'd', 'e', None):
        verdict(rec, 'weekday or week-end format', lambda: check_weekend_day_format({'weekday': d}), False, d)
    for we, ss, d7, q in itertools.product((False, True), repeat=4):
        for day in range(8):
            verdict(rec, 'ways to divide the week', lambda: add_time({'n_residents': 1}, DAY + dt.timedelta(days=day), use_week_ends_days=we,
                                                                      use_week_sat_sun=ss, use_7days=d7, use_quarters=q), we + ss + d7 <= 1,
                    (we, ss, d7, q, day))
            rec.trace()


# ------------------------------------------------- lighting, heating, weather
def lights(rec, scen):
    from demod.simulators.lighting_simulators import CrestLightingSimulator
    from checks.c14 import CrestData

    class Off(CrestData):
        def load_bulbs(self):
            return np.array([10., 20.]), np.array([.5, .5])

        def load_installed_bulbs_stats(self):
            return 3., 1.

    def data():
        return Off(configs=[[40., 7.], [15., 11.]], mean=1000., cal=.5)
    for algo in ('config', 'randn', 'rand', '', None, 'Config'):
        verdict(rec, 'bulbs_sampling_algo', lambda: CrestLightingSimulator(2, data=data(), bulbs_sampling_algo=str(algo)), algo in ('config', 'randn'), algo)
    for m in ('off', 'on', '', 'Off'):
        verdict(rec, 'initialization of the bulbs', lambda: CrestLightingSimulator(2, data=data()).initialize_bulbs(m), m == 'off', m)


def heating(rec, scen):
    from demod.simulators.heating_simulators import BuildingThermalDynamics, HeatDemand, HeatingSystem, Thermostats
    vals = VALUES + (.5 + TINY, .5 + OFF)
    kinds, homes = ('gas', 'combi', 'pump'), ('house', 'flat', 'house')

    class Data(_heat.Data):
        probs = None

        def _table(self, kinds, table, w):
            d = _heat.Data._table(kinds, table, w)
            if table is self.which:
                d['equipped_prob'] = np.array(self.probs)
            return d

    def data(which, probs):
        d = Data(systems=kinds[:len(probs)] if which is _heat.SYSTEMS else ('gas',), buildings=homes[:len(probs)] if which is _heat.BUILDINGS else ('house',))
        d.which, d.probs = which, probs
        return d
    for n in (1, 2, 3):
        for probs in itertools.product(vals, repeat=n):
            verdict(rec, 'probabilities of the heating systems', lambda: HeatingSystem(2, data=data(_heat.SYSTEMS, probs)), is_pdf(probs), probs)
            verdict(rec, 'probabilities of the buildings', lambda: BuildingThermalDynamics(
                2, HeatingSystem(2, data=_heat.Data()), 5., M10, target_temperatures=np.full(2, 20.), data=data(_heat.BUILDINGS, probs)),
                is_pdf(probs), probs)
            rec.trace(2)
    for t in (np.array([20., 21.]), {'space_heating': np.array([20., 21.])}, [20., 21.], 20., (20., 21.), '20', None):
        verdict(rec, 'target temperatures', lambda: Thermostats(2, {k: v[:2] if np.ndim(v) else v for k, v in zoo.temps(0).items()}, data=_heat.Data()).set_new_target_temperature(t),
                isinstance(t, (dict, np.ndarray)), t)
    for fuel in ('Mainsgas', 'Electricity', 'Coal', '', 'mainsgas'):
        class Fuel(_heat.Data):
            def load_heating_system_dict(self):
                d = super().load_heating_system_dict()
                d['fuel_type'] = np.array([fuel] * len(d['fuel_type']))
                return d

        def run():
            s = HeatingSystem(2, data=Fuel())
            t = np.array([True, False])
            s.step({'heater_on': t, 'heat_water_on': t, 'space_heating_on': t}, {'dhw': np.ones(2), 'space_heating': np.ones(2)})
            s.get_fuel_consumptions()
        verdict(rec, 'fuel types', run, fuel in ('Mainsgas', 'Electricity'), fuel)


def weather(rec, scen):
    import demod.simulators.weather_simulators as W
    from checks.c26 import FIRST, Real
    for step in (M10, H1):
        for cls, kw in (('RealClimate', {}), ('RealInterpolatedClimate', {'step_size': M10}), ('RealInterpolatedClimate', {'step_size': H1})):
            for zone in (None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=2))):
                for k in range(-13, 40):
                    start = FIRST + k * M10
                    if zone is not None:
                        start = start.replace(tzinfo=dt.timezone.utc).astimezone(zone)
                    verdict(rec, f'{cls}: start of the simulation', lambda: getattr(W, cls)(data=Real(48, step), start_datetime=start, **kw), k >= 0,
                            (cls, kw, str(zone), k))
                    rec.trace()
    for s in (M1, M10, H1, None):
        verdict(rec, 'RealClimate: step size', lambda: W.RealClimate(data=Real(), start_datetime=FIRST, step_size=s), False, s)
    # the end of the data
    for n in (3, 4):
        for step in (M10, dt.timedelta(minutes=20), H1, dt.timedelta(minutes=7)):
            for off in (dt.timedelta(0), M1, M10):
                for n_steps in range(0, 40):
                    ok = FIRST + off + n_steps * step <= FIRST + (n - 1) * H1

                    def run():
                        s = W.RealInterpolatedClimate(data=Real(n), start_datetime=FIRST + off, step_size=step)
                        for _ in range(n_steps):
                            s.step()
                            s.get_outside_temperature()
                    verdict(rec, 'RealInterpolatedClimate: end of the data', run, ok, (n, step, off, n_steps))
                    rec.trace()


def subgroups(rec, scen):
    """Step sizes and types of the simulators of activities of subgroups."""
    from demod.simulators.activity_simulators import MarkovChain1rstOrder, SemiMarkovSimulator
    for make in (zoo.individuals(), zoo.individuals(True)):
        for step in (M10, M1, H1, dt.timedelta(seconds=600), dt.timedelta(0)):
            import functools
            verdict(rec, 'step size of simulated individuals', functools.partial(individuals, make, step), step == M10, step)
    for sub in (MarkovChain1rstOrder, SemiMarkovSimulator, None, 'MarkovChain1rstOrder', int):
        verdict(rec, 'simulator of the individuals', lambda: of_type(sub), sub in (MarkovChain1rstOrder, SemiMarkovSimulator), sub)


def individuals(make, step):
    from demod.simulators import activity_simulators as A
    old = A.SubgroupsIndividualsActivitySimulator
    kw = {}
    # the step size replaces the one of the zoo
    def cls(*a, **k):
        return old(*a, **{**k, 'step_size': step})
    import unittest.mock
    with unittest.mock.patch.object(A, 'SubgroupsIndividualsActivitySimulator', cls):
        make(**kw)


def of_type(sub):
    from demod.simulators import activity_simulators as A
    old = A.SubgroupsIndividualsActivitySimulator

    def cls(*a, **k):
        return old(*a, **{**k, 'subsimulator': sub})
    import unittest.mock
    with unittest.mock.patch.object(A, 'SubgroupsIndividualsActivitySimulator', cls):
        zoo.individuals(sub is A.SemiMarkovSimulator)()


def build(ck):
    ck.rule = ('whether a value is valid is computed from its definition (sum one within 1e-6, no negative or missing entry, increasing, '
               'consistent sizes, types and dates) for every combination of grid values at every position; the call must succeed exactly '
               'for the valid ones; unknown errors (AttributeError) are not refusals')
    grid = VALUES + (1 + TINY, 1 - TINY, 1 + OFF, 1 - OFF)
    for v in grid:
        ck.add(f'cdfs starting with {v}', cdfs, (v,))
    for e in (None, .25, .01):
        ck.add(f'rescaling {e}', rescaling, (e,))
    ck.add('sample_population', population, {})
    g2 = VALUES + (.5 + TINY, .5 + OFF)
    for v in g2:
        for k in ('markov', 'semi-Markov'):
            ck.add(f'{k} matrices starting with {v}', matrices, (v, k))
        ck.add(f'sparse matrices starting with {v}', sparse_matrices, (v,))
        ck.add(f'starting pdfs {v}', starts, (v,))
    for v in (-.25, 0., .5, 1., NAN, .5 + TINY, .5 + OFF):
        for four in (False, True):
            ck.add(f'durations starting with {v}, by previous state {four}', durations, (v, four))
    for name, f in (('shapes of chains', chain_shapes), ('simulators', simulators), ('loggers', loggers), ('appliances', appliance_arguments),
                    ('ownership', ownership), ('bin edges', edges), ('days', days), ('lighting', lights), ('heating', heating), ('weather', weather),
                    ('subgroups', subgroups)):
        ck.add(name, f, {})
