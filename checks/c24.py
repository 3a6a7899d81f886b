"""C24: subgroups of the population: names, order, time of the year, persons of a household."""
import copy
import datetime
import itertools
import warnings

import numpy as np

LEVEL = 'model_checking'
VALUES = {'n_residents': (1, 2, 3, 10), 'household_type': (1, 2, 12), 'weekday': ([1, 2, 3, 4, 5], [6, 7], 6, 7), 'quarter': (1, 4)}


def groups(keys, values=VALUES):
    """All the subgroups over the keys, each key possibly missing."""
    for vals in itertools.product(*[(None,) + tuple(values[k]) for k in keys]):
        yield {k: copy.copy(v) for k, v in zip(keys, vals) if v is not None}


def names(rec, values):
    """Names do not depend on the order of the keys and tell subgroups apart."""
    from demod.utils.subgroup_handling import subgroup_string, sort_subgroup, Subgroup
    seen = {}
    for g in groups(list(values), values):
        ident = repr(sorted(g.items()))
        texts = set()
        for perm in itertools.permutations(g.items()):
            for cls in (dict, Subgroup):
                d = cls(perm)
                texts.add(subgroup_string(d))
                s = sort_subgroup(d)
                rec.expect(list(s) == sorted(g) and dict(s) == g and list(d) == [k for k, _ in perm],
                           'sorting a subgroup changes it', {'subgroup': d, 'got': s}, 'sort')
                rec.transition()
        rec.expect(len(texts) == 1, 'the name of a subgroup depends on the order of its keys', {'subgroup': g, 'names': texts}, 'order of keys')
        for t in texts:
            rec.expect(seen.setdefault(t, ident) == ident, 'two subgroups have the same name',
                       {'subgroups': [seen[t], ident], 'name': t}, 'same name')
        rec.state(ident)
        rec.trace()


def order(rec, scen):
    """Subgroups are in a strict total order: size, then keys, then values."""
    from demod.utils.subgroup_handling import Subgroup

    def greater(a, b):
        if len(a) != len(b):
            return len(a) > len(b)
        for k in sorted(set(a) | set(b)):
            if k not in b or k not in a:
                return k in a
            if a[k] != b[k]:
                return a[k] > b[k]
        return False
    gs = [Subgroup(g) for g in groups(list(scen), scen)]
    gt = [[bool(a > b) for b in gs] for a in gs]
    lt = [[bool(a < b) for b in gs] for a in gs]
    n = len(gs)
    for i, j in itertools.product(range(n), repeat=2):
        a, b = gs[i], gs[j]
        ctx = {'a': a, 'b': b, 'a > b': gt[i][j], 'b > a': gt[j][i]}
        rec.expect(gt[i][j] + gt[j][i] == (i != j), 'two different subgroups are not ordered, or ordered both ways', ctx, 'total')
        rec.expect(gt[i][j] == greater(a, b), 'subgroups are not ordered as documented', ctx, 'documented')
        rec.expect(lt[i][j] == gt[j][i], 'less than is not the opposite of greater than', ctx, 'less')
        rec.transition()
    for i, j, k in itertools.product(range(n), repeat=3):
        if gt[i][j] and gt[j][k]:
            rec.expect(gt[i][k], 'the order of the subgroups is not transitive', {'subgroups': [gs[i], gs[j], gs[k]]}, 'transitive')
    for g in gs:
        rec.state(tuple(sorted(g.items())))
        for other in (3, 'a', None, [1]):
            try:
                g > other
                rec.fail('a subgroup is compared with something that is no subgroup', {'subgroup': g, 'other': other}, 'type')
            except TypeError:
                pass
        c = g.copy()
        rec.expect(c == g and c is not g and type(c) is Subgroup, 'the copy of a subgroup is not a subgroup', g, 'copy')
    # grouping of all small populations
    few = gs[:: max(1, n // 5)][:5]
    for m in (1, 2, 3, 4):
        for pop in itertools.product(few, repeat=m):
            arr = np.empty(m, dtype=object)
            arr[:] = list(pop)
            kinds, inverse, counts = np.unique(arr, return_inverse=True, return_counts=True)
            rec.expect(all(kinds[i] == p for i, p in zip(inverse, pop)) and len(kinds) == len({repr(p) for p in pop})
                       and list(counts) == [sum(p == k for p in pop) for k in kinds]
                       and all(kinds[i + 1] > kinds[i] for i in range(len(kinds) - 1)), 'a population is not grouped by its subgroups',
                       {'population': pop, 'kinds': kinds, 'inverse': inverse}, 'unique')
            rec.trace()


def without_time(rec, scen):
    from demod.utils.subgroup_handling import remove_time_attributues, Subgroup
    for g in groups(scen):
        for cls in (dict, Subgroup):
            for perm in itertools.permutations(g.items()):
                d = cls(perm)
                got = remove_time_attributues(d)
                rec.expect(dict(got) == {k: v for k, v in g.items() if k not in ('weekday', 'quarter')} and list(d.items()) == list(perm)
                           and got is not d, 'time attributes are not the ones removed, or the subgroup given changes',
                           {'subgroup': g, 'got': got, 'given': d}, 'remove')
                rec.transition()
        rec.state(repr(sorted(g.items())))
        rec.trace()


def times(rec, scen):
    """All days of years, all combinations of options, all attributes already there."""
    from demod.utils.subgroup_handling import add_time, Subgroup
    olds = [{}, {'weekday': [6, 7]}, {'weekday': [1, 2, 3, 4, 5], 'quarter': 2}, {'weekday': 6}, {'quarter': 4}]
    for year, month in scen:
        day = datetime.datetime(year, month, 1)
        while day.month == month:
            w = (day.toordinal() - 1) % 7 + 1      # 1 January 1 is a Monday
            for hour in (0, 4, 23):
                at = day.replace(hour=hour, minute=59 if hour == 23 else 0)
                for opts in itertools.product((False, True), repeat=4):
                    ends, satsun, seven, quarters = opts
                    for old in olds:
                        sg = Subgroup(n_residents=2, **copy.deepcopy(old))
                        try:
                            given = dict(use_week_ends_days=ends, use_week_sat_sun=satsun, use_7days=seven, use_quarters=quarters)
                            if hour == 4:     # the documented defaults are left out
                                given = {k: v for k, v in given.items() if v != (k == 'use_week_ends_days')}
                            got = add_time(sg, at, **given)
                        except ValueError:
                            got = None
                        rec.transition()
                        bad = ends + satsun + seven > 1
                        want = {'n_residents': 2}
                        if ends:
                            want['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else [6, 7]
                        elif satsun:
                            want['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else w
                        elif seven:
                            want['weekday'] = w
                        if quarters:
                            want['quarter'] = {1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 2, 7: 3, 8: 3, 9: 3}.get(month, 4)
                        rec.expect((got is None) if bad else (got is not None and dict(got) == want and got is sg),
                                   'the time of a subgroup is wrong', {
                                       'at': at, 'before': old, 'weekends,sat/sun,7 days,quarters': opts, 'got': got, 'want': None if bad else want},
                                   'several days' if bad else 'time')
            rec.state((day.toordinal(),))
            day += datetime.timedelta(days=1)
        rec.trace()


def formats(rec, scen):
    from demod.utils.subgroup_handling import check_weekend_day_format, is_weekend, is_weekday
    days = [list(c) for n in range(8) for c in itertools.combinations(range(1, 8), n)]
    days += [list(range(1, 8)), [7, 6], [5, 4, 3, 2, 1]] + list(range(1, 8)) + ['weekend', None]
    for d in days:
        sg = {'weekday': d, 'n_residents': 2}
        wd, we = d == [1, 2, 3, 4, 5], d == [6, 7]
        try:
            check_weekend_day_format(sg)
            ok = True
        except ValueError as e:
            ok = False
            rec.expect(str(d) in str(e), 'the error does not tell the weekday refused', {'weekday': d, 'error': str(e)}, 'message')
        rec.expect(ok == (wd or we), 'the format of the days is not checked', {'weekday': d, 'accepted': ok}, 'format')
        rec.expect(bool(is_weekend(sg)) == we and bool(is_weekday(sg)) == wd, 'weekend and weekday are confused', d, 'kind of day')
        rec.state(repr(d))
        rec.transition()
        rec.trace()


def persons(rec, scen):
    """The persons of all kinds of households, alone and in lists of households."""
    from demod.utils.subgroup_handling import subgroup_households_to_persons as convert, Subgroup
    extra = [{}, {'weekday': [6, 7]}, {'hh_mean_age': 3}, {'hh_mean_age': 3, 'age': 2}, {'age': 2, 'quarter': 1, 'weekday': [1, 2, 3, 4, 5]}]
    kinds = []
    for n in (None, 1, 2, 3, 4, 5, 6):
        for t in (None, 1, 2, 3, 4, 5):
            if n is None and t not in (1, 2):
                continue                            # the number of persons is not known
            if (t == 1 and n not in (None, 1)) or (t == 2 and n not in (None, 2)) or (t == 3 and n < 2) or (t == 4 and n < 3):
                continue                            # no such household
            kinds.append((n, t))

    def want(n, t, ex):
        if t == 1 or n == 1:
            e = dict(ex)
            if 'age' not in e and 'hh_mean_age' in e:
                e['age'] = e.pop('hh_mean_age')
            return [e]
        if t in (2, 3, 4):
            pos = {2: [1, 2], 3: [1] + [3] * ((n or 0) - 1), 4: [1, 2] + [3] * ((n or 0) - 2)}[t]
            return [dict(ex, household_position=p) for p in pos]
        return [dict(ex)] * n
    every = []
    for (n, t), ex, cls in itertools.product(kinds, extra, (dict, Subgroup)):
        if t == 5 and n == 1:
            pass
        sg = cls(copy.deepcopy(ex))
        if n is not None:
            sg['n_residents'] = n
        if t is not None:
            sg['household_type'] = t
        every.append((sg, want(n, t, ex)))
    for sg, w in every:
        keep = copy.deepcopy(sg)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = convert(sg)
        rec.expect([dict(g) for g in got] == w and all(isinstance(g, Subgroup) for g in got), 'the persons of a household are wrong',
                   {'household': sg, 'got': got, 'want': w}, 'persons')
        rec.expect(sg == keep and all(g is not sg for g in got), 'the household given is changed', {'household': sg, 'before': keep}, 'argument')
        rec.transition()
        rec.trace()
        rec.state(repr(sorted(sg.items())))
    some = every[::max(1, len(every) // (24 if scen else 12))]
    for m in (0, 1, 2, 3):
        for hh in itertools.product(some, repeat=m):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = convert([h for h, _ in hh])
            rec.expect([[dict(g) for g in h] for h in got] == [w for _, w in hh], 'the persons of several households are wrong',
                       {'households': [h for h, _ in hh], 'got': got}, 'several')
            rec.transition()


def build(ck):
    import demod.utils.subgroup_handling  # noqa
    keys = list(VALUES)
    ck.add('names', names, VALUES)
    # all lists of up to 3 numbers of which some are the beginning of others
    nums = (1, 2, 11, 12, 112, 121)
    lists = [list(c) for m in (1, 2, 3) for c in itertools.product(nums[:4], repeat=m)] + [[n] for n in nums[4:]]
    ck.add('names of lists', names, {'age': lists, 'sex': (1, 12, 2)})
    ck.add('names of two lists', names, {'weekday': lists[:20], 'quarter': lists[:20]})
    small = {'b': (1, 2), 'a': (1, 2, 3), 'c': (5, 4)}
    ck.add('order 1', order, small)
    ck.add('order 2', order, {'quarter': (1, 2), 'n_residents': (1, 2), 'household_type': (1, 2), 'age': (1, 2)})
    ck.add('order lists', order, {'weekday': ([1, 2, 3, 4, 5], [6, 7]), 'n_residents': (1, 2, 3), 'quarter': (1, 2, 3)})
    if ck.thorough:
        ck.add('order 3', order, {k: (1, 2) for k in 'abcde'})
        ck.add('order 4', order, {'weekday': ([1, 2, 3, 4, 5], [6, 7], [6], [7]), 'n_residents': (1, 2, 3), 'quarter': (1, 2, 3, 4)})
    ck.add('without time', without_time, keys)
    for year in (2014, 2015, 2016) if not ck.thorough else range(2000, 2028):
        for q in range(4):
            ck.add('times %d %d' % (year, q), times, [(year, 3 * q + m) for m in (1, 2, 3)])
    ck.add('formats', formats, None)
    ck.add('persons', persons, ck.thorough)
    ck.rule = ('all subgroups over 4 keys with up to 4 values, in all orders of their keys; all pairs and triples of subgroups for the order; '
               'all days of %d years with all options and previous attributes; all sets of days; all kinds of households of up to 6 persons '
               'and lists of up to 3 households' % (28 if ck.thorough else 3))
