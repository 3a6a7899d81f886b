"""C25: ownership and targets of appliances follow their type."""
import itertools
import warnings
from fractions import Fraction

import numpy as np

from checks import _apps

LEVEL = 'model_checking'
TYPES = ['hob', 'electric_hob', 'gas_electric_hob', 'tv', 'crt_tv', 'hob_tv', 'fridge']


def resolve(types, table, default):
    """Type of the table closest to each appliance (its name without some of its first words); the n-th
    appliance of a type has its own entry."""
    seen, out = {}, []
    for i, t in enumerate(types):
        words = t.split('_')
        key = next((k for k in ('_'.join(words[j:]) for j in range(len(words))) if k in table), None)
        if key is None:
            out.append(default[i])
            continue
        seen[key] = seen.get(key, 0) + 1
        n = seen[key]
        out.append(table[key] if n == 1 else table.get('%s_%d' % (key, n), 0.))
    return out


def tables(keys):
    """All the tables with these keys, with a number of copies of each."""
    for copies in itertools.product((0, 1, 2, 3), repeat=len(keys)):
        t, v = {}, 1
        for k, c in zip(keys, copies):
            for j in range(c):
                t[k if j == 0 else '%s_%d' % (k, j + 1)] = v / 64
                v += 1
        yield t


def values(length, keys):
    def f(rec, scen):
        from demod.utils.appliances import get_ownership_from_dict, get_target_from_dict
        tabs = list(tables(keys))
        for types in scen:
            apps = {'type': np.array(types), 'equipped_prob': np.arange(length) / 32 + .5,
                    'target_switchons': np.arange(length) * 100. + 7, 'other': np.arange(length) * 10. + 1, 'number': length}
            keep = {k: np.array(v) for k, v in apps.items()}
            for tab in tabs:
                kept = dict(tab)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = {'equipped_prob': get_ownership_from_dict(apps, tab), 'target_switchons': get_target_from_dict(apps, tab),
                           'other': get_target_from_dict(apps, tab, default_key='other')}
                for k, g in got.items():
                    want = resolve(types, tab, apps[k])
                    rec.expect(isinstance(g, np.ndarray) and g.shape == (length,) and np.array_equal(g, want),
                               'ownership of an appliance is not the one of its type' if k == 'equipped_prob'
                               else 'target of an appliance is not the one of its type',
                               lambda: {'types': types, 'table': tab, 'got': g, 'want': want}, k)
                    rec.transition()
                rec.expect(kept == tab and all(np.array_equal(keep[k], v) for k, v in apps.items()), 'arguments are modified',
                           {'types': types, 'table': kept}, 'arguments')
                rec.state((types, tuple(sorted(tab))))
            rec.trace()
        rec.sample({'types': types, 'table': tab})
    return f


def closest(rec, scen):
    """The closest type: all words of up to 4 parts against all lists of known types."""
    from demod.utils.appliances import find_closest_type
    words = ['_'.join(p) for n in (1, 2, 3, 4) for p in itertools.product('ab', repeat=n)]
    for known in scen:
        for w in words:
            parts = w.split('_')
            want = next((k for k in ('_'.join(parts[j:]) for j in range(len(parts))) if k in known), False)
            for container in (list(known), dict.fromkeys(known, 1.)):
                got = find_closest_type(w, container)
                rec.expect(got == want and (want is not False or got is False), 'the closest type is wrong',
                           {'type': w, 'known': known, 'got': got, 'want': want}, 'closest')
            rec.transition()
        rec.state(known)
        rec.trace()


def copies(rec, scen):
    """Probabilities of owning a first, second, ... copy."""
    from demod.utils.appliances import assign_ownership_from_prob1_and_number as assign
    for den in scen:
        for a, b in itertools.product(range(-1, den + 2), range(-1, 4 * den + 1)):
            p, n = a / den, b / den
            bad = a < 0 or a > den or b < 0 or a > b
            try:
                got = assign(p, n)
            except ValueError:
                got = None
            if not rec.expect((got is None) == bad, 'impossible ownership accepted, or possible one refused',
                              {'prob': p, 'number': n, 'got': got}, 'impossible'):
                continue
            rec.transition()
            rec.state((den, a, b))
            if bad:
                continue
            rest = n - p
            want = [p] + [min(max(rest - i, 0.), 1.) for i in range(int(np.ceil(rest)) if rest > 0 else 1)]
            rec.expect(got[0] == p and all(-1e-12 <= x <= 1 for x in got) and abs(sum(got) - n) < 1e-9
                       and np.allclose(np.pad(got, (0, 8))[:9], np.pad(want, (0, 8))[:9], atol=1e-9),
                       'the copies owned do not add up to the number owned', {'prob': p, 'number': n, 'got': got}, 'copies')
            rec.trace()
        for p in (i / den for i in range(den + 1)):
            for nan in (np.nan, float('nan'), np.float64('nan'), np.float32('nan')):
                got = assign(p, nan)
                rec.expect(got[0] == p and abs(sum(got) - p) < 1e-12, 'a missing number is not the probability of owning one',
                           {'prob': p, 'got': got}, 'missing number')
                rec.transition()
    try:
        assign(.5, 1., algo='unknown')
        rec.fail('an unknown algorithm is accepted', None, 'algo')
    except ValueError:
        pass


def merging(rec, scen):
    """Merging the appliances of datasets."""
    from demod.utils.appliances import merge_appliance_dict as merge
    for ns, ks in scen:
        dics = []
        for j, (n, keys) in enumerate(zip(ns, ks)):
            d = _apps.appliances([{'type': 't%d%d' % (j, i), 'mean_duration': 10. * j + i, 'x': i, 'y': j} for i in range(n)])
            dics.append({k: v for k, v in d.items() if k not in ('x', 'y') or k in keys})
        keep = [{k: np.array(v) for k, v in d.items()} for d in dics]
        got = dics[0]
        for d in dics[1:]:
            got = merge(got, d)
        keys = set.intersection(*map(set, dics))
        rec.expect(set(got) == keys and got['number'] == sum(ns), 'keys or number of merged appliances are wrong',
                   {'got': sorted(got), 'number': got.get('number'), 'want': sorted(keys), 'numbers': ns}, 'merge keys')
        for k in keys - {'number'}:
            want = np.concatenate([d[k] for d in dics])
            rec.expect(np.array_equal(np.asarray(got[k]).astype(want.dtype), want), 'merged appliances are not those given, in order',
                       lambda: {'key': k, 'got': got[k], 'want': want}, 'merge')
        rec.expect(all(np.array_equal(a[k], b[k]) for a, b in zip(keep, dics) for k in a), 'merging modifies its arguments', ns, 'merge args')
        rec.transition()
        rec.trace()
        rec.state((ns, ks))


def simulated(rec, scen):
    """The appliances of a simulator have the ownership and the targets of their subgroup."""
    from demod.simulators.appliance_simulators import AppliancesSimulator, ActivityApplianceSimulator  # noqa
    from demod.simulators.appliance_simulators import OccupancyApplianceSimulator
    from mc.choice import distribution
    for types, tabs, ns, fam in scen:
        rows = [dict(type=t, equipped_prob=[.25, .75, .5][i % 3]) for i, t in enumerate(types)]
        data = _apps.Data(rows, profiles={'switchedON': {}, 'full': {}}, ownership=lambda sg: tabs[_apps.which(fam, sg)],
                          activity=lambda sg: {'active_occupancy': np.ones((144, 6))})

        def run(ch):
            sim = OccupancyApplianceSimulator(_apps.family(fam, len(tabs)), list(ns), data=data,
                                              initial_active_occupancy=np.zeros(sum(ns)))
            return tuple(map(tuple, np.asarray(sim.available_appliances).astype(int)))
        law, runs = distribution(run, grid=4)
        rec.transition(runs)
        rec.trace(runs)
        probs = [resolve(types, t, [r['equipped_prob'] for r in rows]) for t, k in zip(tabs, ns) for _ in range(k)]
        want = {}
        for bits in itertools.product((0, 1), repeat=sum(ns) * len(types)):
            w = Fraction(1)
            for b, p in zip(bits, (x for r in probs for x in r)):
                w *= Fraction(p) if b else 1 - Fraction(p)
            if w:
                n = len(types)
                want[tuple(bits[i:i + n] for i in range(0, len(bits), n))] = w
        rec.expect(law == want, 'households do not own appliances with the probability of their type', lambda: {
            'types': types, 'ownership': tabs, 'households': ns, 'got': law, 'want': want}, 'simulated')
        rec.state((types, len(tabs), ns, fam))


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    th = ck.thorough
    keys = ['hob', 'electric_hob', 'tv']
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        lists = list(itertools.product(TYPES, repeat=n))
        step = 16 if n > 2 else 1
        for j in range(step):
            ck.add('values of %d appliances %d' % (n, j), values(n, keys), lists[j::step])
    known = ['a', 'b', 'a_b', 'b_b', 'a_a_b', 'b_a']
    ck.add('closest', closest, [tuple(k for k, m in zip(known, mask) if m) for mask in itertools.product((0, 1), repeat=len(known))])
    ck.add('copies', copies, (1, 2, 3, 4, 8, 10) if not th else (1, 2, 3, 4, 7, 8, 10, 16, 100))
    ck.add('merging', merging, [(ns, ks) for m in (2, 3) for ns in itertools.product((1, 2, 3), repeat=m)
                                for ks in itertools.product(((), ('x',), ('x', 'y')), repeat=m)])
    q = {'hob': .25, 'hob_2': .75}
    sims = [(('hob',), [q]), (('hob', 'hob'), [q]), (('electric_hob', 'hob'), [q]), (('hob', 'electric_hob'), [q, {'hob': 1., 'electric_hob': .5}]),
            (('hob', 'tv'), [q, {'tv': .25}]), (('electric_hob', 'gas_hob'), [{'hob': .5}, q])]
    sims = [(t, x, (1,) * len(x)) for t, x in sims] + [
        (('hob',), [{'hob': .5}, q], (0, 2)), (('hob',), [q, {'hob': .75}], (2, 0)), (('hob', 'tv'), [q, {'tv': .25}, {'hob': 1.}], (0, 1, 0)),
        (('hob',), [{'hob': .5}, q, {'hob': .75}], (1, 0, 2))]
    for j, s in enumerate(sims):
        ck.add('simulated %d' % j, simulated, [s + (fam,) for fam in (range(4) if len(s[1]) > 1 else (0,))])
    ck.rule = ('all lists of up to %d appliances over %d types against all %d tables of up to 3 copies of 3 types; all names of '
               'up to 4 words; all ownerships in steps of a denominator; merges of up to 3 dictionaries' % (4 if th else 3, len(TYPES), 64))
    ck.assumptions = ['types of appliances do not end with a number', 'stub datasets']
