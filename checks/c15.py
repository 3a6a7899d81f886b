"""C15: thermostats and heating controls."""
import itertools

import numpy as np

from mc.choice import active, Fixed, distribution
from mc.util import interleave, law_diff
from checks._heat import Data, thermostat, controls, DEADBAND

LEVEL = 'model_checking'
NODES = (('hot_water', 'cylinder', 'dhw'), ('space_heating', 'interior', 'space_heating'), ('emitter', 'emitter', 'emitter'))


def make(n, data, init):
    from demod.simulators.heating_simulators import Thermostats
    with active(Fixed(1)):
        return Thermostats(n, init, data=data)


def histories(rec, scen):
    """Every sequence of temperatures around the dead bands; nodes and households follow different ones."""
    for n, bands, init, first, depth in scen:
        band = dict(zip(('hot_water', 'space_heating', 'emitter'), bands))
        data = Data(deadband=band)
        target = {'dhw': 50.0, 'space_heating': 20.0, 'emitter': 48.0}

        def level(node, k):
            _, _, t = node
            b = band[node[0]]
            return (target[t] - b - 1, target[t] - b, target[t] - b / 2, target[t], target[t] + b / 2, target[t] + b,
                    target[t] + b + 1)[k % 7]

        def temps(seq, k):
            # the lanes visit rotations of the same sequence of levels
            return {node[1]: np.array([level(node, (seq[k] + 3 * h + 2 * j) if (h or j) else seq[k]) for h in range(n)])
                    for j, node in enumerate(NODES)}
        for tail in itertools.product(range(7), repeat=depth):
            seq = (first,) + tail
            t0 = temps((init,), 0) if init is not None else None
            sim = make(n, data, t0)
            on = {nd[0]: [bool(t0[nd[1]][h] < target[nd[2]]) if t0 else False for h in range(n)] for nd in NODES}
            ok = True
            for k in range(-1, len(seq)):
                if k >= 0:
                    t = temps(seq, k)
                    keep = {a: b.copy() for a, b in t.items()}
                    sim.step(t)
                    ok &= rec.expect(all(np.array_equal(t[x], keep[x]) for x in t), 'temperatures given are modified',
                                     {'given': keep, 'after': t}, 'aliasing')
                    on = {nd[0]: [thermostat(on[nd[0]][h], t[nd[1]][h], target[nd[2]], band[nd[0]]) for h in range(n)]
                          for nd in NODES}
                got = sim.get_thermostat_states()
                rec.transition()
                rec.state((bands, n, k >= 0 and [seq[k]], sorted(on.items())))
                ok &= rec.expect(all(np.array_equal(np.asarray(got[x], bool), np.array(on[x])) for x in on),
                                 'thermostat states differ',
                                 lambda: {'dead bands': band, 'initial level': init, 'levels': seq[:k + 1], 'got': got,
                                          'want': on}, 'thermostat')
                if not ok:
                    return
            rec.trace()


def targets(rec, scen):
    """External targets: arrays, dictionaries and missing (nan) values."""
    nan = float('nan')
    for hist, n in scen:
        data = Data(homes=(20.0,))
        sim = make(n, data, None)
        target = {'dhw': [50.0] * n, 'space_heating': [20.0] * n, 'emitter': [48.0] * n}
        on = {nd[0]: [False] * n for nd in NODES}
        T = {'cylinder': np.full(n, 47.0), 'interior': np.full(n, 20.5), 'emitter': np.full(n, 47.5)}
        for k, ext in enumerate(hist):
            given = None
            if ext is not None:
                if isinstance(ext, dict):
                    given = {a: np.array(b[:n]) for a, b in ext.items()}
                    upd = ext
                else:
                    given = np.array(ext[:n])
                    upd = {'space_heating': ext}
                for a, b in upd.items():
                    target[a] = [target[a][h] if b[h] != b[h] else float(b[h]) for h in range(n)]
            if given is None:
                sim.step(T)
            else:
                sim.step(T, given)
            on = {nd[0]: [thermostat(on[nd[0]][h], T[nd[1]][h], target[nd[2]][h], DEADBAND[nd[0]]) for h in range(n)]
                  for nd in NODES}
            gt, gs = sim.get_target_temperatures(), sim.get_thermostat_states()
            rec.transition()
            rec.state((k, hist, n))
            if not rec.expect(all(np.array_equal(np.asarray(gt[x], float), np.array(target[x])) for x in target)
                              and all(np.array_equal(np.asarray(gs[x], bool), np.array(on[x])) for x in on),
                              'targets or thermostats differ with external targets',
                              lambda: {'history': hist[:k + 1], 'got': [gt, gs], 'want': [target, on]}, 'external'):
                return
        rec.trace()


def draws(rec, scen):
    """The set points are drawn per household from the dataset."""
    from demod.simulators.heating_simulators import Thermostats
    for homes, waters, n in scen:
        data = Data(homes=homes, waters=waters)

        def run(ch):
            sim = Thermostats(n, data=data)
            t = sim.get_target_temperatures()
            return tuple((float(t['space_heating'][h]), float(t['dhw'][h]), float(t['emitter'][h])) for h in range(n)), \
                tuple(bool(x) for s in sim.get_thermostat_states().values() for x in s)

        def ref(ch):
            return tuple((homes[ch.integer(0, len(homes))], waters[ch.integer(0, len(waters))], 48.0)
                         for _ in range(n)), (False,) * (3 * n)
        g = len(homes) * len(waters)
        got, runs = distribution(run, grid=g)
        want, _ = distribution(ref, grid=g)
        rec.trace(runs)
        rec.transition(runs)
        rec.state((homes, waters, n))
        rec.expect(got == want, 'law of the set points differs',
                   lambda: {'homes': homes, 'waters': waters, 'got,want': law_diff(got, want)}, 'set points')


def truth(rec, scen):
    """Controls: every combination of inputs, and every pair of successive ones."""
    from demod.simulators.heating_simulators import SystemControls
    B = (False, True)
    for combi, cyl in scen:
        inputs = list(itertools.product((0.0, 0.25, 3.5), B, B, B))
        n = len(inputs)

        def call(sim, rows, cyls):
            th = {k: np.array([r[i + 1] for r in rows]) for i, k in enumerate(('hot_water', 'space_heating', 'emitter'))}
            kw = {} if cyls is None else {'has_external_cylinder': np.array(cyls)}
            sim.step(np.array([r[0] for r in rows]), th, **kw)
            return sim.get_controls()
        for shift in range(n):
            # household i gets input i, then input i + shift: all pairs
            sim = SystemControls(n, None if combi is None else np.array([combi] * n))
            c0 = sim.get_controls()
            rec.expect(all(not np.any(v) for v in c0.values()), 'heating is on before the first step', {'controls': c0})
            for rows in (inputs, inputs[shift:] + inputs[:shift]):
                cyls = None if cyl is None else [cyl if isinstance(cyl, bool) else (i % 2 == 0) for i in range(n)]
                got = call(sim, rows, cyls)
                want = [controls(bool(combi), bool(cyls and cyls[i]), r[0], dict(hot_water=r[1], space_heating=r[2],
                                                                                 emitter=r[3])) for i, r in enumerate(rows)]
                rec.transition(n)
                for i, w in enumerate(want):
                    rec.state((combi, cyl, rows[i]))
                    if not rec.expect(all(bool(got[k][i]) == v for k, v in w.items()), 'heating controls differ',
                                      lambda: {'combi': combi, 'external cylinder': cyls and cyls[i],
                                               'dhw demand, hot water, space, emitter thermostats': rows[i],
                                               'got': {k: got[k][i] for k in w}, 'want': w}, 'controls'):
                        return
            rec.trace()


def build(ck):
    import demod.simulators.heating_simulators  # noqa
    th = ck.thorough
    hs = [(n, b, i, f, 4 if th else 3) for n in (1, 2, 3) for b in ((5.0, 1.0, 4.0), (2.0, 0.5, 8.0))
          for i in (None, 0, 3, 6) for f in range(7)]
    for j, s in enumerate(interleave(hs, 16)):
        ck.add('thermostats #%d' % j, histories, s)
    nan = float('nan')
    ext = (None, (22.0, 18.0), (nan, 23.0), (21, 22), {'space_heating': (nan, 22.0), 'emitter': (40.0, nan)},
           {'dhw': (41.0, 60.0)}, {'space_heating': (25.0, 15.0), 'dhw': (nan, nan), 'emitter': (60.0, 30.0)})
    hist = list(itertools.product(ext, repeat=4 if th else 3))
    for j, s in enumerate(interleave([(h, n) for h in hist for n in (1, 2)], 4)):
        ck.add('external targets #%d' % j, targets, s)
    ck.add('set points', draws, [(h, w, n) for h in ((20.0,), (18.0, 22.0), (17.5, 19.0, 23.0)) for w in ((50.0,), (45.0, 55.0))
                                 for n in (1, 2)])
    ck.add('controls', truth, list(itertools.product((None, False, True), (None, False, True, 'mixed'))))
    ck.rule = ('all sequences of %d temperatures around the dead bands for 1-3 households, all histories of external '
               'targets of length 3, complete truth table of the controls and of pairs of successive inputs' % (5 if th else 4))
    ck.assumptions = ['stub thermostat data']
