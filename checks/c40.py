"""C40: simulators do not influence one another, over all interleavings of their operations."""
import copy
import functools
import itertools
import multiprocessing
import os
import pickle
import subprocess
import sys

import numpy as np

from checks.c06 import call, getters
from mc.choice import Fixed, active
from mc.util import same

LEVEL = 'model_checking'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Args:
    """Everything a caller hands over in constructors and steps, and what it was worth then."""

    def __init__(self):
        self.given = []

    def record(self, where, args, kw):
        for a in [*args, *kw.values()]:
            if isinstance(a, (np.ndarray, dict)) or isinstance(a, list) and not any(hasattr(x, 'step') for x in a):
                self.given.append((where, a, copy.deepcopy(a)))

    def changed(self):
        return [(w, was, a) for w, a, was in self.given if not same(a, was)]


class Memo:
    """A data object whose answers are kept, and given again to whoever asks the same."""

    def __init__(self, data):
        self._data, self._kept = data, {}

    def __getattr__(self, name):
        v = getattr(self._data, name)
        if not callable(v) or not name.startswith('load'):
            return v

        def ask(*a, **kw):
            key = (name, repr(a), repr(sorted(kw.items())))
            if key not in self._kept:
                self._kept[key] = v(*a, **kw)
            return self._kept[key]
        return ask


class patched:
    """While simulators are built: what their constructors are given is recorded, and their data replaced."""

    def __init__(self, args=None, memo=None):
        self.args, self.memo, self.depth = args, memo, 0

    def __enter__(self):
        from demod.simulators.base_simulators import Simulator
        todo, seen = [Simulator], []
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.append(c)
            todo += c.__subclasses__()
        self.old = [(c, c.__dict__['__init__']) for c in seen if '__init__' in c.__dict__]
        for c, init in self.old:
            setattr(c, '__init__', self.wrap(c, init))

    def wrap(self, c, init):
        @functools.wraps(init)
        def f(obj, *a, **kw):
            if self.args is not None and not self.depth:
                self.args.record(f'{type(obj).__name__}()', a, kw)
            if self.memo is not None and kw.get('data') is not None and not isinstance(kw['data'], Memo):
                kw['data'] = self.memo(kw['data'])
            self.depth += 1
            try:
                return init(obj, *a, **kw)
            finally:
                self.depth -= 1
        return f

    def __exit__(self, *a):
        for c, init in self.old:
            setattr(c, '__init__', init)


class Proc:
    """One simulator with random numbers of its own, moved one operation at a time."""

    def __init__(self, entry, seed, shift=0, variant=0, args=None, memo=None):
        self.variant = variant
        (self.name, self.make, self._step), self.shift = entry, shift
        self.rnd, self.k, self.sim, self.args, self.memo = Fixed(seed), -1, None, args, memo

    def move(self):
        with active(self.rnd):
            if self.sim is None:
                from mc import zoo
                zoo.V = self.variant
                try:
                    with patched(self.args, self.memo):
                        self.sim = self.make()
                finally:
                    zoo.V = 0
                if self.args is not None:
                    inner, args = self.sim.step, self.args

                    def step(*a, **kw):
                        args.record(f'{self.name}.step', a, kw)
                        return inner(*a, **kw)
                    self.sim.step = step
            else:
                self._step(self.sim, self.k + self.shift)
        self.k += 1

    def see(self):
        with active(self.rnd):
            return {g: call(self.sim, g) for g in getters(self.sim)}


def alone(entry, who, K):
    p, out = Proc(entry, *who), []
    for _ in range(K + 1):
        p.move()
        out.append(p.see())
    return out


def plain(x):
    return isinstance(x, (str, int, float, type(None))) or isinstance(x, (list, tuple)) and all(map(plain, x)) or \
        isinstance(x, dict) and all(map(plain, x.values()))


class Sharing:
    """The data objects of one run: two that are made alike become one."""

    def __init__(self):
        self.memos = {}

    def __call__(self, d):
        key = type(d).__name__, repr([(k, v) for k, v in sorted(vars(d).items()) if plain(v)])
        return self.memos.setdefault(key, Memo(d))


def entries():
    """Simulators of all kinds, and appliances with real load profiles."""
    from mc.zoo import ZOO
    more = [(f'{n} with profiles', functools.partial(make, real_profiles_algo='uniform'), step)
            for n, make, step in ZOO if 'Appliance' in n]
    return ZOO + more


def entry_of(name):
    return next(e for e in entries() if e[0] == name)


def _child(conn, name, who, K):
    try:
        conn.send_bytes(pickle.dumps(('ok', alone(entry_of(name), who, K))))
    except Exception as e:
        conn.send_bytes(pickle.dumps(('error', f'{type(e).__name__}: {e}')))
    conn.close()


def first_of_all(name, who, K):
    """What the simulator reports in a process where no other one ever existed."""
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_child, args=(b, name, who, K))
    p.start()
    b.close()
    try:
        out = pickle.loads(a.recv_bytes())
    except EOFError:
        out = ('error', 'the process ended')
    p.join()
    return out


class Truth:
    """The values of the lone simulator, computed before anything else runs."""

    def __init__(self, K):
        self.K, self.v = K, {}

    def fill(self, name, who):
        self.v[name, who] = first_of_all(name, who, self.K)

    def get(self, name, who):
        kind, v = self.v[name, who]
        if kind == 'error':
            raise ValueError(f'{name} alone: {v}')
        return v


def compare(rec, got, want, p, why):
    rec.expect(set(got) == set(want), f'{p.name} answers the same questions', lambda: f'{why}: {set(got) ^ set(want)}',
               key=f'{p.name} getters')
    for g in got:
        if g in want:
            rec.expect(same(got[g], want[g], 1e-9), f'{p.name}.{g[0]} does not depend on other simulators',
                       lambda: f'after {p.k} steps, {why}: {got[g]!r}, alone {want[g]!r}', key=f'{p.name}.{g[0]}')


# random sequence, first input and dataset of each simulator run
WHO = ((3, 0, 0), (5, 2, 1), (8, 1, 2))
SAME = ((3, 0, 0), (5, 2, 0), (8, 1, 0))


def scen_interleave(names, truth, n_moves, memo):
    """All orders of the operations; seen all along or only at the end."""
    def f(rec, scen):
        who = SAME if memo else WHO
        want = [truth.get(n, w) for n, w in zip(names, who)]
        m = len(names)
        for order in sorted(set(itertools.permutations([i for i in range(m) for _ in range(n_moves)]))) \
                if m * n_moves <= 8 else orders(m, n_moves):
            for see in ('all along', 'at the end'):
                args, share = Args(), Sharing() if memo else None
                ps = [Proc(entry_of(n), *w, args=args, memo=share) for n, w in zip(names, who)]
                why = f'{" and ".join(names)}, operations in order {order}, seen {see}'
                for i in order:
                    ps[i].move()
                    rec.transition()
                    if see == 'all along':
                        for p in ps:
                            if p.sim is not None:
                                compare(rec, p.see(), want[ps.index(p)][p.k], p, why)
                for p, w in zip(ps, want):
                    compare(rec, p.see(), w[p.k], p, why)
                for where, was, now in args.changed():
                    rec.fail(f'{where} leaves what it is given as it was', f'{why}: given {was!r}, became {now!r}',
                             key=f'{where} arguments')
                rec.trace()
            rec.state((tuple(names), order))
    return f


def orders(m, n):
    """All words with n of each of m letters."""
    def go(left):
        if not any(left):
            yield ()
            return
        for i in range(m):
            if left[i]:
                for rest in go(left[:i] + (left[i] - 1,) + left[i + 1:]):
                    yield (i, *rest)
    return go((n,) * m)


GENUINE = '''
import hashlib, os, pickle, sys
sys.path.insert(0, {here!r})
import numpy as np, random
from checks.c06 import call, getters
from checks.c40 import entries
out, ends = {{}}, {{}}
np.set_printoptions(threshold=10000)
for name, make, step in entries()[::{order}]:
    for again in range(3):
        np.random.seed(11 + again // 2)
        random.seed(11)
        try:
            s = make()
            v = []
            for k in range({K}):
                step(s, k)
                v += [(g, call(s, g)) for g in getters(s)]
            out[name, again] = v
            ends[again] = repr(np.random.get_state())
            if again == 2:
                del out[name, again]
                out[name, 'other'] = ends[0] == ends[1] != ends[2]
        except Exception as e:
            out[name, min(again, 1)] = 'raised %s: %s' % (type(e).__name__, e)
print('\\n' + pickle.dumps(out).hex(), flush=True)
'''


def scen_seed(K):
    """Same seed, same results: whatever ran before, and whatever the hash seed of the process."""
    def f(rec, scen):
        outs = {}
        for h in ('0', '1', '2', '3', '77', '1234'):
            for order in ((1, -1) if h in '01' else (1,)):
                p = subprocess.run([sys.executable, '-W', 'ignore', '-c', GENUINE.format(here=HERE, order=order, K=K)],
                                   env={**os.environ, 'PYTHONHASHSEED': h}, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, cwd=HERE)
                rec.expect(p.returncode == 0, 'simulators of all kinds run in one process', lambda: p.stderr[-500:],
                           key='process')
                outs[h, order] = pickle.loads(bytes.fromhex(p.stdout.split()[-1].decode())) if p.returncode == 0 else {}
                rec.trace()
        first = outs['0', 1]
        for (h, order), out in outs.items():
            for (name, again), v in out.items():
                rec.transition()
                rec.state((h, order, name, again))
                if again == 'other':
                    rec.expect(v, f'{name} leaves the random numbers to the seed given by the user',
                               'the state of the generator is the same after other seeds, or not the same after the same one',
                               key=f'{name} seed')
                    continue
                w = first.get((name, 0))
                if isinstance(v, str) or isinstance(w, str):
                    rec.expect(v == w, f'{name}: same seed, same results', lambda: f'{v!r}, {w!r}', key=f'{name} seed')
                    continue
                for (g, x), (_, y) in zip(v, w):
                    rec.expect(same(x, y), f'{name}.{g[0]}: same seed, same results',
                               lambda: f'hash seed {h}, order {order}, run {again}: {x!r}; first run {y!r}',
                               key=f'{name} seed')
    return f


def build(ck):
    import demod.simulators.appliance_simulators  # noqa
    import demod.simulators.crest_simulators  # noqa
    import demod.simulators.heating_simulators  # noqa
    import demod.simulators.lighting_simulators  # noqa
    import demod.simulators.sparse_simulators  # noqa
    import demod.simulators.weather_simulators  # noqa
    K = 5 if ck.thorough else 3
    ck.rule = 'all interleavings of the operations (construction, steps) of two or three simulators of every kind, each with ' \
              'random numbers of its own; same seeds under different histories and hash seeds of the process'
    ck.assumptions = ['one simulator alone, in a process of its own, is the reference',
                      'simulators are compared by what their getters report']
    truth = Truth(K)
    names = [e[0] for e in entries()]
    for n in names:
        for w in {*WHO, *SAME}:
            truth.fill(n, w)
    slow = ('SubgroupsActivitySimulator',)
    for n in names:
        m = 2 if n in slow else K
        for memo in (False, True):
            ck.add(f'two of a kind: {n}{", same data" if memo else ""}',
                   lambda r, s, a=([n, n], truth, m + 1, memo): scen_interleave(*a)(r, s), {'operations': m + 1})
            ck.add(f'three of a kind: {n}{", same data" if memo else ""}',
                   lambda r, s, a=([n, n, n], truth, 3 if ck.thorough and n not in slow else 2, memo): scen_interleave(*a)(r, s),
                   {'operations': 2})
    for a, b in itertools.combinations(names, 2):
        m = 3 if ck.thorough else 2
        ck.add(f'{a} and {b}', lambda r, s, x=([a, b], truth, m, True): scen_interleave(*x)(r, s), {'operations': m})
    ck.add('seeds', scen_seed(6), {'steps': 6})
