"""C04: SparseTPM against the dense array it represents, over all operation sequences."""
import itertools
import os
import tempfile
import warnings
from fractions import Fraction

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import compositions, pdf_of, law_of, product_law, law_diff, ints, interleave

LEVEL = 'model_checking'
G = 4


def sparse(dense, order=0, n_given=True, dead=None):
    """The entries of a dense array, in one of several orders.

    Order 4 also gives the transitions of probability zero."""
    from demod.utils.sparse import SparseTPM
    t, i, j = np.nonzero(dense) if order < 4 else (x.ravel() for x in np.indices(dense.shape))
    v = dense[t, i, j]
    if order == 1:
        p = np.arange(len(t))[::-1]
    elif order == 2:
        p = np.lexsort((i, j, t))
    elif order == 3:
        p = np.argsort((np.arange(len(t)) * 7 + 3) % 11, kind='stable')
    else:
        p = np.arange(len(t))
    kw = dict(n_states=dense.shape[1], n_times=dense.shape[0]) if n_given else {}
    given = [np.array(x[p]) for x in (t, i, j, v)]
    tpm = SparseTPM(*given, dead_state_value=dead, **kw)
    for x in given:
        x[:] = 9  # the arrays of the caller are not referenced
    return tpm


def check_reads(rec, tpm, dense, ctx):
    T, S = dense.shape[:2]
    ok = rec.expect(tuple(int(x) for x in tpm.shape) == dense.shape
                    and int(tpm.n_times) == T and int(tpm.n_states) == S,
                    'shape of the sparse TPM differs', lambda: {**ctx, 'got': tpm.shape, 'want': dense.shape}, 'shape')
    for t in range(-T, T):
        m = tpm[t]
        ok &= rec.expect(np.array_equal(m, dense[t]), 'reading a time differs from the dense array',
                         lambda: {**ctx, 'time': t, 'got': m, 'want': dense[t]}, 'getitem')
    ok &= rec.expect([x.tolist() for x in tpm] == dense.tolist(), 'iterating differs from the dense array',
                     lambda: ctx, 'iteration')
    return ok


def check_sampling(rec, tpm, dense, ctx, dead=None, n=1, only=None):
    """Exact law of the next states, for each time and each tuple of current states."""
    T, S = dense.shape[:2]
    for t in range(T):
        for st in itertools.product(range(S), repeat=n):
            rows = []
            for s in st:
                r = dense[t, s]
                if not r.any() and dead is not None:
                    r = dense[t, dead]
                rows.append({j: Fraction(int(round(x * G)), G) for j, x in enumerate(r) if x} or None)
            if dead is not None and any(r is None for r in rows):
                continue
            arr = np.array(st)

            def run(ch):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = tpm.sparse_monte_carlo(t, arr)
                return ints(out)
            law, runs = distribution(run, grid=G)
            rec.transition(runs)
            rec.trace(runs)
            if any(r is None for r in rows):  # law of the live ones only
                live = [k for k, r in enumerate(rows) if r is not None]
                m = {}
                for k, v in law.items():
                    kk = tuple(k[x] for x in live)
                    m[kk] = m.get(kk, 0) + v
                law, rows = m, [rows[k] for k in live]
            want = product_law(rows)
            rec.expect(law == want, 'sampled transitions differ from the dense row',
                       lambda: {**ctx, 'time': t, 'states': st, 'dead_state_value': dead,
                                'got,want': law_diff(law, want)}, 'sampling')
            rec.expect(np.array_equal(arr, st), 'sampling modifies the states of the caller',
                       lambda: {**ctx, 'time': t, 'states': st}, 'caller states')


def rows_of(S, empty):
    r = [pdf_of(c) for c in compositions(G, S)]
    return r + [np.zeros(S)] if empty else r


def single(rec, mats):
    """All 2-state matrices (any row may be empty), in schedules, with every sampling."""
    for j, (dense, order) in enumerate(mats):
        ctx = {'dense': dense, 'entry order': order}
        tpm = sparse(dense, order)
        rec.state(('m', dense.tobytes(), order))
        with active(Fixed(1)):
            check_reads(rec, tpm, dense, ctx)
        check_sampling(rec, tpm, dense, ctx, n=1 if dense.shape[1] > 2 else 2)
        for d in range(dense.shape[1]):
            check_sampling(rec, sparse(dense, order, dead=d), dense, ctx, dead=d, n=1)
        with active(Fixed(1)):
            check_reads(rec, tpm, dense, {**ctx, 'after': 'sampling'})
    rec.sample({'dense (last)': mats[-1][0], 'order': mats[-1][1]})


def edge_draws(rec, mats):
    """Draws at both ends of [0, 1): never a transition of probability zero."""
    eps = [0.0, 2.0 ** -53, 2.0 ** -30, 0.5 - 2.0 ** -53, 0.5, 1 - 2.0 ** -30, 1 - 2.0 ** -53]
    for dense, order in mats:
        S = dense.shape[1]
        tpm = sparse(dense, order)
        for t in range(dense.shape[0]):
            live = [s for s in range(S) if dense[t, s].any()]
            for st in itertools.combinations_with_replacement(live, 2):
                def run(ch):
                    return ints(tpm.sparse_monte_carlo(t, np.array(st)))
                law, runs = distribution(run, grid=eps)
                rec.transition(runs)
                rec.trace(runs)
                rec.state((dense.tobytes(), t, st))
                bad = [o for o in law if any(dense[t, s, o2] <= 0 for s, o2 in zip(st, o))]
                rec.expect(not bad, 'a transition of probability zero was sampled',
                           {'dense': dense, 'time': t, 'states': st, 'outcome': bad}, 'zero probability')


def tiny(rec, _):
    """Transitions of tiny probability still happen, for draws close enough to one end of their interval."""
    e = 2.0 ** -40
    rows = [[e, 1 - e, 0], [1 - e, e, 0], [0, e, 1 - e], [.5 - e, e, .5], [1 - 2 * e, e, e], [0, 0, 1]]
    grid = [0.0, e / 2, e, 1.5 * e, .5 - e / 2, .5 + e / 2, 1 - 1.5 * e, 1 - e / 2, 1 - 2.0 ** -53]
    for p in itertools.product(range(len(rows)), repeat=3):
        dense = np.array([[rows[k] for k in p]])
        tpm = sparse(dense, sum(p) % 5)
        for s in range(3):
            def run(ch):
                return ints(tpm.sparse_monte_carlo(0, np.array([s])))[0]
            law, runs = distribution(run, grid=grid)
            rec.transition(runs)
            rec.trace(runs)
            rec.state((p, s))
            rec.expect(set(law) == set(np.flatnonzero(dense[0, s]).tolist()), 'the transitions that can happen are not the ones of positive probability',
                       {'dense': dense, 'state': s, 'got': sorted(law)}, 'tiny')


def mixed(rec, mats):
    """Households in live and dead states in one call, without a dead state value."""
    for dense, order in mats:
        tpm = sparse(dense, order)
        rec.state((dense.tobytes(), order))
        check_sampling(rec, tpm, dense, {'dense': dense}, n=2)


MATS = {
    'a': np.array([[.5, .5, 0], [0, 0, 1], [.25, .25, .5]]),
    'b': np.array([[0, 1, 0], [0, 0, 0], [1, 0, 0.]]),
    'c': np.array([[0, 0, 0], [.75, 0, .25], [0, 1, 0]]),
    'z': np.zeros((3, 3)),
    't': np.array([[1 / 3, 1 / 3, 1 / 3], [.1, .9, 0], [0, 0, 1]]),
}


def histories(rec, scen):
    """Every sequence of operations up to the depth; reads compared after each."""
    start, first, depth = scen
    dense0 = np.array([MATS[k] for k in start])
    T = len(start)
    ops = [('set', t, m) for t in range(-1, T) for m in 'abz'] + [
        ('setalias', 0, T - 1), ('sample', T - 1), ('iter',), ('nested',), ('reload',), ('readmut', 0)]
    tmp = tempfile.mkdtemp()

    def apply(tpm, dense, op):
        if op[0] == 'set':
            v = MATS[op[2]].copy()
            tpm[op[1]] = v
            v[:] = 7  # the caller's matrix is not referenced
            dense[op[1]] = MATS[op[2]]
        elif op[0] == 'setalias':
            tpm[op[1]] = tpm[op[2]]
            dense[op[1]] = dense[op[2]]
        elif op[0] == 'sample':
            st = np.array([s for s in range(3) if dense[op[1], s].any()], dtype=int)
            if len(st):
                keep = st.copy()
                out = tpm.sparse_monte_carlo(op[1], st)
                rec.expect(np.array_equal(st, keep), 'sampling modifies the states of the caller', None, 'caller states')
                rec.expect(all(dense[op[1], s, o] > 0 for s, o in zip(st, out)),
                           'a transition of probability zero was sampled', {'dense': dense, 'states': st, 'got': out},
                           'zero probability')
        elif op[0] == 'iter':  # an iteration that is abandoned
            for m in tpm:
                break
        elif op[0] == 'nested':
            got = [(a.tolist(), b.tolist()) for a in tpm for b in tpm]
            want = [(a.tolist(), b.tolist()) for a in dense for b in dense]
            rec.expect(got == want, 'two iterations over one object interfere',
                       {'n pairs': len(got), 'want': len(want)}, 'nested iteration')
        elif op[0] == 'reload':
            from demod.utils.sparse import SparseTPM
            p = os.path.join(tmp, 'x')
            tpm.save(p)
            tpm = SparseTPM.load(p)
        elif op[0] == 'readmut':
            m = tpm[op[1]]
            m[:] = 5  # what was read is a copy
        return tpm, dense

    with active(Fixed(1)):
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = [ops[first]] + list(rest)
            tpm, dense = sparse(dense0, dead=None), dense0.copy()
            for k, op in enumerate(seq):
                tpm, dense = apply(tpm, dense, op)
                rec.transition()
                rec.state((k, dense.tobytes()))
                if k == len(seq) - 1 or op[0] == 'reload':
                    if not check_reads(rec, tpm, dense, {'start': start, 'operations': seq[:k + 1]}):
                        return
            rec.trace()
    rec.sample({'start': start, 'operations': seq})


def reload_dead(rec, mats):
    """Saving and loading keeps the behaviour in dead states."""
    from demod.utils.sparse import SparseTPM
    tmp = tempfile.mkdtemp()
    for dense, order in mats:
        for dead in (None, 0, 1):
            first = tpm = sparse(dense, order, dead=dead)
            p = os.path.join(tmp, 'y')
            tpm.save(p)
            tpm = SparseTPM.load(p)
            for t, s in itertools.product(range(dense.shape[0]), range(dense.shape[1])):
                def run(ch, x):
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        return ints(x.sparse_monte_carlo(t, np.array([s])))
                a, b = (distribution(lambda ch: run(ch, x), grid=G)[0] for x in (first, tpm))
                rec.expect(a == b, 'the reloaded TPM does not sample as the saved one',
                           lambda: {'dense': dense, 'dead_state_value': dead, 'time': t, 'state': s,
                                    'saved,reloaded': law_diff(b, a)}, 'reload sampling')
            check_reads(rec, tpm, dense, {'dense': dense, 'after': 'reload'})
            check_sampling(rec, tpm, dense, {'dense': dense, 'after': 'reload'}, dead=dead)
            rec.state((dense.tobytes(), dead))


def inferred(rec, _):
    """Without explicit sizes, the smallest array that holds all the transitions."""
    for T, S in ((1, 2), (2, 3), (3, 2)):
        for cells in itertools.combinations(itertools.product(range(T), range(S), range(S)), 2):
            n_t = max(c[0] for c in cells) + 1
            n_s = max(max(c[1:]) for c in cells) + 1
            dense = np.zeros((n_t, n_s, n_s))
            for c in cells:
                dense[c] = 1.0 if len({x[:2] for x in cells}) == 2 else .5
            with active(Fixed(1)):
                check_reads(rec, sparse(dense, n_given=False), dense, {'dense': dense, 'sizes': 'inferred'})
            rec.state(dense.tobytes())
            rec.transition()
            rec.trace()


def steps(rec, _):
    """Taking the matrices one by one, and the matrix without any transition."""
    from demod.utils.sparse import SparseTPM
    for n in (255, 256, 257, 300):
        dense = np.array([MATS['abctz'[k % 5]] for k in range(n)])
        tpm = sparse(dense)
        for t in (0, n - 1, 255 % n, 1):
            for k in 'ctz':
                tpm[t] = MATS[k]
                dense[t] = MATS[k]
                rec.transition()
                rec.expect(np.array_equal(list(tpm), dense), 'the assigned matrix is not at its time', {'times': n, 'time': t, 'matrix': k}, 'many times')
    for start in ('a', 'ab', 'zaz', 'cabz'):
        dense = np.array([MATS[k] for k in start])
        tpm = sparse(dense)
        for before in ('new', 'iter'):
            it = iter(tpm) if before == 'iter' else tpm
            got = []
            while len(got) < 9:
                try:
                    got.append(next(it))
                except StopIteration:
                    break
            rec.transition(len(got))
            rec.trace()
            rec.state((start, before))
            rec.expect(np.array_equal(got, dense), 'the matrices taken one by one differ from the dense array',
                       {'start': start, 'from': before, 'got': got, 'want': dense}, 'next')
    for kw in ({}, dict(n_states=2), dict(n_times=3), dict(n_states=2, n_times=3)):
        tpm = SparseTPM([], [], [], [], **kw)
        want = np.zeros((kw.get('n_times', 0), kw.get('n_states', 0), kw.get('n_states', 0)))
        rec.state(sorted(kw.items()))
        rec.transition()
        rec.expect(tuple(int(x) for x in tpm.shape) == want.shape and np.array_equal(np.array(list(tpm)).ravel(), want.ravel())
                   and len(list(tpm)) == len(want),
                   'an empty sparse TPM is not the empty dense array', {'sizes': kw, 'got': tpm.shape}, 'empty')


def reject(rec, _):
    from demod.utils.sparse import SparseTPM
    for n in itertools.product((0, 1, 2, 3, 4), repeat=4):
        try:
            SparseTPM(*[np.zeros(k, dtype=int) for k in n])
            accepted = True
        except Exception:
            accepted = False
        rec.transition()
        rec.state(n)
        rec.trace()
        rec.expect(accepted == (len(set(n)) == 1), 'inputs of mismatching lengths accepted (or matching ones refused)',
                   {'lengths': n}, 'lengths')
    tpm = sparse(np.array([MATS['a']]))
    for shape in ((2, 2), (3, 2), (2, 3), (4, 4), (3,), (1, 3, 3)):
        rec.transition()
        try:
            tpm[0] = np.zeros(shape)
        except Exception:
            continue
        rec.fail('a matrix of another size was assigned', {'shape': shape}, 'assign shape')


def build(ck):
    import demod.utils.sparse  # noqa
    th = ck.thorough
    rows = rows_of(2, True)
    m2 = [np.array(m) for m in itertools.product(rows, repeat=2)]
    mats = [(np.array([m]), o) for m in m2 for o in (0, 1, 2, 4)]
    mats += [(np.array(p), (k % 5)) for k, p in enumerate(itertools.product(m2, repeat=2))]
    three = [np.array([.5, .5, 0]), np.array([0, 0, 1]), np.array([.25, .5, .25]), np.array([0, 1., 0]), np.zeros(3)]
    m3 = [np.array(r) for r in itertools.product(three, repeat=3)]
    mats += [(np.array([m, MATS['a']]), k % 5) for k, m in enumerate(m3)]
    mats += [(np.array([MATS['z'], m, MATS['z']]), k % 5) for k, m in enumerate(m3[::3])]
    for j, s in enumerate(interleave(mats, 16)):
        ck.add('single #%d' % j, single, s)
    e3 = [(np.array([m]), k % 4) for k, m in enumerate(m3)] + mats[:40]
    # thirds and tenths: sums end a rounding error away from 1
    third = [np.array([1 / 3, 1 / 3, 1 / 3]), np.array([.1, .2, .7]), np.array([0, .9, .1]), np.array([.7, .3, 0]),
             np.array([0.1, 0, 0.9])]
    e3 += [(np.array([m]), 0) for m in itertools.product(third, repeat=3)]
    for j, s in enumerate(interleave(e3, 8)):
        ck.add('edge draws #%d' % j, edge_draws, s)
    ck.add('live and dead', mixed, [(np.array([m]), k % 4) for k, m in enumerate(m3)][:: 1 if th else 2])
    ck.add('reload dead', reload_dead, [(np.array([m]), k % 4) for k, m in enumerate(m3)][:: 1 if th else 4]
           + [(np.array([MATS['z'], MATS['a'], MATS['z']]), 0)])
    depth = 4 if th else 3
    for start in ('ab', 'z', 'zaz', 'bc', 'az'):
        n_ops = (len(start) + 1) * 3 + 6
        for f in range(n_ops):
            ck.add('history %s %d' % (start, f), histories, (start, f, depth if len(start) < 3 else 3))
    ck.add('inferred', inferred)
    ck.add('tiny', tiny)
    ck.add('reject', reject)
    ck.add('steps', steps)
    ck.rule = ('all 2-state matrices with entries k/4 and empty rows, in schedules of 1 and 2 and 5 entry orders (one with explicit zeros); '
               '125 3-state matrices; every operation sequence of length %d over 12-18 operations; every draw cell '
               'and the draws at both ends of [0,1)' % depth)
    ck.assumptions = ['draws come from numpy.random or random']
