"""C01: Monte-Carlo samplers.

Exhaustive: every value cell of every random draw.  With pdf entries multiples
of 1/g and one alternative per cell of width 1/g, the law obtained by
enumerating all draws is the exact law of the sampler, jointly over samples.
A second family places draws exactly at, and one float away from, every cell
boundary (and at the extremes of [0, 1)).
"""
import itertools

import numpy as np

from mc import choice
from mc.choice import explore, distribution, MAX_DRAW
from mc.util import compositions, pdf_of, law_of, product_law, law_diff, ints, chunks, interleave

LEVEL = 'model_checking'
SAMPLERS1 = ('monte_carlo_from_1d_pdf', 'monte_carlo_from_1d_cdf')
SAMPLERSN = ('monte_carlo_from_pdf', 'monte_carlo_from_cdf')


def call1(mc, name, pdf, n):
    a = np.cumsum(pdf) if name.endswith('cdf') else np.array(pdf)
    keep = a.copy()
    a2 = a.copy()
    # one sample is drawn when their number is not given
    out = getattr(mc, name)(a2, n_samples=n) if n != 'default' else getattr(mc, name)(a2)
    return out, bool(np.array_equal(a2, keep))


def calln(mc, name, pdfs):
    a = np.cumsum(pdfs, axis=1) if name.endswith('cdf') else np.array(pdfs)
    a2 = a.copy()
    out = getattr(mc, name)(a2)
    return out, bool(np.array_equal(a2, a))


def law1(rec, scen):
    import demod.utils.monte_carlo as mc
    g, comps, ns = scen
    for comp in comps:
        pdf = pdf_of(comp)
        for name in SAMPLERS1:
            for given in ns + ('default',):
                n = 1 if given == 'default' else given
                case = {'sampler': name, 'pdf': pdf, 'n_samples': given}
                with_pure = [True]

                def run(ch):
                    out, pure = call1(mc, name, pdf, given)
                    if not pure:
                        with_pure[0] = False
                    return ints(out) if np.shape(out) == (n,) else ('shape', np.shape(out))
                law, k = distribution(run, grid=g)
                want = product_law([law_of(comp)] * n)
                rec.transition(k)
                rec.trace(k)
                for s in law:
                    rec.state((name, comp, s))
                rec.expect(law == want, '%s: law of the result is not the given distribution' % name,
                           {**case, 'got,want': law_diff(law, want)}, 'law %s' % name)
                rec.expect(with_pure[0], '%s modifies its input' % name, case, 'pure %s' % name)
        rec.sample({'pdf': pdf, 'grid': g, 'law': {str(k): str(v) for k, v in law.items()}})


def lawn(rec, scen):
    import demod.utils.monte_carlo as mc
    g, rows = scen
    for row in rows:
        pdfs = np.array([pdf_of(c) for c in row])
        for name in SAMPLERSN:
            pure_all = [True]

            def run(ch):
                out, pure = calln(mc, name, pdfs)
                pure_all[0] = pure_all[0] and pure
                return ints(out) if np.shape(out) == (len(row),) else ('shape', np.shape(out))
            law, k = distribution(run, grid=g)
            want = product_law([law_of(c) for c in row])
            rec.transition(k)
            rec.trace(k)
            for s in law:
                rec.state((name, row, s))
            rec.expect(law == want, '%s: joint law of the samples is not the product of the rows' % name,
                       {'pdfs': pdfs, 'got,want': law_diff(law, want)}, 'law %s' % name)
            rec.expect(pure_all[0], '%s modifies its input' % name, {'pdfs': pdfs}, 'pure %s' % name)
        rec.sample({'pdfs': pdfs, 'law': {str(k): str(v) for k, v in law.items()}})


def calls(rec, scen):
    """Successive calls are independent and identically distributed."""
    import demod.utils.monte_carlo as mc
    g = 4
    for comp in compositions(4, 3):
        pdf = pdf_of(comp)
        for name in SAMPLERS1 + SAMPLERSN:
            def once():
                if name in SAMPLERS1:
                    return ints(call1(mc, name, pdf, 1)[0])
                return ints(calln(mc, name, pdf[None, :])[0])
            law, k = distribution(lambda ch: once() + once() + once(), grid=g)
            want = product_law([law_of(comp)] * 3)
            rec.transition(k)
            rec.trace(k)
            for s in law:
                rec.state((name, comp, s))
            rec.expect(law == want, '%s: successive calls are not independent' % name,
                       {'pdf': pdf, 'got,want': law_diff(law, want)}, 'calls %s' % name)


def boundary_values(cdfs):
    vals = {0.0, 5e-324, 2.0 ** -53, 0.5, MAX_DRAW}
    for c in np.ravel(cdfs):
        for v in (np.nextafter(c, 0), c, np.nextafter(c, 1)):
            if 0 <= v < 1:
                vals.add(float(v))
    return sorted(vals)


def support(rec, scen):
    """No zero-probability index, whatever the draw (cell boundaries included)."""
    import demod.utils.monte_carlo as mc
    for pdf in scen:
        pdf = np.array(pdf, dtype=float)
        cdf = np.cumsum(pdf)
        vals = boundary_values(cdf)
        K = len(pdf)
        for name in SAMPLERS1:
            for res, ch in explore(lambda ch: call1(mc, name, pdf, 1)[0], grid=vals):
                r = int(res[0])
                rec.transition()
                rec.trace()
                rec.state((name, tuple(pdf), r))
                u = vals[ch.trace[0][0]] if ch.trace else None
                ok = 0 <= r < K and pdf[r] > 0
                # the index is the one whose cell holds the draw, up to rounding
                tol = abs(1.0 - cdf[-1]) + 1e-14
                near = ok and (cdf[r - 1] if r else 0.0) - tol <= u <= cdf[r] + tol
                rec.expect(ok, '%s: index of probability zero' % name,
                           {'pdf': pdf, 'draw': repr(u), 'index': r}, 'support %s' % name)
                rec.expect(near or not ok, '%s: draw maps to the wrong cell' % name,
                           {'pdf': pdf, 'draw': repr(u), 'index': r}, 'cell %s' % name)
        two = np.array([pdf, pdf[::-1]])
        c2 = np.cumsum(two, axis=1)
        # long rows: only the first and last cells
        v2 = boundary_values(c2 if K <= 8 else np.concatenate([c2[:, :2], c2[:, -3:]], axis=1))
        for name in SAMPLERSN:
            for res, ch in explore(lambda ch: calln(mc, name, two)[0], grid=v2):
                rec.transition()
                rec.trace()
                for i, r in enumerate(ints(res)):
                    rec.state((name, tuple(pdf), i, r))
                    case = {'pdfs': two, 'draws': [repr(v2[k]) for k, _ in ch.trace], 'index': r}
                    ok = rec.expect(0 <= r < K and two[i][r] > 0, '%s: index of probability zero' % name, case, 'support %s' % name)
                    if ok and len(ch.trace) == len(two):
                        u = v2[ch.trace[i][0]]
                        tol = abs(1.0 - c2[i, -1]) + 1e-14
                        rec.expect((c2[i, r - 1] if r else 0.0) - tol <= u <= c2[i, r] + tol,
                                   '%s: draw maps to the wrong cell' % name, case, 'cell %s' % name)
        rec.sample({'pdf': pdf, 'draws': [repr(v) for v in vals]})


def support_pdfs(thorough):
    out = []
    # tenths, sevenths, thirds with zeros in every position
    for t in ((7, 9, 10, 11) if thorough else (7, 10)):
        for comp in compositions(t, 3):
            out.append(tuple(c / t for c in comp))
    for n in (3, 5, 6, 7, 9, 10, 11, 13, 144):
        for z in (0, 1, 2):
            base = [1.0 / n] * n
            out.append(tuple([0.0] * z + base))
            out.append(tuple(base + [0.0] * z))
            out.append(tuple([0.0] + base + [0.0]) if n < 20 else tuple(base))
    # sums a rounding error away from one, as accepted by the cdf validity check
    for d in (-9e-7, -1e-7, -1e-12, -2.0 ** -53, 0.0, 2.0 ** -52, 1e-12, 9e-7):
        out.append((0.0, 0.5, 0.5 + d))
        out.append((0.0, 0.25, 0.75 + d, 0.0))
        out.append((0.0, 1.0 + d))
    # probabilities of very different sizes
    for e in (1e-5, 1e-7, 1e-9, 1e-12):
        for k in range(3):
            p = [0.25, 0.75 - e]
            p.insert(k, e)
            out.append(tuple(p))
        out.append((e, 1.0 - 3 * e, 2 * e))
    seen, res = set(), []
    for p in out:
        if p not in seen and sum(1 for x in p) <= 150:
            seen.add(p)
            res.append(p)
    return res


def build(ck):
    import demod.utils.monte_carlo  # noqa
    th = ck.thorough
    ck.rule = ('1-D: all pdfs with entries k/g over <=4 cells (g=4,8), 1..%d samples; N-D: all row pairs/triples of '
               'pdfs over 3 cells (g=4); boundaries: draws at and next to every cdf point' % (4 if th else 3))
    ck.assumptions = ['draws come from numpy.random or random; a draw is uniform on [0,1)']
    for K in (1, 2, 3, 4):
        for j, cs in enumerate(interleave(list(compositions(8, K)), 4)):
            ck.add('law1 K=%d #%d' % (K, j), law1, (8, cs, (1, 2) if not th else (1, 2, 3)))
    for j, cs in enumerate(interleave(list(compositions(4, 3)), 3)):
        ck.add('law1 g=4 #%d' % j, law1, (4, cs, (3,) if not th else (3, 4, 5)))
    c3 = list(compositions(4, 3))
    for j, rows in enumerate(interleave(list(itertools.product(c3, repeat=2)), 6)):
        ck.add('lawn pairs #%d' % j, lawn, (4, rows))
    triples = list(itertools.product([(1, 2, 1), (0, 4, 0), (0, 1, 3), (2, 0, 2), (4, 0, 0)], repeat=3))
    if th:
        triples = list(itertools.product(c3, repeat=3))
    for j, rows in enumerate(interleave(triples, 6)):
        ck.add('lawn triples #%d' % j, lawn, (4, rows))
    c4 = [tuple(c) for c in compositions(4, 4)]
    for j, rows in enumerate(interleave(list(itertools.product(c4, repeat=2)), 6)):
        ck.add('lawn 4 cells #%d' % j, lawn, (4, rows))
    ck.add('calls', calls)
    for j, ps in enumerate(interleave(support_pdfs(th), 8)):
        ck.add('support #%d' % j, support, ps)
