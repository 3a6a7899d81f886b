"""C23: sampling of a population from the probabilities of its subgroups."""
from fractions import Fraction
from math import comb

import numpy as np

from mc.choice import distribution, Fixed, active
from mc.util import compositions, pdf_of, product_law, law_of, law_diff, interleave, ints

LEVEL = 'model_checking'


def real(rec, scen):
    from demod.simulators.util import sample_population
    for c, N, total in scen:
        for pdf in (pdf_of(c), np.array(c) * (1 / total), np.array(c) / total * (1 - 3e-7), np.array(c) / total * (1 + 3e-7)):
            keep = pdf.copy()
            prev = None
            for n in range(1, N + 1):
                got = sample_population(n, pdf)
                ctx = {'pdf': pdf, 'n': n, 'got': got}
                ok = rec.expect(len(got) == len(c) and got.sum() == n and got.min() >= 0 and got.dtype.kind in 'iu',
                                'the sampled households do not add up to the number requested', ctx, 'real total')
                ok = ok and rec.expect(all(g == 0 for g, k in zip(got, c) if k == 0),
                                       'a subgroup of probability zero is sampled', ctx, 'real zero')
                ok = ok and rec.expect(all(abs(g - n * k / total) < 2 - 1e-9 for g, k in zip(got, c)),
                                       'the sampled households do not follow the probabilities', ctx, 'real proportions')
                again = sample_population(n, pdf, 'real_population')
                rec.expect(np.array_equal(got, again), 'the real population is not deterministic', ctx, 'real deterministic')
                rec.transition()
            rec.expect(np.array_equal(keep, pdf), 'the pdf given is modified', {'before': keep, 'after': pdf}, 'caller pdf')
            rec.state((c, N))
        rec.trace()
    rec.sample({'weights': c, 'n': N})


def monte_carlo(rec, scen):
    from demod.simulators.util import sample_population
    for c, n in scen:
        g = sum(c)
        law, runs = distribution(lambda ch: ints(sample_population(n, pdf_of(c), 'monte_carlo')), grid=g)
        want = {}
        for v, p in product_law([law_of(c)] * n).items():
            k = tuple(v.count(i) for i in range(len(c)))
            want[k] = want.get(k, 0) + p
        rec.expect(law == want, 'the law of the sampled population is not multinomial',
                   lambda: {'weights': c, 'n': n, 'got,want': dict(list(law_diff(law, want).items())[:6])}, 'monte carlo')
        rec.transition(runs)
        rec.trace(runs)
        for s in law:
            rec.state((c, n, s))


def invalid(rec, scen):
    from demod.simulators.util import sample_population
    for pdf in scen:
        for algo in ('real_population', 'monte_carlo'):
            with active(Fixed(1)):
                try:
                    got = sample_population(5, np.array(pdf), algo)
                    rec.fail('a pdf that does not sum up to one is accepted', {'pdf': pdf, 'algo': algo, 'got': got}, 'invalid')
                except ValueError:
                    pass
            rec.transition()
            rec.state((pdf, algo))
    try:
        sample_population(5, np.array([1.]), 'another')
        rec.fail('an unknown algorithm is accepted', None, 'unknown algorithm')
    except NotImplementedError:
        pass
    rec.trace()


def build(ck):
    import demod.simulators.util  # noqa
    th = ck.thorough
    rs = []
    for parts, total in ((1, 1), (2, 7), (3, 6), (3, 10), (4, 6), (5, 4), (6, 3)) + (((4, 10), (5, 8), (6, 6), (3, 30)) if th else ()):
        for c in compositions(total, parts):
            rs.append((c, 60 if not th else 200, total))
    for j, s in enumerate(interleave(rs, 16)):
        ck.add('real #%d' % j, real, s)
    ms = [(c, n) for parts, total in ((1, 1), (2, 3), (3, 4), (4, 3)) for c in compositions(total, parts)
          for n in range(1, (6 if th else 5) if total < 4 else (5 if th else 4))]
    for j, s in enumerate(interleave(ms, 16)):
        ck.add('monte carlo #%d' % j, monte_carlo, s)
    ck.add('invalid', invalid, [c for k in (1, 2, 3) for c in __import__('itertools').product((0., .25, .5, 1.), repeat=k)
                                if abs(sum(c) - 1) > 1e-3])
    ck.rule = ('real population: %d probability vectors and all numbers of households to %d; Monte Carlo: all draws for %d '
               'vectors and numbers' % (len(rs), rs[0][1], len(ms)))
    ck.assumptions = ['probabilities are multiples of 1/3 to 1/10 (1/30 with the thorough tier), also scaled by 3e-7']
