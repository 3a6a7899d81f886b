"""Explicit-state exploration of an implementation against a reference kernel.

States are reached by re-execution (no snapshotting), merged only when both the
observable state and a fingerprint of all the data the object holds agree.
"""
from __future__ import annotations

from fractions import Fraction

from .choice import Chooser, HarnessError, TooMany, explore
from .util import fingerprint, law_diff


def kernel_bfs(rec, make, step, abstract, depth, model_init, model_kernel, what,
               inv=None, detail=None, max_nodes=20000, fp=fingerprint, key=None, **chooser_kw):
    """Compare, in every reachable state up to `depth`, the exact law of the next
    observable state with the reference kernel.

    make() -> object (its draws are the initial law); step(obj, d) performs the
    (d+1)-th step; abstract(obj) -> hashable observable; inv(obj, d, abs) -> None
    or an error text.
    """
    detail = detail or {}
    nodes = {}

    def run0(ch):
        o = make()
        a = abstract(o)
        e = inv(o, 0, a) if inv else None
        return a, hash(fp(o)), e

    law = {}
    for (a, f, e), ch in explore(run0, **chooser_kw):
        law[a] = law.get(a, 0) + ch.weight()
        nodes.setdefault((a, f), list(ch.trace))
        rec.transition()
        rec.state(('0', what, str(a), f))
        if e:
            rec.fail('%s: %s' % (what, e), {**detail, 'step': 0, 'state': a}, key or what)
    want = model_init
    if want is not None and law != {k: v for k, v in want.items() if v}:
        rec.fail('%s: initial law differs' % what, {**detail, 'got,want': law_diff(law, want)}, key or what)
        return False
    ok = True
    for d in range(depth):
        nxt = {}
        for (a, f), path in nodes.items():
            def run(ch):
                o = make()
                for i in range(d):
                    step(o, i)
                if abstract(o) != a:
                    raise HarnessError('re-execution reached another state')
                step(o, d)
                b = abstract(o)
                e = inv(o, d + 1, b) if inv else None
                return b, hash(fp(o)), e
            law = {}
            c = Chooser((), **chooser_kw)
            c.trace = list(path)
            pw = c.weight()
            for (b, g, e), ch in explore(run, prefix=path, **chooser_kw):
                law[b] = law.get(b, 0) + ch.weight() / pw
                nxt.setdefault((b, g), list(ch.trace))
                rec.transition()
                rec.trace()
                if e:
                    rec.fail('%s: %s' % (what, e), {**detail, 'step': d + 1, 'from': a, 'to': b}, key or what)
                    ok = False
            want = model_kernel(d, a)
            if want is not None:
                want = {k: v for k, v in want.items() if v}
                if law != want:
                    rec.fail('%s: law of the next state differs' % what,
                             {**detail, 'step': d + 1, 'from': a, 'got,want': law_diff(law, want)}, key or what)
                    return False
        nodes = nxt
        for n in nodes:
            rec.state((str(d), what, str(n[0]), n[1]))
        if len(nodes) > max_nodes:
            raise TooMany('%d states at depth %d' % (len(nodes), d))
        if not ok:
            return False
    return True
