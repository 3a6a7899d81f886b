"""Verdicts, counters, evidence files, known findings and replay files."""
from __future__ import annotations

import concurrent.futures
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import sys
import time
import traceback

from .choice import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MC_OUT') or VERIF  # MC_OUT: development only


def _default(o):
    import numpy as np
    from fractions import Fraction
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if isinstance(o, bytes):
        return o.hex()
    return str(o)


def to_json(o):
    return json.dumps(o, default=_default, sort_keys=True)


def _strkeys(o):
    if isinstance(o, dict):
        return {str(k): _strkeys(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_strkeys(v) for v in o]
    return o


def digest(o):
    if not isinstance(o, (bytes, str)):
        o = to_json(_strkeys(o))
    if isinstance(o, str):
        o = o.encode()
    return hashlib.blake2b(o, digest_size=10).digest()


class Enough(BaseException):
    """The scenario has failed often enough."""


class Rec:
    """What one scenario of a check covered and found."""

    MAX_FAILS = 40

    def __init__(self, scenario):
        self.scenario = scenario
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.notes = {}

    def state(self, s):
        d = digest(s)
        new = d not in self.states
        self.states.add(d)
        return new

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def case(self, key=None, n=1):
        """One evaluated case; key identifies it when it is non-trivial."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(digest(key))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(json.loads(to_json(_strkeys(obj))))

    def fail(self, what, detail=None, key=None):
        """The property does not hold: `key` names the failing input or history."""
        if len(self.fails) < self.MAX_FAILS:
            self.fails.append({
                'what': what, 'key': key or what, 'scenario': str(self.scenario),
                'detail': json.loads(to_json(_strkeys(detail))) if detail is not None else None,
            })
        if len(self.fails) == self.MAX_FAILS and not load_known(None):
            self.fails.append(dict(self.fails[-1]))
            raise Enough()

    def expect(self, cond, what, detail=None, key=None):
        if not cond:
            self.fail(what, detail() if callable(detail) else detail, key)
        return bool(cond)


def from_demod(tb):
    """Does the traceback pass through the code under test, deeper than the check?"""
    last = None
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if os.sep + 'demod' + os.sep in fn and os.sep + 'verif' + os.sep not in fn:
            last = fr
    return last is not None


class guard:
    """Context: an exception escaping from the code under test is a violation."""

    def __init__(self, rec, what, detail=None, key=None):
        self.a = (rec, what, detail, key)
        self.ok = True

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, HarnessError):
            return False
        if not from_demod(tb):
            return False
        rec, what, detail, key = self.a
        self.ok = False
        rec.fail('%s: raised %s: %s' % (what, et.__name__, str(ev)[:300]),
                 {'case': detail() if callable(detail) else detail,
                  'traceback': traceback.format_exception(et, ev, tb)[-6:]}, key)
        return True


def _run_one(args):
    fn, name, scen = args
    rec = Rec(name)
    err = None
    t0 = time.time()
    import warnings
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            with guard(rec, 'scenario %s' % name):
                fn(rec, scen)
    except Enough:
        pass
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError) as e:
        # in the check, from what it was given by the code under test
        rec.fail('scenario %s: the result cannot be read: %s: %s' % (name, type(e).__name__, str(e)[:300]),
                 {'traceback': traceback.format_exception(e)[-6:]})
    except Exception:
        err = traceback.format_exc()
    rec.seconds = time.time() - t0
    return name, rec, err


class Check:
    def __init__(self, prop, level, tier, seed, replay=None):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.t0 = time.time()
        self.jobs = []
        self.notes = {}
        self.assumptions = []
        self.rule = ''
        self.replay = replay
        self.exhaustive = True

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, name, fn, scen=None):
        """Register a scenario: fn(rec, scen) explores it completely."""
        self.jobs.append((fn, name, scen))

    def run(self, workers=None):
        if self.replay:
            with open(self.replay) as f:
                want = json.load(f)['scenario']
            self.jobs = [j for j in self.jobs if j[1] == want]
            print('replaying scenario', want)
        names = [j[1] for j in self.jobs]
        if len(set(names)) != len(names):
            raise HarnessError('scenario names are not unique')
        if not self.jobs:
            raise HarnessError('no scenario')
        workers = workers or int(os.environ.get('MC_WORKERS', '8'))
        out = []
        if workers == 1 or len(self.jobs) == 1:
            for j in self.jobs:
                out.append(_run_one(j))
                if os.environ.get('MC_FIRST') and out[-1][1].fails:  # development only
                    break
        else:
            global _JOBS
            _JOBS = self.jobs
            out = self.parallel(min(workers, len(self.jobs)))
        return self.finish(out)

    def parallel(self, workers):
        out = []
        pool = concurrent.futures.ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context('fork'))
        futures = {pool.submit(_run_idx, i): i for i in range(len(self.jobs))}
        limit = None if self.thorough else float(os.environ.get('MC_LIMIT', '780'))
        done, late = concurrent.futures.wait(futures, timeout=limit)
        running = [f for f in late if f.running()][:workers]
        if late:
            for p in list(pool._processes.values()):
                p.kill()
        pool.shutdown(wait=not late, cancel_futures=True)
        for f, i in futures.items():
            name = self.jobs[i][1]
            if f in running:
                rec = Rec(name)
                rec.fail('scenario %s: has not ended after %d s' % (name, limit))
                rec.seconds = limit
                out.append((name, rec, None))
            elif f in done:
                try:
                    out.append(f.result())
                except Exception:
                    rec = Rec(name)
                    rec.seconds = 0
                    out.append((name, rec, traceback.format_exc()))
        return out

    def finish(self, out):
        errs = [(n, e) for n, _, e in out if e]
        recs = [r for _, r, _ in out]
        states = set()
        distinct = set()
        tot = dict(transitions=0, traces=0, evaluations=0)
        samples = []
        fails = []
        for r in recs:
            states |= {digest(str(r.scenario).encode() + s) for s in r.states}
            distinct |= {digest(str(r.scenario).encode() + s) for s in r.distinct}
            tot['transitions'] += r.transitions
            tot['traces'] += r.traces
            tot['evaluations'] += r.evaluations
            fails += r.fails
            for s in r.samples:
                if len(samples) < 12:
                    samples.append({'scenario': str(r.scenario), 'case': s})
        known = load_known(self.prop)
        knownhits, viol = {}, []
        for f in fails:
            k = match_known(known, f)
            if k is not None:
                knownhits.setdefault(k['key'], f)
            else:
                viol.append(f)
        for k, f in sorted(knownhits.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, [x for x in known if x['key'] == k][0]['what']))
        wall = time.time() - self.t0
        if os.environ.get('MC_TIMES'):
            for r in sorted(recs, key=lambda r: -r.seconds)[:12]:
                print('   %6.1fs %s' % (r.seconds, r.scenario))
        cov = {}
        if self.level == 'model_checking':
            cov.update(states=len(states), transitions=tot['transitions'],
                       traces_validated_against_impl=tot['traces'])
        else:
            cov.update(evaluations=tot['evaluations'], distinct_nontrivial=len(distinct), rule=self.rule)
        cov['samples'] = samples or ['(none)']
        cov['scenarios'] = len(recs)
        cov['exhaustive'] = bool(self.exhaustive and not errs)
        if self.level == 'model_checking':
            cov['bounds'] = self.rule
        cov.update(self.notes)
        if not self.replay:
            os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
            ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
                  'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 3),
                  'violations': len(viol)}
            with open(os.path.join(OUT, 'evidence', self.prop + '.json'), 'w') as fh:
                json.dump(json.loads(to_json(_strkeys(ev))), fh, indent=1, sort_keys=True)
        print('%s [%s]: %d scenarios, %s, %.1fs' % (
            self.prop, self.tier, len(recs),
            ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)), wall))
        if viol:
            d = os.path.join(OUT, 'replays')
            os.makedirs(d, exist_ok=True)
            seen = set()
            shown = 0
            for v in viol:
                if v['key'] in seen:
                    continue
                seen.add(v['key'])
                p = os.path.join(d, '%s-%s.json' % (self.prop, digest(v['key'] + v['scenario']).hex()[:8]))
                with open(p, 'w') as fh:
                    json.dump({'property': self.prop, **v}, fh, indent=1, sort_keys=True)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('   scenario %s: %s' % (v['scenario'], v['what']))
                if self.replay:
                    print(json.dumps(v['detail'], indent=1))
                shown += 1
                if shown >= 12:
                    break
            return 1
        if errs:
            for n, e in errs[:5]:
                print('ERROR in scenario %s of %s\n%s' % (n, self.prop, e), file=sys.stderr)
            return 2
        if self.level == 'model_checking' and (not states or not tot['transitions']):
            print('ERROR: nothing explored', file=sys.stderr)
            return 2
        if self.level != 'model_checking' and not tot['evaluations']:
            print('ERROR: nothing explored', file=sys.stderr)
            return 2
        return 0


_JOBS = []


def _run_idx(i):
    return _run_one(_JOBS[i])


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if prop in (None, k['property'])]


def match_known(known, f):
    for k in known:
        if k['key'] == f['key'] and k.get('scenario', f['scenario']) == f['scenario']:
            return k
    return None
