"""C05: simulation clock, initialisation and callbacks, against an integer reference clock."""
import datetime as dt
import itertools

import numpy as np

from mc.choice import Fixed, active
from mc.util import interleave

LEVEL = 'model_checking'
MIN = dt.timedelta(minutes=1)
DAY = dt.timedelta(days=1)
EPOCH = dt.datetime(2000, 1, 1)


def classes():
    """Recording simulators, one with every callback of each interface."""
    from demod.simulators import base_simulators as B
    C = B.Callbacks

    class Data:
        refresh_time = dt.time(4)

    class Rec(B.TimeAwareSimulator):
        def __init__(self, start, step, refresh=dt.time(4), logger=None, n=1):
            super().__init__(n, start_datetime=start, step_size=step, logger=logger)
            self.data = Data()
            self.data.refresh_time = refresh
            self.ev = []

        def on_before_next_day(self):
            self.ev.append(('before midnight', self.current_time, self.current_time_step))

        def on_after_next_day(self):
            self.ev.append(('after midnight', self.current_time, self.current_time_step))

        def on_before_next_day_4am(self):
            self.ev.append(('before 4am', self.current_time, self.current_time_step))

        def on_after_next_day_4am(self):
            self.ev.append(('after 4am', self.current_time, self.current_time_step))

        def on_before_refresh_time(self):
            self.ev.append(('before refresh', self.current_time, self.current_time_step))

        def on_after_refresh_time(self):
            self.ev.append(('after refresh', self.current_time, self.current_time_step))

    class All(Rec):
        @C.before_next_day
        @C.after_next_day
        @C.before_next_day_4am
        @C.after_next_day_4am
        @C.before_refresh_time
        @C.after_refresh_time
        def step(self, *a, **k):
            self.ev.append(('step', self.current_time, self.current_time_step, a, tuple(sorted(k.items()))))
            super().step()
            return 'out'

    class Legacy(Rec):
        @B.before_next_day_callback
        @B.after_next_day_callback
        @B.before_next_day_callback_4am
        @B.after_next_day_callback_4am
        def step(self, *a, **k):
            self.ev.append(('step', self.current_time, self.current_time_step, a, tuple(sorted(k.items()))))
            super().step()

    return All, Legacy


def n_day(t, hour=0):
    """Number of the day t lies in, days starting at `hour`."""
    t = t.replace(tzinfo=None)
    secs = round((t - EPOCH).total_seconds() * 1e6)
    return (secs - hour * 3600 * 10 ** 6) // (86400 * 10 ** 6)


def reference(t, k, step, refresh, legacy=False):
    """Events of the step from t (step counter k): sets before and after the body."""
    t2 = t + step
    before, after = set(), set()
    if n_day(t) != n_day(t2):
        before.add('before midnight')
        after.add('after midnight')
    if n_day(t, 4) != n_day(t2, 4):
        before.add('before 4am')
        after.add('after 4am')
    # the first step that starts at the refresh time or after it
    since = ((t.hour - refresh.hour) * 3600 + (t.minute - refresh.minute) * 60 + t.second - refresh.second) % 86400
    if not legacy and since < step.total_seconds():
        before.add('before refresh')
        after.add('after refresh')
    return before, after


def check_steps(rec, sim, n, ctx, legacy=False, args=(), kw=None):
    kw = kw or {}
    for _ in range(n):
        t, k = sim.current_time, sim.current_time_step
        sim.ev.clear()
        sim.step(*args, **kw)
        rec.transition()
        if not check_events(rec, sim.ev, t, k, sim.step_size, sim.data.refresh_time, ctx, legacy, args, kw):
            return False
        if not rec.expect(sim.current_time == t + sim.step_size and sim.current_time_step == k + 1,
                          'a step does not advance the clock by exactly one step',
                          lambda: {**ctx, 'from': [t, k], 'to': [sim.current_time, sim.current_time_step]}, 'clock'):
            return False
    return True


def check_events(rec, ev, t, k, step, refresh, ctx, legacy, args=(), kw=None):
    before, after = reference(t, k, step, refresh, legacy)
    names = [e[0] for e in ev]
    i = names.index('step') if 'step' in names else -1
    want_b = sorted((n, t, k) for n in before)
    want_a = sorted((n, t + step, k + 1) for n in after)
    ok = (names.count('step') == 1 and sorted(ev[:i]) == want_b and sorted(ev[i + 1:]) == want_a
          and ev[i] == ('step', t, k, tuple(args), tuple(sorted((kw or {}).items()))))
    return rec.expect(ok, 'callbacks around a step differ from the boundaries it crosses',
                      lambda: {**ctx, 'from': t, 'step': str(step), 'events': ev,
                               'want before': want_b, 'want after': want_a},
                      'callbacks %s' % ('legacy' if legacy else ''))


def every_day(rec, scen):
    """Every day of a leap cycle: the steps around midnight and around 4 am."""
    All, Legacy = classes()
    first, days, step, n = scen
    for d in range(days):
        day = first + d * DAY
        for base in (day + DAY, day + dt.timedelta(hours=4)):
            for off in (step, step * n // 2, step * n):
                start = base - off
                for legacy in (False, True):
                    sim = (Legacy if legacy else All)(start, step)
                    sim.initialize_starting_state()
                    rec.state((start, str(step)))
                    if not check_steps(rec, sim, n + 1, {'start': start, 'step': step}, legacy):
                        return
                    rec.trace()
    rec.sample({'first day': str(first), 'days': days, 'step': str(step)})


def long_runs(rec, scen):
    All, Legacy = classes()
    for start, step, refresh, n in scen:
        for legacy in (False, True):
            sim = (Legacy if legacy else All)(start, step, refresh)
            sim.initialize_starting_state()
            rec.state((start, str(step), str(refresh)))
            if not check_steps(rec, sim, n, {'start': start, 'step': step, 'refresh': refresh}, legacy):
                return
            rec.trace()


def initialise(rec, scen):
    """Every initialisation: where it starts from, how many steps, where it ends."""
    All, _ = classes()
    from demod.simulators.base_simulators import SimLogger
    for start, step, init, refresh in scen:
        ctx = {'start': start, 'step': step, 'initialization_time': init}
        lg = SimLogger('current_time', 'current_time_step', aggregated=False)
        sim = All(start, step, refresh, logger=lg)
        args, kw = (3,), {'x': 5}
        if isinstance(init, dt.time):
            t0 = start.replace(hour=init.hour, minute=init.minute, second=init.second, microsecond=init.microsecond)
            if t0 > start:
                t0 -= DAY
        elif init is None:
            t0 = start
        else:
            t0 = init
        if init is not None and isinstance(init, dt.datetime) and init > start:
            try:
                sim.initialize_starting_state(initialization_time=init)
                rec.fail('an initialisation time after the start is accepted', ctx, 'late initialisation')
            except ValueError:
                pass
            rec.transition()
            rec.trace()
            continue
        n = 0
        while start - (n + 1) * step >= t0:
            n += 1
        sim.initialize_starting_state(initialization_time=init, x=5)
        ev, sim.ev = sim.ev, []
        rec.transition(n)
        rec.state((start, str(step), str(init)))
        ok = rec.expect(sim.current_time == start and sim.current_time_step == n,
                        'after initialisation the clock is not at the requested start',
                        lambda: {**ctx, 'at': sim.current_time, 'step counter': sim.current_time_step, 'want steps': n},
                        'initialisation')
        # the steps of the initialisation themselves
        groups, t = [], start - n * step
        for k in range(n):
            b, a = reference(t, k, step, refresh)
            size = 1 + len(b) + len(a)
            ok = ok and check_events(rec, ev[:size], t, k, step, refresh, {**ctx, 'during': 'initialisation'}, False,
                                     (), {'x': 5})
            ev = ev[size:]
            t += step
        ok = ok and rec.expect(not ev, 'more steps than needed during initialisation', lambda: {**ctx, 'extra': ev},
                               'initialisation')
        if not ok:
            return
        if not check_steps(rec, sim, 3, ctx, args=args, kw=kw):
            return
        rec.expect(list(sim.logger.get('current_time')) == [start + i * step for i in range(3)]
                   and sim.logger.get('current_time_step').tolist() == [n + i for i in range(3)],
                   'logged clock is not that of the simulated steps',
                   lambda: {**ctx, 'logged': list(sim.logger.get('current_time'))}, 'logged clock')
        rec.trace()


def plain(rec, scen):
    """The step counter of simulators without a clock, and of nested ones."""
    from demod.simulators.base_simulators import Simulator, MultiSimulator, TimeAwareSimulator

    class S(Simulator):
        def __init__(self, n, k):
            super().__init__(n)
            self.seen = []
            self.initialize_starting_state(k, 7, y=8)

        def step(self, *a, **kw):
            self.seen.append((self.current_time_step, a, kw))
            super().step()

    for n, k, m in scen:
        s = S(n, k)
        rec.expect(s.current_time_step == k and s.n_households == n
                   and s.seen == [(i, (7,), {'y': 8}) for i in range(k)],
                   'initial steps are not performed as requested', {'steps': k, 'seen': s.seen}, 'plain init')
        for i in range(m):
            s.step()
            rec.transition()
        rec.expect(s.current_time_step == k + m, 'step counter', {'steps': k + m, 'got': s.current_time_step}, 'counter')
        rec.state((n, k, m))
        rec.trace()
    for bad in (0, -1):
        try:
            S(bad, 0)
            rec.fail('%d households accepted' % bad, None, 'n_households')
        except ValueError:
            rec.trace()
    for bad, err in ((-1, ValueError), (1.5, TypeError), ('a', TypeError)):
        try:
            S(1, bad)
            rec.fail('start step %r accepted' % (bad,), None, 'start_time_step')
        except err:
            rec.trace()


def build(ck):
    import demod.simulators.base_simulators  # noqa
    th = ck.thorough
    # all the days of 4 years (8 with the thorough tier), around both boundaries
    years = (2015, 2016, 2019, 2020, 2023, 2024) if th else (2015, 2016)
    for y in years:
        days = (dt.datetime(y + 1, 1, 1) - dt.datetime(y, 1, 1)).days
        for step, n in ((MIN, 2), (10 * MIN, 2), (60 * MIN, 3), (7 * MIN, 3)):
            ck.add('every day %d step %s' % (y, step), every_day, (dt.datetime(y, 1, 1), days, step, n))
    ck.add('century', every_day, (dt.datetime(2100, 2, 20), 15, 10 * MIN, 2))
    ck.add('century2', every_day, (dt.datetime(2000, 2, 20), 15, 10 * MIN, 2))
    runs = []
    steps = [30 * dt.timedelta(seconds=1), MIN, 3 * MIN, 7 * MIN, 10 * MIN, 15 * MIN, 17 * MIN, 30 * MIN, 37 * MIN,
             59 * MIN, 60 * MIN, 61 * MIN, 90 * MIN, 150 * MIN, 5 * 60 * MIN, 7 * 60 * MIN, 12 * 60 * MIN,
             23 * 60 * MIN, DAY, 25 * 60 * MIN]
    starts = [dt.datetime(2015, 12, 30, 22, 13), dt.datetime(2016, 2, 27, 0, 0), dt.datetime(2015, 2, 27, 3, 59),
              dt.datetime(2014, 4, 29, 4, 0), dt.datetime(2014, 3, 29, 12, 0, 30), dt.datetime(2015, 2, 27, 23, 40),
              dt.datetime(2015, 12, 31, 3, 20, 5, 250),
              dt.datetime(2014, 3, 29, 12, 0, tzinfo=dt.timezone(dt.timedelta(hours=2)))]
    for s in starts:
        for st in steps:
            n = min(6000, max(32, int(4 * DAY / st) + 2))
            for refresh in (dt.time(4), dt.time(0), dt.time(12, 0), dt.time(23, 50)):
                if st < 10 * MIN and refresh.hour not in (0, 4):
                    continue
                if st < MIN and not th:
                    continue
                runs.append((s, st, refresh, n))
    # every phase of the clock relative to the step
    for ph in range(0, 60, 1 if th else 4):
        for st in (10 * MIN, 60 * MIN, 45 * MIN):
            runs.append((dt.datetime(2015, 12, 31, 20, ph), st, dt.time(4), int(1.5 * DAY / st)))
    for j, s in enumerate(interleave(runs, 16)):
        ck.add('long #%d' % j, long_runs, s)
    inits = []
    for s in [dt.datetime(2015, 1, 1, h, m, x) for h in (0, 3, 4, 5, 23) for m in (0, 1, 35, 59) for x in (0, 20)] + [
            dt.datetime(2016, 3, 1, 2, 30), dt.datetime(2016, 2, 29, 3, 59), dt.datetime(2015, 3, 1, 0, 5), dt.datetime(2015, 3, 1, 5, 0, 0, 1), dt.datetime(2015, 3, 1, 2, 7, 9, 999999),
            dt.datetime(2014, 6, 30, 12, 0, tzinfo=dt.timezone.utc),
            dt.datetime(2014, 6, 30, 1, 0, tzinfo=dt.timezone(dt.timedelta(hours=-3)))]:
        for st in (MIN, 7 * MIN, 10 * MIN, 60 * MIN):
            for i in (None, dt.time(4), dt.time(0), dt.time(23, 59), dt.time(12, 34, 56), 'same', 'before', 'far', 'late'):
                if isinstance(i, str):
                    i = {'same': s, 'before': s - 25 * MIN, 'far': s - 3 * DAY - 61 * MIN, 'late': s + MIN}[i]
                if st == MIN and not th and not (s.minute in (0, 35) and s.second == 0):
                    continue
                inits.append((s, st, i, dt.time(4)))
    for j, s in enumerate(interleave(inits, 12)):
        ck.add('initialise #%d' % j, initialise, s)
    ck.add('plain', plain, list(itertools.product((1, 3), (0, 1, 5), (0, 1, 4))))
    ck.rule = ('every day of %d years around midnight and 4 am with 4 step sizes; %d runs of 4 days with 19 step sizes '
               'up to a day from 6 starts and all clock phases; %d initialisations' % (len(years), len(runs), len(inits)))
    ck.assumptions = ['the clock is wall time: time zones with daylight saving are not modelled']
