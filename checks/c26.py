"""C26: climate simulators."""
import datetime as dt
import itertools
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from mc.choice import distribution, explore, active, Fixed
from mc.util import interleave, law_diff, law_of, pdf_of

LEVEL = 'model_checking'
UTC = dt.timezone.utc
H1, M1 = dt.timedelta(hours=1), dt.timedelta(minutes=1)
ZONES = [None, UTC] + [dt.timezone(dt.timedelta(hours=h)) for h in (1, -5, 5.5, 14, -12)]
FIRST = dt.datetime(2014, 1, 1)


# ------------------------------------------------------------ historical data
class Real:
    """Stub dataset in the format of load_historical_climate_data, from its documentation."""
    country = 'nowhere'

    def __init__(self, n=72, step=H1, radiation='irradiance'):
        self.n, self.step_size, self.radiation = n, step, radiation

    def all(self):
        i = np.arange(self.n)
        d = {'datetime': np.array([FIRST + int(k) * self.step_size for k in i], dtype='datetime64[s]'),
             'outside_temperature': 5 + (i * 7 % 11) / 4 - (i % 3), self.radiation: (i * 5 % 13) * 20.}
        if self.radiation == 'radiation_global':
            d['irradiance'] = -1. - i  # the global radiation is the one at surface
        d['snowfall'] = (i * 3 % 7) / 8
        return d

    def load_historical_climate_data(self, start):
        u = start if start.tzinfo is None else start.astimezone(UTC).replace(tzinfo=None)
        k = (u - FIRST) // self.step_size
        if k >= self.n:
            raise ValueError('too late')
        return {a: b[max(k, 0):] for a, b in self.all().items()}


def utc(t):
    return t if t.tzinfo is None else t.astimezone(UTC).replace(tzinfo=None)


def historical(rec, scen):
    """The data point of the hour of every simulated time."""
    from demod.simulators.weather_simulators import RealClimate
    for step, off, zone, rad in scen:
        data = Real(step=step, radiation=rad)
        table = data.all()
        start = FIRST + off if zone is None else (FIRST + off).replace(tzinfo=UTC).astimezone(zone)
        ctx = {'start': start, 'data step': step}
        if off < dt.timedelta(0):
            try:
                RealClimate(data=data, start_datetime=start)
                rec.fail('a start before the data is accepted', ctx, 'too early')
            except ValueError:
                pass
            continue
        sim = RealClimate(data=data, start_datetime=start)
        for k in range(6):
            i = (off + k * step) // step
            rec.expect(sim.current_time == start + k * step, 'current time differs', {**ctx, 'steps': k, 'got': sim.current_time},
                       'historical clock')
            rec.expect(sim.get_outside_temperature() == table['outside_temperature'][i] and sim.get_irradiance() == table[rad][i],
                       'the climate is not that of the data at the simulated time',
                       lambda: {**ctx, 'steps': k, 'time (utc)': utc(sim.current_time), 'got': [sim.get_outside_temperature(),
                                sim.get_irradiance()], 'want': [table['outside_temperature'][i], table[rad][i]]}, 'historical')
            rec.state((step, off, str(zone), i))
            rec.transition()
            sim.step()
        rec.trace()


def interpolated(rec, scen):
    """The data interpolated at every simulated time, for every variable of the data."""
    from demod.simulators.weather_simulators import RealInterpolatedClimate
    for step, off, zone, kind in scen:
        data = Real(n=12)
        table = data.all()
        start = FIRST + off if zone is None else (FIRST + off).replace(tzinfo=UTC).astimezone(zone)
        ctx = {'start': start, 'step size': step, 'kind': kind}
        sim = RealInterpolatedClimate(data=data, start_datetime=start, step_size=step, interpolation_kind=kind)
        end = FIRST + 11 * H1

        def value(key, t):
            x = (t - FIRST) / H1
            i = int(x)
            y = table[key]
            if kind == 'linear':
                return y[i] if x == i else y[i] + (y[i + 1] - y[i]) * (x - i)
            if kind == 'nearest':  # half-hours are rounded down
                return y[i] if x - i <= .5 else y[i + 1]
            return y[i]  # previous
        for k in range(200):
            t = FIRST + off + k * step
            rec.expect(sim.current_time == start + k * step, 'current time differs', {**ctx, 'steps': k, 'got': sim.current_time},
                       'interpolated clock')
            for key in ('outside_temperature', 'irradiance', 'snowfall'):
                g = float(getattr(sim, 'get_' + key)())
                rec.expect(abs(g - value(key, t)) < 1e-9, 'the climate is not the data interpolated at the simulated time',
                           lambda: {**ctx, 'steps': k, 'time (utc)': t, 'variable': key, 'got': g, 'want': value(key, t)},
                           'interpolated')
            rec.state((step, off, str(zone), kind, k))
            rec.transition()
            if rec.fails:
                return
            try:
                sim.step()
            except ValueError:
                rec.expect(t + step > end, 'the simulation stops before the end of the data', {**ctx, 'time': t + step}, 'end')
                break
            rec.expect(t + step <= end, 'the simulation goes on after the end of the data', {**ctx, 'time': t + step}, 'end')
            if t + step > end:
                break
        rec.trace()


def loader(rec, scen):
    """The data loaded for a start: from the last point at or before it, for every start and time zone."""
    from demod.datasets.base_loader import ClimateLoader

    tmp = tempfile.mkdtemp(prefix='demodmc.c26.')

    class Loader(ClimateLoader):
        DATASET_NAME = 'stub'

        def __init__(self, real):
            self.real, self.step_size = real, real.step_size
            self.parsed_path_climate = tmp
            self.country = 'nowhere'

        def _warn_could_not_load_parsed(self, *a):
            pass

        def _parse_historical_climate_data(self):
            return self.real.all()
    try:
        for step in (H1, dt.timedelta(minutes=30), dt.timedelta(hours=3), dt.timedelta(minutes=10), dt.timedelta(minutes=1), dt.timedelta(days=1)):
            for f in os.listdir(tmp):
                os.remove(os.path.join(tmp, f))
            real = Real(n=10, step=step)
            load, table = Loader(real), real.all()
            for minutes in range(0, int(10 * step / M1), max(1, min(60, int(step / M1 / 6)))):
                for zone in ZONES:
                    u = FIRST + minutes * M1
                    start = u if zone is None else u.replace(tzinfo=UTC).astimezone(zone)
                    i = (u - FIRST) // step
                    rec.transition()
                    rec.state((step, minutes, str(zone)))
                    ctx = {'start': start, 'step': step}
                    if u > FIRST + 9 * step:
                        try:
                            load.load_historical_climate_data(start)
                            rec.fail('a start after the end of the data is accepted', ctx, 'late')
                        except ValueError:
                            pass
                        continue
                    got = load.load_historical_climate_data(start)
                    rec.expect(set(got) == set(table) and all(np.array_equal(got[k], v[i:]) for k, v in table.items()),
                               'the climate data does not start at the requested time',
                               lambda: {**ctx, 'got': got['datetime'][:2], 'want': table['datetime'][i:i + 2]}, 'loader')
            rec.trace()
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------ CREST
GEO = {'england': dict(country='england', latitude=52.8, longitude=-1.2, meridian=0., use_daylight_saving_time=True),
       'india': dict(country='india', latitude=13.1, longitude=80.3, meridian=82.5, use_daylight_saving_time=False),
       'south': dict(country='south', latitude=-35., longitude=149., meridian=150., use_daylight_saving_time=True)}
ARMA = dict(T_mean=9.3, T_std=6.5, T_shift=-115, AR=.81, MA=.62, SD=.5)
VALUES = np.array([.2, .6, .99, 1.])


class Crest:
    def __init__(self, geo, tpm):
        self.geo, self.tpm = GEO[geo], np.array(tpm, dtype=float)

    def load_geographic_data(self):
        return dict(self.geo)

    def load_clearness_tpms(self):
        return self.tpm.copy(), VALUES[:len(self.tpm)].copy(), M1

    def load_temperatures_arma(self):
        return dict(ARMA)


def clear_sky(t, g):
    """Global horizontal irradiance of a clear sky: solar geometry of the minute t (local time)."""
    n = t.timetuple().tm_yday
    b = 2 * math.pi * (n - 81) / 364
    correction = 4 * (g['longitude'] - g['meridian']) + 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
    hour = t.hour + t.minute / 60
    if g['use_daylight_saving_time'] and 87 <= n < 304:
        hour -= 1
    angle = math.radians(15 * (12 - hour - correction / 60))
    ext = 1367 * (1 + .034 * math.cos(2 * math.pi * n / 365.25))
    depth = .174 + .035 * math.sin(2 * math.pi * (n - 100) / 365)
    decl = math.radians(23.45 * math.sin(2 * math.pi * (284 + n) / 365.25))
    lat = math.radians(g['latitude'])
    s = math.cos(angle) * math.cos(lat) * math.cos(decl) + math.sin(lat) * math.sin(decl)
    return ext * math.exp(-depth / s) * s if s > 0 else 0.


def cycle_tpm(n, k):
    return np.roll(np.eye(n), k, axis=1)


def irradiance(rec, scen):
    """Deterministic sequences of clearness: every minute of two days, from any start."""
    from demod.simulators.weather_simulators import CrestIrradianceSimulator
    for geo, start, k, minutes in scen:
        data = Crest(geo, cycle_tpm(3, k))
        sim = CrestIrradianceSimulator(data=data, start_datetime=start, initial_clearness=VALUES[0])
        m0 = start.replace(hour=0, minute=0, second=0, microsecond=0)
        done = int((start - m0) / M1)
        for j in range(minutes):
            n = done + j  # minutes simulated since midnight
            c = VALUES[n * k % 3]
            want = 0. if n == 0 else clear_sky(m0 + (n - 1) * M1, data.geo) * c
            ok = rec.expect(abs(float(sim.get_irradiance()) - want) < 1e-7 and float(sim.get_current_clearness()) == c,
                            'irradiance differs from the clear sky irradiance times the clearness',
                            lambda: {'site': geo, 'start': start, 'minute': m0 + (n - 1) * M1, 'got': float(sim.get_irradiance()),
                                     'want': want, 'clearness': sim.get_current_clearness(), 'want clearness': c}, 'irradiance')
            ok &= rec.expect(sim.current_time == start + j * M1, 'clock', {'start': start, 'got': sim.current_time}, 'clock')
            rec.state((geo, start, k, n))
            rec.transition()
            if not ok:
                return
            sim.step()
        rec.trace()


def clearness(rec, scen):
    """Law of the clearness: the Markov chain of the data, for every chain of the grid and start."""
    from demod.simulators.weather_simulators import CrestIrradianceSimulator
    for rows, i0, depth in scen:
        tpm = np.array([pdf_of(r) for r in rows])
        data = Crest('england', tpm)

        def run(ch):
            sim = CrestIrradianceSimulator(data=data, start_datetime=dt.datetime(2014, 6, 1), initial_clearness=VALUES[i0])
            out = [float(sim.get_current_clearness())]
            for _ in range(depth):
                sim.step()
                out.append(float(sim.get_current_clearness()))
            rec.transition(depth)
            return tuple(out)
        got, runs = distribution(run, grid=sum(rows[0]))
        rec.trace(runs)
        want = {(i0,): 1}
        for _ in range(depth):
            want = {h + (j,): p * q for h, p in want.items() for j, q in law_of(rows[h[-1]]).items()}
        want = {tuple(float(VALUES[i]) for i in h): p for h, p in want.items()}
        for h in got:
            rec.state((rows, i0, h))
        rec.expect(got == want, 'law of the clearness differs',
                   lambda: {'tpm (parts)': rows, 'start': i0, 'got,want': dict(list(law_diff(got, want).items())[:4])}, 'clearness')


def day_profile(date, geo, irr, clear, normals):
    """Temperatures of a day from its irradiance; normals: (ARMA innovation and its past, deviation)."""
    n = date.timetuple().tm_yday
    arma, dev = normals
    ext = 1367 * (1 + .034 * math.cos(2 * math.pi * n / 365.25))
    mean = ARMA['T_mean'] + ARMA['T_std'] * math.sin(2 * math.pi * (n + ARMA['T_shift']) / 365) + arma
    day = [i for i, x in enumerate(irr) if x > 0]
    kx, s, e = {}, 0., 0.
    for i, x in enumerate(irr):
        s += x
        if x > 0:
            e += ext
            kx[i] = s / e
    top = max(kx.values())
    i_top = min(i for i in day if kx[i] == top)
    swing = 20 * math.log10(s / 1000 / 60 + 2.5) - 7 + dev
    lo, hi = mean - swing / 2, mean + swing / 2
    slope = (hi - lo) / top
    T = [0.] * len(irr)
    for i in day:
        T[i] = lo + slope * kx[i] if i <= i_top else hi - 1.7 * slope * (top - kx[i])
    rise, sets = day[0], day[-1]
    night = [i for i, x in enumerate(irr) if x == 0]
    cooling = (T[sets] - T[rise]) / len(night)
    avg = sum(clear[i] for i in night) / len(night)
    last = T[sets - 1]
    for i in list(range(sets, len(irr))) + list(range(rise)):
        last = last - (cooling - .025 * (avg - clear[i]))
        T[i] = last
    return T


def climate(rec, scen):
    """Whole days of irradiance and temperature, for every outcome of the normal draws."""
    from demod.simulators.weather_simulators import CrestClimateSimulator
    for geo, start, k, days, normals, exhaustive in scen:
        data = Crest(geo, cycle_tpm(3, k))
        m0 = start.replace(hour=0, minute=0, second=0, microsecond=0)
        done = int((start - m0) / M1)

        def reference(draws):
            z = iter(draws)
            r, ar = next(z) * ARMA['SD'], 0.
            irr, T = [], []
            for d in range(days):
                new = next(z) * ARMA['SD']
                arma = ar * ARMA['AR'] + r * ARMA['MA'] + new
                ar, r = ar * ARMA['AR'] + new, new
                n0 = d * 1440
                cl = [VALUES[(n0 + i) * k % 3] for i in range(1440)]
                ir = [0. if n0 + i == 0 else clear_sky(m0 + (n0 + i - 1) * M1, data.geo) * cl[i] for i in range(1440)]
                irr += ir
                T += day_profile(m0 + dt.timedelta(days=d), data.geo, ir, cl, (arma, next(z)))
            return irr, T

        def run(ch):
            sim = CrestClimateSimulator(data=data, start_datetime=start, initial_clearness=VALUES[0])
            out = []
            for j in range(days * 1440 - done):
                if j:
                    sim.step()
                if sim.current_time != start + j * M1:
                    return 'the current time is %s after %s steps from %s' % (sim.current_time, j, start)
                out.append((float(sim.get_irradiance()), float(sim.get_outside_temperature())))
            return out

        def compare(out, irr, T, zs):
            if not rec.expect(not isinstance(out, str), out, {'start': start}, 'climate clock'):
                return False
            rec.transition(len(out))
            rec.state((geo, start, k, days, tuple(zs)))
            for j, (i, t) in enumerate(out):
                if not rec.expect(abs(i - irr[done + j]) < 1e-6 and abs(t - T[done + j]) < 1e-6,
                                  'the climate differs from the documented model', lambda: {
                                      'site': geo, 'start': start, 'normal draws': zs, 'time': start + j * M1, 'got': (i, t),
                                      'want': (irr[done + j], T[done + j])}, 'climate'):
                    return False
            rec.trace()
            return True
        if not exhaustive:
            # all the normal draws are the same
            for z in normals:
                with active(Fixed(0, grid=1, normals=(z,))):
                    out = run(None)
                if not compare(out, *reference([z] * (1 + 2 * days)), (z,)):
                    return
            return
        # the law of the days, over all outcomes of the draws
        got, want = {}, {}
        sig = lambda x: round(x, 6) + 0.  # noqa: E731
        for out, ch in explore(run, grid=1, normals=normals):
            if isinstance(out, str):
                rec.fail(out, {'start': start}, 'climate clock')
                return
            d = tuple(sig(t) for _, t in out[::60])
            got[d] = got.get(d, 0) + ch.weight()
            rec.trace()
            rec.transition(len(out))
        for zs in itertools.product(normals, repeat=1 + 2 * days):
            d = tuple(sig(t) for t in reference(zs)[1][done::60])
            want[d] = want.get(d, 0) + Fraction(1, len(normals) ** len(zs))
            rec.state((geo, start, k, days, zs))
        ok = len(got) == len(want)
        for d, w in got.items():
            near = [x for x in want if all(abs(a - b) < 1e-5 for a, b in zip(x, d))]
            ok = ok and len(near) == 1 and want[near[0]] == w
        rec.expect(ok, 'law of the temperatures of the days differs', lambda: {
            'site': geo, 'start': start, 'days': days, 'got': len(got), 'want': len(want), 'first got': sorted(got)[0][:6],
            'first want': sorted(want)[0][:6]}, 'climate law')


def build(ck):
    import demod.simulators.weather_simulators  # noqa
    th = ck.thorough
    offs = [dt.timedelta(minutes=m) for m in (-1, -61, -600)] + [dt.timedelta(minutes=m) for m in range(0, 24 * 60, 10 if th else 35)]
    hs = [(s, o, z, r) for s in (H1, dt.timedelta(minutes=30), dt.timedelta(hours=3)) for o in offs for z in ZONES
          for r in ('irradiance', 'radiation_global')]
    for j, s in enumerate(interleave(hs, 8)):
        ck.add('historical #%d' % j, historical, s)
    ip = [(dt.timedelta(minutes=m), dt.timedelta(minutes=o), z, k) for m in (1, 10, 25, 60, 90, 200) for o in (0, 1, 29, 60, 95, 601)
          for z in ZONES for k in ('linear', 'nearest', 'previous') if m > 1 or z in ZONES[:3]]
    sub = [dt.timedelta(seconds=s) for s in (.25, 7, 30, 90, 450, 1799.5)]
    ip += [(s, dt.timedelta(seconds=o), z, k) for s in sub for o in (0, 1, 59, 1790, 3599.75, 35000) for z in ZONES[:3] for k in ('linear', 'previous')]
    for j, s in enumerate(interleave(ip, 8)):
        ck.add('interpolated #%d' % j, interpolated, s)
    ck.add('loader', loader)
    days = [dt.datetime(2014, 1, 1), dt.datetime(2014, 3, 27), dt.datetime(2014, 10, 30), dt.datetime(2012, 12, 31),
            dt.datetime(2014, 6, 30)] + ([dt.datetime(2015, m, 20) for m in range(1, 13)] if th else [])
    starts = [(0, 0), (0, 1), (4, 0), (11, 37), (23, 59)] + ([(h, 17) for h in range(24)] if th else [])
    ir = [(g, d.replace(hour=h, minute=m), k, 2 * 1440 + 2 if (h, m) == (0, 0) else 200)
          for g in GEO for d in days for h, m in starts for k in (0, 1)]
    for j, s in enumerate(interleave(ir, 16)):
        ck.add('irradiance #%d' % j, irradiance, s)
    rows = ((1, 2, 1), (0, 4, 0), (3, 0, 1), (1, 0, 3), (0, 0, 4), (2, 2, 0))
    cl = [(t, i, 3) for t in itertools.product(rows, repeat=3) for i in range(3)]
    for j, s in enumerate(interleave(cl if th else cl[::3], 8)):
        ck.add('clearness #%d' % j, clearness, s)
    cm = [(g, d.replace(hour=h, minute=m), 1, 3 if d.month != 1 else 2, (-1., .7), False) for g in GEO for d in days for h, m in starts[:5]]
    for j, s in enumerate(interleave(cm, 24)):
        ck.add('climate #%d' % j, climate, s)
    for g in (GEO if th else ('england',)):
        for d in days[:2]:
            ck.add('climate, all draws of %s, %s' % (g, d.date()), climate, [(g, d, 2, 1, (-1., 0., 1.5), True)])
            ck.add('climate, all draws of 2 days, %s, %s' % (g, d.date()), climate, [(g, d, 2, 2, (-1., 1.5), True)])
    ck.rule = ('historical data at %d combinations of step, start offset and time zone and %d of interpolation; CREST irradiance for '
               '%d sites and starts, at every minute; the law of the clearness of %d chains; temperatures and irradiance at every '
               'minute of 1-3 days for %d sites and starts, and for all outcomes of the normal draws (3 values) of a day'
               % (len(hs), len(ip), len(ir), len(cl), len(cm)))
    ck.assumptions = ['synthetic climate data; fixed offset time zones', 'interpolation is compared within 1e-9',
                      'the CREST temperature model is the one of the comments in the code']
