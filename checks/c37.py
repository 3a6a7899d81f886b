"""C37: plots show exactly the recorded or given values, over all small data and configurations."""
import itertools
import os
import tempfile

import numpy as np

from mc.util import interleave

LEVEL = 'model_checking'


def plt():
    """pyplot without a screen; what is shown is kept in plt().seen and closed."""
    if 'MPLCONFIGDIR' not in os.environ:
        d = os.path.join(os.environ.get('MC_TREE') or tempfile.gettempdir(), 'mpl')
        os.makedirs(d, exist_ok=True)
        os.environ['MPLCONFIGDIR'] = d
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as p
    if not hasattr(p, 'seen'):
        p.seen = []

        def show(*a, **k):
            for n in p.get_fignums():
                p.seen.append(read(p.figure(n)))
            p.close('all')
        p.show = show
    return p


def read(fig):
    """What the axes of a figure show: lines, layers, points, legend and ticks."""
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append(dict(
            lines=[(str(l.get_label()), list(l.get_xdata(orig=True)), np.array(l.get_ydata(orig=True), dtype=float).tolist(), l.get_drawstyle())
                   for l in ax.lines],
            legend=[t.get_text() for t in leg.get_texts()] if leg else [],
            handles=[h.get_facecolor() if hasattr(h, 'get_facecolor') else None for h in leg.legend_handles] if leg else [],
            layers=[(str(c.get_label()), [p.vertices.tolist() for p in c.get_paths()]) for c in ax.collections if hasattr(c, 'get_paths')
                    and type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection')],
            points=[(np.array(c.get_offsets(), dtype=float).tolist(), [tuple(x) for x in c.get_facecolors()],
                     None if c.get_array() is None else np.array(c.get_array()).tolist(), c.get_sizes().tolist())
                    for c in ax.collections if type(c).__name__ == 'PathCollection'],
            ticks=[(float(a), t.get_text()) for a, t in zip(ax.get_yticks(), ax.get_yticklabels())]))
    return out


def extent(paths, x):
    """The lowest and highest point of polygons at this abscissa."""
    ys = []
    for v in paths:
        v = v + [v[0]]
        for (x0, y0), (x1, y1) in zip(v, v[1:]):
            if min(x0, x1) <= x <= max(x0, x1):
                if x0 == x1:
                    ys += [y0, y1]
                else:
                    ys.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return (min(ys), max(ys)) if ys else None


# ---------------------------------------------------------------- the logger
ATTRS = ('get_v', 'get_d', 'get_s', 'get_m', 'num', 'get_w', 'current_time')


def sim_class():
    import datetime as dt
    from demod.simulators.base_simulators import TimeAwareSimulator

    class S(TimeAwareSimulator):
        def __init__(self, n, logger=None):
            super().__init__(n, logger=logger, start_datetime=dt.datetime(2014, 3, 29, 23, 40), step_size=dt.timedelta(minutes=15))
            self.initialize_starting_state()

        @property
        def k(self):
            return self.current_time_step

        @property
        def num(self):
            return 2.5 + self.k

        def get_s(self):
            return 100. - self.k ** 2

        def get_v(self):
            return np.arange(self.n_households) * 10 + self.k + (self.k > 1) * 3

        def get_w(self):
            return np.arange(self.n_households) % 2 == self.k % 2

        def get_d(self):
            return {'x': self.get_v() * .5, 'y z': np.full(self.n_households, -self.k)}

        def get_m(self):
            return np.outer(np.arange(self.n_households) + 1, [1, 10]) + self.k
    return S


def expected(sim_values, attr, aggr, n, aggregate):
    """The (words of the label, household, values) that one attribute must show."""
    vals = sim_values[attr]
    parts = {k: [v[k] for v in vals] for k in vals[0]} if isinstance(vals[0], dict) else {None: vals}
    out = []
    for key, v in parts.items():
        v = [np.asarray(x, dtype=float) for x in v]
        if aggr:
            out.append((attr, key, None, [float(np.sum(x)) for x in v]))
        elif v[0].ndim == 0:
            out.append((attr, key, None, [float(x) for x in v]))
        elif aggregate:
            out.append((attr, key, None, [np.sum(x, axis=0).tolist() for x in v]))
        else:
            out += [(attr, key, h, [x[h].tolist() for x in v]) for h in range(n)]
    return out


def split(wants):
    """A household with several values is drawn as several lines of the same label."""
    for attr, key, h, vals in wants:
        if vals and isinstance(vals[0], list):
            for j in range(len(vals[0])):
                yield attr, key, h, [v[j] for v in vals]
        else:
            yield attr, key, h, vals


def shows(label, attr, key, h):
    if not label.startswith(attr) or (key is not None and str(key) not in label):
        return False
    return h is None or label.split('_')[-1] == str(h)


def logger(rec, scen):
    from demod.simulators.base_simulators import SimLogger
    S = sim_class()
    p = plt()
    for attrs, flags, n, steps, aggregate in scen:
        sim = S(n, SimLogger(list(attrs), aggregated=list(flags)))
        values = {a: [] for a in attrs}
        times = []
        for _ in range(steps):
            times.append(sim.current_time)
            for a in attrs:
                v = getattr(sim, a)
                values[a].append(v() if callable(v) else v)
            sim.step()
        ctx = {'attributes': attrs, 'aggregated': flags, 'households': n, 'steps': steps, 'aggregate': aggregate}
        shown = [(a, f) for a, f in zip(attrs, flags) if a != 'current_time']
        xs = times if 'current_time' in attrs else list(range(steps))
        for how in ('plot', 'plot_column'):
            p.close('all')
            p.seen.clear()
            getattr(sim.logger, how)(aggregate) if aggregate is not None else getattr(sim.logger, how)()
            axes = [ax for fig in p.seen for ax in fig]
            rec.state((attrs, flags, n, steps, aggregate, how))
            rec.transition()
            if not rec.expect(len(axes) == len(shown), 'the attributes do not have a plot each', lambda: {**ctx, 'by': how, 'plots': len(axes)},
                              how + ' number'):
                continue
            for (attr, aggr), ax in zip(shown, axes):
                want = list(split(expected(values, attr, aggr, n, bool(aggregate))))
                left = list(ax['lines'])
                for a, key, h, vals in want:
                    hit = next((l for l in left if shows(l[0], a, key, h) and l[2] == vals), None)
                    if not rec.expect(hit is not None, 'a recorded series is not shown',
                                      lambda: {**ctx, 'by': how, 'attribute': a, 'key': key, 'household': h, 'want': vals, 'shown': ax['lines']},
                                      how + ' series'):
                        continue
                    left.remove(hit)
                    x = hit[1] if how == 'plot_column' else list(hit[1])
                    w = xs if how == 'plot_column' else list(range(steps))
                    rec.expect(list(x) == list(w) and (how == 'plot' or hit[3] == 'steps-post'), 'a series is not shown at its times',
                               lambda: {**ctx, 'by': how, 'label': hit[0], 'times': x, 'style': hit[3], 'want': w}, how + ' times')
                    rec.expect(hit[0] in ax['legend'], 'a series is not in the legend', lambda: {**ctx, 'by': how, 'label': hit[0],
                               'legend': ax['legend']}, how + ' legend')
                rec.expect(not left, 'something that was not recorded is shown', lambda: {**ctx, 'by': how, 'attribute': attr, 'shown': left},
                           how + ' more')
        got = {a: sim.logger.get(a) for a, _ in shown}
        rec.expect(all(len(next(iter(g.values())) if isinstance(g, dict) else g) == steps for g in got.values()), 'plotting changes the record',
                   ctx, 'record')
        rec.trace()
    p.close('all')


# -------------------------------------------------------------- the plotters
def axes():
    p = plt()
    p.close('all')
    p.seen.clear()
    return p, p.figure().add_subplot(1, 1, 1)


def draw(f, own, *args, **kw):
    """What f shows, on a plot of ours or on its own."""
    p, ax = axes()
    if own:
        f(*args, ax=ax, **kw)
        got = read(p.gcf())[0]
        p.close('all')
        return got
    p.close('all')
    f(*args, **kw)
    if not p.seen:
        p.show()
    return p.seen[0][0]


def layers(rec, ctx, got, want, xs, step, key):
    """want: list of (label, values) from the bottom."""
    names = [l for l, _ in got['layers']]
    if not rec.expect(len(names) == len(want), 'the layers are not the ones of the data', lambda: {**ctx, 'got': names, 'want': [w[0] for w in want]}, key + ' layers'):
        return
    for (lab, paths), (w, vals) in zip(got['layers'], want):
        rec.expect(lab == str(w), 'a layer has another label', lambda: {**ctx, 'got': names, 'want': [w[0] for w in want]}, key + ' labels')
    for k in range(len(xs)):
        if step in ('post', 'pre', 'mid') and k == len(xs) - 1:
            break
        # the abscissas where the values of index k and k + 1 are shown
        if step is None:
            at = [(xs[k], k)]
        else:
            a, b = xs[k], xs[k + 1]
            at = {'post': [(a + .25 * (b - a), k), (a + .75 * (b - a), k)], 'pre': [(a + .25 * (b - a), k + 1), (a + .75 * (b - a), k + 1)],
                  'mid': [(a + .25 * (b - a), k), (a + .75 * (b - a), k + 1)]}[step]
        for x, i in at:
            low = 0.
            for (lab, paths), (w, vals) in zip(got['layers'], want):
                e = extent(paths, x)
                ok = e is not None and abs(e[0] - low) < 1e-9 and abs(e[1] - low - vals[i]) < 1e-9
                if not rec.expect(ok, 'a layer does not show the values', lambda: {**ctx, 'layer': w, 'at': x, 'got': e, 'want': [low, low + vals[i]]},
                                  key + ' values'):
                    return
                low += vals[i]
    rec.expect(got['legend'] == [str(w[0]) for w in want][::-1], 'the legend is not in the order of the layers',
               lambda: {**ctx, 'got': got['legend']}, key + ' legend')


def stacked(rec, scen):
    from demod.utils.plotters import plot_stacked_activities
    for names, vals, xs, step, own in scen:
        d = {k: np.array(v) for k, v in zip(names, vals)}
        kw = {} if step is None else {'step': step}
        if xs is not None:
            kw['time_axis'] = np.array(xs)
        ctx = {'states': d, 'step': step, 'times': xs}
        got = draw(plot_stacked_activities, own, d, **kw)
        x = list(range(len(vals[0]))) if xs is None else list(xs)
        layers(rec, ctx, got, list(d.items()), x, step or 'post', 'stacked')
        rec.state((names, vals, xs, step))
        rec.transition()
        rec.trace()


def counts(rec, scen):
    from demod.utils.plotters import plot_stack_states
    for st, labels, own in scen:
        a = np.array(st)
        keep = a.copy()
        got = draw(plot_stack_states, own, a, labels)
        n = a.max() + 1
        want = [(labels[k], (a == k).sum(axis=0).tolist()) for k in range(n)]
        layers(rec, {'states': a, 'labels': labels}, got, want, list(range(a.shape[1])), None, 'states')
        rec.expect(np.array_equal(a, keep), 'the states given are modified', {'states': st}, 'caller states')
        rec.state((st, own))
        rec.transition()
        rec.trace()
    # further arguments are the ones of stackplot
    got = draw(plot_stack_states, True, np.array([[0, 1], [1, 1]]), ['a', 'b'], colors=['#ff0000', '#0000ff'])
    rec.expect([tuple(h)[:3] for h in got['handles']] == [(0, 0, 1), (1, 0, 0)], 'the colors asked for are not used', {'got': got['handles']}, 'states colors')
    p, _ = axes()
    p.close('all')
    fig, ax = plot_stack_states(np.array([[0, 1], [1, 1]]), ['a', 'b'])
    rec.expect(ax in fig.axes and len(read(fig)[0]['layers']) == 2, 'the figure and axes are not returned', {}, 'states figure')
    p.close('all')


def appliances(rec, scen):
    from demod.utils.plotters import plot_appliance_consumptions
    for types, use, xs, labels, factor, own in scen:
        c = np.array(use, dtype=float)
        app = {factor: np.array(types), 'number': len(types)}
        other = 'type' if factor != 'type' else 'name'
        app[other] = np.array(['%d' % i for i in range(len(types))])
        kw = {}
        if xs is not None:
            kw['time_axis'] = np.array(xs)
        if labels is not None:
            kw['labels_list'] = labels
        if factor != 'type':
            kw['differentiative_factor'] = factor
        got = draw(plot_appliance_consumptions, own, c, app, **kw)
        order = sorted(set(types)) if labels is None else labels
        want = [(l, [sum(row[i] for i, t in enumerate(types) if t == l) for row in c.tolist()]) for l in order]
        x = list(range(len(c))) if xs is None else list(xs)
        layers(rec, {'types': types, 'consumptions': use, 'labels': labels, 'by': factor}, got, want, x, 'post', 'appliances')
        rec.state((types, use, xs, labels and tuple(labels), factor))
        rec.transition()
        rec.trace()


COLORS = ['#d7191c', '#fdae61', '#ffffbf', '#abdda4', '#2b83ba']


def household(rec, scen):
    from matplotlib.colors import to_rgba
    from demod.utils.plotters import plot_household_activities
    main = ('active_occupancy', 'away', 'sleeping')
    for names, vals, xs, top, colors, own in scen:
        d = {k: np.array(v) for k, v in zip(names, vals)}
        kw = {} if colors == 'default' else {'colors': None if colors is None else np.array(colors)}
        if xs is not None:
            kw['time_axis'] = np.array(xs)
        if top is not None:
            kw['main_states_on_top'] = top
        ctx = {'activities': d, 'main on top': top, 'colors': colors, 'times': xs}
        got = draw(plot_household_activities, own, d, s=7., **kw)
        x = list(range(len(vals[0]))) if xs is None else list(xs)
        order = list(names) if top is False else [k for k in names if k not in main] + [k for k in names if k in main]
        rec.expect(got['ticks'] == [(float(i), k) for i, k in enumerate(order)], 'the activities are not the labels of their lines',
                   lambda: {**ctx, 'got': got['ticks'], 'want': order}, 'activities labels')
        palette = COLORS if colors == 'default' else colors
        want = sorted((float(x[t]), float(i), tuple(to_rgba(palette[n - 1])) if palette is not None else n)
                      for i, k in enumerate(order) for t, n in enumerate(d[k].tolist()) if n > 0)
        have = []
        for pts, faces, array, sizes in got['points']:
            marks = array if palette is None else faces if len(faces) == len(pts) else list(faces) * len(pts)
            have += [(a, b, tuple(m) if palette is not None else m) for (a, b), m in zip(pts, marks)]
            rec.expect(not pts or sizes == [7.], 'the options of the markers are not used', {**ctx, 'sizes': sizes}, 'activities options')
        rec.expect(sorted(have) == want, 'the marks are not the activities performed and their number of residents',
                   lambda: {**ctx, 'got': sorted(have), 'want': want}, 'activities marks')
        if palette is not None:
            most = max(1, max(max(v) for v in vals))
            rec.expect(got['legend'] == [str(i + 1) for i in range(most)] and [tuple(h) for h in got['handles']] == [to_rgba(c) for c in palette[:most]],
                       'the legend is not the numbers of residents', lambda: {**ctx, 'got': got['legend']}, 'activities legend')
        rec.state((names, vals, xs, top, str(colors)))
        rec.transition()
        rec.trace()


def build(ck):
    plt()
    import demod.utils.plotters  # noqa
    import demod.simulators.base_simulators  # noqa
    th = ck.thorough
    lg = []
    for k in (1, 2, 3):
        for attrs in itertools.permutations(ATTRS, k):
            if attrs == ('current_time',):
                continue
            for j, flags in enumerate(itertools.product((True, False), repeat=k)):
                for i, (n, steps, aggregate) in enumerate(itertools.product((1, 3), (1, 4), (False, True, None))):
                    if k == 3 and not th and (i + j + ATTRS.index(attrs[0]) * 5 + ATTRS.index(attrs[1])) % 12:
                        continue
                    if k == 2 and not th and (i + j + ATTRS.index(attrs[0]) + ATTRS.index(attrs[1])) % 3:
                        continue
                    lg.append((attrs, flags, n, steps, aggregate))
    for j, s in enumerate(interleave(lg, 24)):
        ck.add('logger #%d' % j, logger, s)
    sets = [('a',), ('a', 'away'), ('away', 'a', 'sleeping'), ('sleeping', 'active_occupancy')]
    pats = {k: [tuple(v) for v in itertools.product(range(3), repeat=k)] for k in (2, 3)}
    st = []
    for names in sets:
        for m, vals in enumerate(itertools.product(pats[3] if len(names) < 2 or th else pats[2], repeat=len(names))):
            if len(names) == 3 and not th and m % 3:
                continue
            xs = None if m % 3 else (-2., 1.5, 2.)[:len(vals[0])]
            st.append((names, vals, xs, (None, 'post', 'pre', 'mid')[m % 4], m % 2 == 0))
    for j, s in enumerate(interleave(st, 4)):
        ck.add('stacked #%d' % j, stacked, s)
    cs = [(tuple(tuple(r) for r in np.reshape(v, (p, t))), list('abcd')[:max(v) + 1 + k % 2], k % 3 > 0)
          for p, t in ((1, 2), (2, 2), (3, 2), (2, 3)) for k, v in enumerate(itertools.product(range(3), repeat=p * t))]
    for j, s in enumerate(interleave(cs if th else cs[::2], 4)):
        ck.add('states #%d' % j, counts, s)
    ap = []
    for n in (1, 2, 3):
        for types in itertools.product(('tv', 'a', 'tv_a'), repeat=n):
            for m, use in enumerate(itertools.product((0, 1, 5), repeat=2 * n) if n < 3 or th else [(0, 1, 5, 2, 0, 4), (1, 1, 2, 3, 5, 8), (0, 0, 0, 1, 0, 0)]):
                if n == 2 and not th and m % 3:
                    continue
                labels = [None, ['a', 'tv'], ['tv_a'], ['tv', 'tv_a', 'a'], ['tv_a', 'a']][(m + types.index(min(types))) % 5] if n > 1 else None
                ap.append((types, tuple(tuple(r) for r in np.reshape(use, (2, n))), (3., 4.5) if m % 2 else None, labels,
                           ('type', 'name', 'related_activity')[(m // 2) % 3], m % 5 > 0))
    for j, s in enumerate(interleave(ap, 4)):
        ck.add('appliances #%d' % j, appliances, s)
    hh = []
    for names in sets + [('away', 'b', 'a'), ('a', 'b', 'active_occupancy')]:
        for m, vals in enumerate(itertools.product([(0, 0), (1, 0), (0, 3), (5, 2), (4, 4)], repeat=len(names))):
            if len(names) == 3 and not th and m % 2:
                continue
            hh.append((names, vals, None if m % 3 else (2.5, 7.), (None, True, False)[m % 3],
                       ('default', ['r', 'g', 'b', 'k', 'y', 'c'], None)[(m // 3) % 3], m % 4 > 0))
    for j, s in enumerate(interleave(hh, 4)):
        ck.add('activities #%d' % j, household, s)
    ck.rule = ('%d records of up to 3 of %d attributes of a logger (vectors, dictionaries, numbers, matrices, times), all aggregations; %d stacks of '
               'activities, %d of states, %d of consumptions and %d of household activities' % (len(lg), len(ATTRS), len(st), len(cs), len(ap), len(hh)))
    ck.assumptions = ['the content of a plot is what matplotlib holds for its axes when it is shown; rendering is not checked',
                      'up to 5 residents with the default colors']
