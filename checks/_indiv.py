"""Reference and stub data for the simulator of individuals (used by C02, C03, C09)."""
import datetime as dt

import numpy as np

LAB = ['away', 'sleeping', 'active']


def persons(sg):
    """The persons of a household subgroup, from the documented meaning of its keys."""
    rest = {k: v for k, v in sg.items() if k not in ('n_residents', 'household_type')}
    n, t = sg.get('n_residents'), sg.get('household_type')
    if t == 1 or n == 1:
        if 'hh_mean_age' in rest and 'age' not in rest:
            rest['age'] = rest.pop('hh_mean_age')
        return [rest]
    pos = {2: [1, 2], 3: [1] + [3] * ((n or 0) - 1), 4: [1, 2] + [3] * ((n or 0) - 2)}.get(t)
    if pos is None:
        return [dict(rest) for _ in range(n)]
    return [{**rest, 'household_position': p} for p in pos]


def freeze(sg):
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in sg.items()))


class Data:
    """Stub dataset: load functions given as python functions of the frozen subgroup."""

    def __init__(self, refresh=dt.time(4), tpm=None, semi=None):
        self.refresh_time = refresh
        self._tpm, self._semi = tpm, semi
        self.asked = []

    def load_tpm(self, subgroup):
        self.asked.append(freeze(subgroup))
        return self._tpm(dict(subgroup))

    def load_tpm_with_duration(self, subgroup):
        self.asked.append(freeze(subgroup))
        return self._semi(dict(subgroup))


def day_type(d, flags):
    """Time attributes of a date under the simulator's day type parameters."""
    out = {}
    w = d.isoweekday()
    if flags.get('use_week_ends_days'):
        out['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else [6, 7]
    elif flags.get('use_week_sat_sun'):
        out['weekday'] = [1, 2, 3, 4, 5] if w <= 5 else w
    elif flags.get('use_7days'):
        out['weekday'] = w
    if flags.get('use_quarters'):
        out['quarter'] = {1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 2, 7: 3, 8: 3, 9: 3}.get(d.month, 4)
    return out
