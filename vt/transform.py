"""Workloads and reference model for the resampling and the aggregation."""
import datetime as _dt
from fractions import Fraction

import pytz

from timeseria.datastructures import TimeSeries

from . import gen, obs

UTC = pytz.UTC

# Ratios between the new unit and the spacing
SECONDS = {'s': 1, 'm': 60, 'h': 3600}


def unit_seconds(unit):
    return int(unit[:-1]) * SECONDS[unit[-1]]


class Workload:
    """A point series with gaps, losses and indexes."""

    def __init__(self, rng, spacing, n, zone, losses=None, start=None, jitter=False, align=None):
        self.spacing = spacing
        self.zone = zone
        self.labels = gen.labels(rng)
        self.as_list = rng.random() < 0.1
        if self.as_list:
            self.labels = [str(i) for i in range(len(self.labels))]
        self.index_names = rng.choice([(), (), ('anomaly',), ('anomaly', 'other')])
        self.losses = losses if losses is not None else rng.random() < 0.35
        t = start if start is not None else gen.t0(rng)
        t = int(t)
        if align:
            t = t // align * align
        if rng.random() < 0.5:
            t += rng.choice([0, spacing / 2, 1, spacing * 3, 0.25])
        gaps = rng.choice([0, 0, 0.05, 0.25])
        self.points = []     # (t, data, loss, indexes)
        kind = rng.choice(['random', 'ramp', 'constant', 'steps'])
        self.kind = kind
        a = {label: gen.number(rng) for label in self.labels}
        b = {label: rng.choice([-1, 0.5, 2, 10]) for label in self.labels}
        for i in range(n):
            if kind == 'random':
                d = gen.data(rng, self.labels)
            elif kind == 'ramp':
                d = {label: a[label] + b[label] * i for label in self.labels}
            elif kind == 'constant':
                d = dict(a)
            else:
                d = {label: a[label] + (i // 4) * b[label] for label in self.labels}
            loss = rng.choice([None, 0, 0, 1, 0.25, round(rng.random(), 3)]) if self.losses else None
            self.points.append((t, d, loss, gen.indexes(rng, self.index_names, 0.25)))
            step = spacing
            if gaps and rng.random() < gaps:
                step = spacing * rng.choice([2, 3, 5, 1.5, 12, 30])
            if jitter:
                step = max(spacing / 16, step + spacing * rng.randint(-8, 8) / 16)
            t += step
        self.gaps = gaps

    def series(self):
        series = TimeSeries()
        for t, d, loss, indexes in self.points:
            kwargs = {}
            if loss is not None:
                kwargs['data_loss'] = loss
            if indexes:
                kwargs['data_indexes'] = dict(indexes)
            if kwargs.get('data_indexes') and loss is not None:
                kwargs['data_indexes']['data_loss'] = kwargs.pop('data_loss')
            series.append(gen.point(t, [d[label] for label in self.labels] if self.as_list else dict(d), self.zone, **kwargs))
        return series

    def scale(self):
        return max(abs(v) for p in self.points for v in p[1].values())

    def mode_spacing(self):
        """The most common spacing, None if not clear enough."""
        ts = [p[0] for p in self.points]
        counts = {}
        for x, y in zip(ts, ts[1:]):
            counts[y - x] = counts.get(y - x, 0) + 1
        if not counts:
            return None
        best = max(counts, key=lambda k: counts[k])
        if counts[best] * 2 <= sum(counts.values()):
            return None
        return best


def regions(ts, validity):
    out = [[t - validity / 2, t + validity / 2] for t in ts]
    for i in range(1, len(ts)):
        if out[i][0] < out[i - 1][1]:
            out[i][0] = out[i - 1][1] = (out[i][0] + out[i - 1][1]) / 2
    return out


class Interval:
    """What is known of an interval [a,b): contributions of the points and of the gaps."""

    def __init__(self, points, valid, a, b, uniform=False):
        self.a, self.b = a, b
        self.inside = [i for i, p in enumerate(points) if a <= p[0] < b]
        self.parts = []          # (weight, data, index of the point or None if in a gap)
        self.gap_data = []
        duration = b - a
        for i, p in enumerate(points):
            lo, hi = max(valid[i][0], a), min(valid[i][1], b)
            if hi > lo:
                self.parts.append(((hi - lo) / duration, p[1], i))
            if i + 1 < len(points):
                lo, hi = max(valid[i][1], a), min(valid[i + 1][0], b)
                if hi > lo:
                    self.parts.append(((hi - lo) / duration, interpolate(points, i, lo + (hi - lo) / 2, uniform), None))
        self.points = points
        self.uniform = uniform
        self.valid = valid

    def average(self, label):
        total = sum(w for w, _, _ in self.parts)
        return sum(w * d[label] for w, d, _ in self.parts) / total

    def loss(self):
        """The part which is not covered by the points, or lost in them."""
        return 1 - sum(w * (1 - (self.points[i][2] or 0)) for w, _, i in self.parts if i is not None)

    def index(self, name):
        known = [(w, self.points[i][3].get(name)) for w, _, i in self.parts if i is not None]
        known = [(w, v) for w, v in known if v is not None]
        total = sum(w for w, _ in known)
        return sum(w * v for w, v in known) / total if total > 0 else None

    def sequence(self):
        """The data of the points in the interval, with one more in each gap."""
        out = []
        for n, i in enumerate(self.inside):
            if n > 0:
                lo, hi = self.valid[i - 1][1], self.valid[i][0]
                if lo < hi:
                    out.append(interpolate(self.points, i - 1, lo + (hi - lo) / 2, self.uniform))
            out.append(self.points[i][1])
        if not out:
            out.append({label: self.average(label) for label in self.points[0][1]})
        return out


def interpolate(points, i, t, uniform=False):
    p, q = points[i], points[i + 1]
    if uniform:
        return {label: (p[1][label] + q[1][label]) / 2 for label in p[1]}
    return {label: p[1][label] + (t - p[0]) * (q[1][label] - p[1][label]) / (q[0] - p[0]) for label in p[1]}


def grid_safe(zone, unit):
    """If a fixed-length unit divides every UTC offset of the zone (so that epoch and local alignments are the same)."""
    if zone == 'UTC':
        return True
    seconds = unit_seconds(unit)
    return 1800 % seconds == 0


def first_slot(t, unit, zone):
    """The first aligned slot start at or after an epoch, with independent calendar arithmetic."""
    if unit[-1] in SECONDS:
        u = unit_seconds(unit)
        q = Fraction(t) / u
        k = -((-q.numerator) // q.denominator)
        return k * u
    tz = pytz.timezone(zone)
    dt = gen.from_epoch(t, zone)
    kind = unit[-1]
    naive = _dt.datetime(dt.year, dt.month, dt.day)
    if kind == 'M':
        naive = naive.replace(day=1)
    elif kind == 'Y':
        naive = naive.replace(month=1, day=1)
    elif kind == 'W':
        naive -= _dt.timedelta(days=naive.weekday())
    start = tz.localize(naive) if zone != 'UTC' else naive.replace(tzinfo=UTC)
    if gen.epoch(start) < t:
        start = gen.next_local(start, unit)
    return gen.epoch(start)


def bounds_until(start, unit, zone, last_t):
    """Slot bounds from a start on, up to (and including) the last one not after last_t."""
    bounds = [start]
    dt = gen.from_epoch(start, zone)
    if unit[-1] in SECONDS:
        u = unit_seconds(unit)
        while bounds[-1] + u <= last_t:
            bounds.append(bounds[-1] + u)
        return bounds
    while True:
        dt = gen.next_local(dt, unit)
        t = gen.epoch(dt)
        if t > last_t:
            return bounds
        bounds.append(t)
