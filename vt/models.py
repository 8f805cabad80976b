"""Workloads and reference formulas for the models."""
import contextlib
import io
import itertools
import math
import os

from timeseria.datastructures import Slot, TimeSeries
from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster
from timeseria.models.reconstructors import Reconstructor

from . import gen

SPACINGS = [0.25, 0.5, 1, 60, 61, 90.5, 600, 900, 3600, 3600, 86400]
UNITS = ['1s', '30s', '1m', '15m', '1h', '1h', '6h', '1D', '1D', '1M', '1W', '1Y']


def start_of(item):
    return item.start.t if isinstance(item, Slot) else item.t


class Line:
    """A regular stretch of time of which any part can be made a series: item i of the line always is at the same place."""

    def __init__(self, rng, n, kind=None, zone=None, unit=None, spacing=None):
        self.kind = kind or rng.choice(['points', 'slots'])
        self.zone = zone or rng.choice(gen.ZONES)
        self.n = n
        if self.kind == 'points':
            self.spacing = spacing or rng.choice(SPACINGS)
            self.unit = None
            start = gen.t0(rng)
            self.bounds = [start + i * self.spacing for i in range(n + 1)]
        else:
            self.unit = unit or rng.choice(UNITS)
            if self.unit == '1Y':
                self.unit = '1M' if n > 60 else '1Y'
            self.bounds = gen.slot_bounds(rng, n, self.unit, self.zone)
            self.spacing = None
        self.how = rng.choice([0, 1])

    def item(self, i, d, **kwargs):
        if self.kind == 'points':
            return gen.point(self.bounds[i], d, self.zone, **kwargs)
        return gen.slot(self.bounds[i], self.bounds[i + 1], self.unit, self.zone, d, self.how, **kwargs)

    def series(self, rows, first=0, losses=None, indexes=None):
        """rows: the data of items first, first + 1..."""
        series = TimeSeries()
        for k, d in enumerate(rows):
            kwargs = {}
            if losses is not None:
                kwargs['data_loss'] = losses[k]
            if indexes is not None:
                kwargs['data_indexes'] = dict(indexes[k])
            series.append(self.item(first + k, dict(d), **kwargs))
        return series

    def resolution_s(self):
        """Length in seconds, for the units which have one."""
        if self.kind == 'points':
            return self.spacing
        if self.unit[-1] in 'smh':
            return int(self.unit[:-1]) * {'s': 1, 'm': 60, 'h': 3600}[self.unit[-1]]
        return None

    def phase(self, i, period, dst_affected=False):
        """The position in the period of item i (up to a constant)."""
        if not dst_affected or self.resolution_s() is None:
            return i % period
        t = self.bounds[i]
        shift = gen.from_epoch(t, self.zone).dst()
        return math.floor((t + (shift.total_seconds() if shift else 0)) / self.resolution_s()) % period

    def describe(self):
        return (self.kind, self.zone, self.unit or self.spacing, self.bounds[0])


def rows(rng, n, labels, period=None, noise=None):
    """Data for n items: noise, and possibly a periodic signal, different for every label."""
    out = []
    shape = {}
    for label in labels:
        shape[label] = (rng.uniform(-20, 20), rng.choice([0, 1, 5]), rng.choice([0, 0.1]), rng.random() * 6)
    noise = rng.choice([0, 1, 10]) if noise is None else noise
    for i in range(n):
        d = {}
        for label in labels:
            base, amplitude, trend, shift = shape[label]
            v = base + trend * i + noise * rng.uniform(-1, 1)
            if period:
                v += amplitude * math.sin(2 * math.pi * i / period + shift)
            d[label] = round(v, 4)
        out.append(d)
    return out


# -- custom models, of which the calls are recorded --------------------------

def record(series):
    return (len(series), start_of(series[0]), start_of(series[-1]), dict(series[-1].data))


def custom_forecaster(window, weights, constant, style, with_fit, decorated, bias='constant'):
    """A forecaster as the users write them: linear in the last values.

    style: single (one step only), multi (list of dicts)
    """
    def one_step(values):
        return sum(w * v for w, v in zip(weights, values[-window:])) + constant

    def predict(self, series, steps=1):
        if len(series) < window:
            raise ValueError('Not enough window data')
        if style == 'single' and steps > 1:
            raise NotImplementedError('one step only')
        self.calls.append(('predict', steps) + record(series))
        labels = series.data_labels()
        values = {label: [item.data[label] for item in series[-window:]] for label in labels}
        out = []
        for _ in range(steps):
            d = {}
            for label in labels:
                d[label] = one_step(values[label]) + (self.data.get('bias', {}).get(label, 0) if with_fit else 0)
            for label in labels:
                values[label].append(d[label])
            out.append(d)
        return out[0] if style == 'single' else out

    def fit(self, series, **kwargs):
        self.calls.append(('fit', kwargs) + record(series) + ([start_of(x) for x in series],))
        self.data['window'] = window
        if bias == 'mean':
            self.data['bias'] = {label: sum(x.data[label] for x in series) / len(series) for label in series.data_labels()}
        else:
            self.data['bias'] = {label: bias_of(label) for label in series.data_labels()}

    body = {'window': window, 'predict': Forecaster.predict_function(predict) if decorated else predict}
    if with_fit:
        body['fit'] = Forecaster.fit_function(fit)

    def __init__(self):
        self.calls = []
        if with_fit:
            self.data = {'window': window}
        Forecaster.__init__(self)
    body['__init__'] = __init__
    return type('CustomForecaster', (Forecaster,), body), one_step


def bias_of(label):
    return len(label) / 4


def iterate(one_step, values, steps, window, bias=0):
    values = list(values)
    out = []
    for _ in range(steps):
        out.append(one_step(values[-window:]) + bias)
        values.append(out[-1])
    return out


# -- reference formulas --------------------------------------------------------

def averages(pairs):
    """pairs of phase and value."""
    sums = {}
    for phase, v in pairs:
        a = sums.setdefault(phase, [0, 0])
        a[0] += v
        a[1] += 1
    return {phase: a[0] / a[1] for phase, a in sums.items()}


def pa_forecast(line, fit_items, series_items, label, period, window, steps, dst_affected=False, limit=1.0, shifted=False):
    """fit_items and series_items: lists of (position on the line, data, loss). The mean of the phase, plus how much
    the window is on average above the means of its phases."""
    means = averages([(line.phase(i, period, dst_affected), d[label]) for i, d, loss in fit_items if limit is None or loss is None or loss < limit])
    n = len(series_items)
    if shifted:
        positions = [n - 1 - window + j for j in range(window)]
    else:
        positions = [n - window + j for j in range(window)]
    used = [series_items[k] for k in positions]
    offset = sum(d[label] - means[line.phase(i, period, dst_affected)] for i, d, _ in used) / window
    last = series_items[-1][0]
    return [means[line.phase(last + k + 1, period, dst_affected)] + offset for k in range(steps)]


def aloud(rng, function, *args, **kwargs):
    """Call the function printing its progress, in some cases: this must not make any difference"""
    if rng.random() < 0.15:
        kwargs['verbose'] = True
        with contextlib.redirect_stdout(io.StringIO()):
            return function(*args, **kwargs)
    return function(*args, **kwargs)


def saved(model, folder):
    """What is saved of a model, by name of the file."""
    path = os.path.join(folder, 'model_%s_%s' % (os.getpid(), next(_numbers)))
    model.save(path)
    out = {}
    for base, _, names in os.walk(path):
        for name in names:
            with open(os.path.join(base, name), 'rb') as f:
                out[os.path.relpath(os.path.join(base, name), path)] = f.read().decode('latin-1')
    return out


_numbers = itertools.count()
