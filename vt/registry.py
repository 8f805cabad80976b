"""Computations on time series: what can be asked to a series (or to a model, about a series) without changing it in place."""
import contextlib
import copy
import io
import os
import re

import numpy
import pandas

from timeseria.datastructures import Point, Series, Slot, TimeSeries
from timeseria.interpolators import LinearInterpolator, UniformInterpolator
from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector
from timeseria.models.base import Model
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor
from timeseria.storages import CSVFileStorage
from timeseria.transformations import Aggregator, Resampler
from timeseria.units import TimeUnit
from timeseria.utilities import detect_periodicity, detect_sampling_interval

from . import gen, models, obs


class Task:
    """A computation, always the same for the same random state and content of the series."""

    def __init__(self, name, args, run, shares=False, model=None):
        self.name = name
        self.args = args        # what the user passes in, and may pass in or look at again
        self.run = run          # from the series to the result
        self.shares = shares    # the items in the result are, by design, those of the series
        self.model = model

    def __repr__(self):
        return '%s%r' % (self.name, tuple(self.args))


# -- observation of any result -------------------------------------------------

def canon(x, depth=0):
    """Everything that can be seen of a result, exactly."""
    if depth > 12:
        return '...'
    if isinstance(x, Series):
        out = [type(x).__name__, [canon(item, depth + 1) for item in x]]
        if isinstance(x, TimeSeries):
            out += [str(x.tz), str(x.resolution) if len(x) else None]
        return out
    if isinstance(x, (Point, Slot)):
        if hasattr(x, 'data'):
            s = obs.snap_item(x)
            s['data'], s['indexes'] = canon(x.data, depth + 1), canon(x.data_indexes, depth + 1)
            return [repr(s[k]) if k not in ('data', 'indexes') else s[k] for k in sorted(s)]
        return clean(repr(x))
    if isinstance(x, Model):
        return [type(x).__name__, bool(x.fitted)] + [[k, canon(v, depth + 1)] for k, v in sorted(getattr(x, 'data', {}).items()) if k not in ('id', 'fitted_at', 'saved_at')]
    if isinstance(x, dict):
        return ['dict', sorted(([canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()), key=repr)]
    if isinstance(x, set):
        return ['set', sorted((canon(v, depth + 1) for v in x), key=repr)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [canon(v, depth + 1) for v in x]]
    if isinstance(x, pandas.DataFrame):
        return ['df', [str(c) for c in x.columns], [clean(repr(i)) for i in x.index], [[repr(v) for v in row] for row in x.values.tolist()]]
    if isinstance(x, numpy.ndarray):
        return ['array', canon(x.tolist(), depth + 1)]
    return clean(repr(x))


def clean(text):
    text = re.sub(r'0x[0-9a-f]+', '0x', text)
    return re.sub(r'[0-9a-f]{8}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{4}-?[0-9a-f]{12}', 'uuid', text)


def outcome(task, series, keep=False):
    """The result (or the error) of a task in its canonical form, and the result itself if to keep."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            result = task.run(series)
    except Exception as e:
        got = ['error', type(e).__name__, clean(str(e))]
        return (got, None) if keep else got
    got = ['result', canon(result), clean(out.getvalue())]
    return (got, result) if keep else got


# -- series ------------------------------------------------------------------

def series(rng, n=None, plain=False):
    """A series of points or slots, regular or not, possibly with losses and anomalies, and with gaps (not in time) to reconstruct."""
    kind = rng.random()
    names = rng.choice([(), (), ('data_loss',), ('data_loss', 'anomaly')])
    if plain or kind < 0.55:
        n = n or rng.choice([4, 8, 13, 24, 40])
        line = models.Line(rng, n)
        labels = gen.labels(rng)
        rows = models.rows(rng, n, labels, period=rng.choice([None, 3, 4, 6]))
        indexes = None
        if names or plain:
            lost = set()
            for _ in range(rng.randint(0, 3)):
                first = rng.randrange(n)
                lost.update(range(first, first + rng.randint(1, 2)))
            indexes = [dict({'data_loss': 1 if i in lost else round(rng.random() * 0.4, 2)}, **({'anomaly': round(rng.random(), 2)} if 'anomaly' in names else {})) for i in range(n)]
        return line.series(rows, indexes=indexes)
    return gen.any_series(rng, n=n or rng.choice([1, 2, 3, 5, 8, 13, 30]), index_names=names)


def times_of(s):
    return [models.start_of(x) for x in s]


# -- the computations ----------------------------------------------------------

def per_label(rng, labels, function):
    return {label: function() for label in labels}


def task_queries(rng, s, labels, path):
    which = rng.choice(['len', 'str', 'repr', 'bool', 'resolution', 'tz', 'labels', 'indexes', 'guess', 'item_type', 'head', 'tail', 'contents', 'summary', 'inspect', 'getitem', 'slice', 'index', 'in', 'periodicity',
                        'sampling', 'iterate', 'item', 'by_label', 'eq', 'get_t', 'get_label'])
    n = len(s)
    i = rng.randrange(n)
    k = rng.choice([1, 2, 5, 10])
    newlines = rng.random() < 0.5
    t = times_of(s)[i]
    label = rng.choice(labels)
    a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    table = {'len': len, 'str': str, 'repr': repr, 'bool': bool, 'resolution': lambda x: [str(x.resolution), getattr(x, '_resolution_string', None)], 'tz': lambda x: str(x.tz), 'labels': lambda x: x.data_labels(),
             'indexes': lambda x: x._all_data_indexes() if hasattr(x, '_all_data_indexes') else obs.all_indexes(x), 'guess': lambda x: x.guess_resolution(confidence=True), 'item_type': lambda x: x.item_type.__name__, 'head': lambda x: x.head(k), 'tail': lambda x: x.tail(k),
             'contents': lambda x: x.contents(), 'summary': lambda x: x.summary(k, newlines), 'inspect': lambda x: x.inspect(k), 'getitem': lambda x: x[i], 'slice': lambda x: x[a:b], 'index': lambda x: x.index(x[i]),
             'in': lambda x: x[i] in x, 'periodicity': detect_periodicity, 'sampling': lambda x: detect_sampling_interval(x, confidence=True), 'iterate': lambda x: [y for y in x], 'item': lambda x: [str(x[i]), repr(x[i])],
             'by_label': lambda x: x[i]._data_by_label(label), 'eq': lambda x: [x[i] == x[0], x == x.duplicate()], 'get_t': lambda x: x.get(at_t=t), 'get_label': lambda x: x.get(i)}
    return Task('query:' + which, [k, i, a, b, t, label, newlines], table[which], shares=True)


def task_operation(rng, s, labels, path):
    which = rng.choice(['min', 'max', 'avg', 'sum', 'derivative', 'derivative', 'integral', 'integral', 'diff', 'csum', 'normalize', 'normalize', 'rescale', 'offset', 'mavg', 'filter', 'select'])
    if which in ('min', 'max', 'avg', 'sum'):
        args, kwargs = ([rng.choice(labels)] if rng.random() < 0.5 else []), {}
    elif which == 'derivative':
        args, kwargs = [], {'normalize': rng.random() < 0.5, 'diffs': rng.random() < 0.5}
    elif which == 'integral':
        number = lambda: rng.choice([0, 1, 2.5, -10])
        pick = lambda: per_label(rng, labels, number) if rng.random() < 0.6 else number()
        args, kwargs = [], {'normalize': rng.random() < 0.5, 'c': pick(), 'offset': pick()}
    elif which == 'csum':
        args, kwargs = [], ({'offset': per_label(rng, labels, lambda: rng.choice([0, 1, 2.5]))} if rng.random() < 0.6 else {})
    elif which == 'normalize':
        args, kwargs = [], {}
        if rng.random() < 0.6:
            kwargs['range'] = rng.choice([[0, 1], [-1, 1], [2, 10]])[:]
        if rng.random() < 0.6:
            kwargs['source_range'] = per_label(rng, labels, lambda: [-100, 150]) if rng.random() < 0.6 else rng.choice([[-120, 120], [-1, 1], [2, 10]])[:]
    elif which in ('rescale', 'offset'):
        # Including the value with which nothing changes, which still has to give a new series
        neutral = 1 if which == 'rescale' else 0
        number = lambda: neutral if rng.random() < 0.25 else rng.choice([2, 0.5, -3])
        args, kwargs = [per_label(rng, labels, number) if rng.random() < 0.6 else number()], {}
    elif which == 'mavg':
        args, kwargs = [rng.choice([1, 2, 3])], {}
    elif which == 'filter':
        args, kwargs = rng.sample(labels, rng.randint(1, len(labels))), {}
    elif which == 'select':
        label = rng.choice(labels)
        args, kwargs = ['%s=%r' % (label, obs.value(rng.choice(list(s)), label) if rng.random() < 0.8 else 0.123)], {}
    else:
        args, kwargs = [], {}
    return Task(which, [args, kwargs], lambda x: getattr(x, which)(*args, **kwargs), shares=which == 'select')


def task_merge(rng, s, labels, path):
    other = s.duplicate()
    if rng.random() < 0.3 and len(other) > 3:
        other = other[1:]
    if isinstance(other[0].data, dict):
        for label in labels:
            other.rename_data_label(label, label + '_other')
    if rng.random() < 0.3:
        other.change_tz(rng.choice(gen.ZONES))
    first = rng.random() < 0.5
    return Task('merge', [other], lambda x: x.merge(other) if first else other.merge(x))


def task_part(rng, s, labels, path):
    n = len(s)
    times = times_of(s)
    a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    how = rng.choice(['i', 't', 'dt', 'view', 'brackets', 'bracket_t'])
    zone = rng.choice(gen.ZONES)
    t1, t2 = sorted((rng.choice(times), rng.choice(times) + rng.choice([0, 1, 60])))
    if how == 'i':
        return Task('slice:i', [a, b], lambda x: x.slice(from_i=a, to_i=b), shares=True)
    if how == 't':
        return Task('slice:t', [t1, t2], lambda x: x.slice(from_t=t1, to_t=t2), shares=True)
    if how == 'dt':
        d1, d2 = gen.from_epoch(t1, zone), gen.from_epoch(t2, zone)
        return Task('slice:dt', [d1, d2], lambda x: x.slice(from_dt=d1, to_dt=d2), shares=True)
    if how == 'view':
        return Task('view', [a, b], lambda x: x.view(a, b).materialize())
    if how == 'brackets':
        return Task('brackets', [a, b], lambda x: x[a:b], shares=True)
    d1, d2 = gen.from_epoch(t1, zone), gen.from_epoch(t2, zone)
    return Task('brackets:dt', [d1, d2], lambda x: x[d1:d2], shares=True)


def task_copy(rng, s, labels, path):
    zone = rng.choice(gen.ZONES)
    which = rng.choice(['duplicate', 'as_tz', 'as_tz', 'copy', 'deepcopy'])
    table = {'duplicate': lambda x: x.duplicate(), 'as_tz': lambda x: x.as_tz(zone), 'copy': lambda x: x.copy(), 'deepcopy': lambda x: copy.deepcopy(x)}
    return Task(which, [zone], table[which], shares=which == 'copy')


def task_transformation(rng, s, labels, path):
    times = times_of(s)
    span = max(times[-1] - times[0], 1)
    candidates = [u for u in ['1s', '5s', '1m', '10m', '15m', '1h', '6h', '1D', '1W', '1M', '1Y'] if span / 120 <= {'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 604800, 'M': 2592000, 'Y': 31536000}[u[-1]] * int(u[:-1]) <= span]
    unit = rng.choice(candidates or ['1h'])
    unit = TimeUnit(unit) if rng.random() < 0.3 else unit
    options = {}
    if rng.random() < 0.3:
        options['interpolator_class'] = rng.choice([LinearInterpolator, UniformInterpolator])
    process = {}
    if rng.random() < 0.2:
        process['fill_gaps'] = False
    if rng.random() < 0.2:
        process['validity'] = rng.choice([1, 60, 600])
    if rng.random() < 0.2:
        process['fill_with'] = rng.choice([0, 7.5])
    if rng.random() < 0.1:
        process['force_data_loss'] = 0.5
    kind = rng.choice(['aggregate', 'aggregate', 'resample', 'resample', 'aggregator', 'resampler'])
    if kind.startswith('agg'):
        if rng.random() < 0.7:
            options['operations'] = rng.sample(['avg', 'min', 'max', 'sum'], rng.randint(1, 3))
    if kind == 'aggregate':
        return Task(kind, [unit, options], lambda x: x.aggregate(unit, **options))
    if kind == 'resample':
        return Task(kind, [unit, options], lambda x: x.resample(unit, **options))
    transformer = Aggregator(unit, **options) if kind == 'aggregator' else raising(Resampler, unit, **options)
    return Task(kind, [unit, options, process], lambda x: transformer().process(x, **process) if callable(transformer) else transformer.process(x, **process))


def raising(cls, *args, **kwargs):
    """An object or, if it cannot be created, something which fails in the same way."""
    try:
        return cls(*args, **kwargs)
    except Exception:
        return lambda: cls(*args, **kwargs)


def task_conversion(rng, s, labels, path):
    which = rng.choice(['to_dict', 'to_json', 'to_df', 'from_dict', 'from_json', 'from_df', 'to_csv', 'save', 'storage'])
    file_name = os.path.join(path, 'file_%s' % rng.randrange(10 ** 9))
    unit = str(s.resolution) if isinstance(s[0], Slot) else None

    def read(name):
        with open(name) as f:
            return f.read()

    def to_csv(x):
        x.to_csv(file_name, overwrite=True)
        return body(read(file_name))

    def save(x):
        x.save(file_name, overwrite=True)
        return [body(read(file_name)), TimeSeries.load(file_name)]

    def storage(x):
        CSVFileStorage(file_name).put(x, overwrite=True)
        return CSVFileStorage(file_name).get()
    table = {'to_dict': lambda x: x.to_dict(), 'to_json': lambda x: x.to_json(), 'to_df': lambda x: x.to_df(), 'from_dict': lambda x: TimeSeries.from_dict(x.to_dict(), slot_unit=unit),
             'from_json': lambda x: TimeSeries.from_json(x.to_json(), slot_unit=unit), 'from_df': lambda x: TimeSeries.from_df(x.to_df()), 'to_csv': to_csv, 'save': save, 'storage': storage}
    return Task(which, [], table[which])


def body(text):
    """A CSV file without the comments, which say when it was created."""
    return '\n'.join(line for line in text.split('\n') if not line.startswith('# Generated'))


def task_plot(rng, s, labels, path):
    options = {'html': True}
    if rng.random() < 0.3:
        options['data_labels'] = rng.sample(labels, 1)
    if rng.random() < 0.3:
        options['aggregate'] = rng.choice([True, False])
    if rng.random() < 0.3:
        options['aggregate_by'] = rng.choice([2, 10])
    if rng.random() < 0.3:
        options['data_indexes'] = rng.choice([[], ['data_loss'], 'all'])
    if rng.random() < 0.3:
        first, last = gen.from_epoch(times_of(s)[0]), gen.from_epoch(times_of(s)[-1])
        options['mark'] = rng.choice([[first, last], [[first, last]]])
    return Task('plot', [options], lambda x: clean(str(x.plot(**options))))


def task_interpolator(rng, s, labels, path):
    cls = rng.choice([LinearInterpolator, UniformInterpolator])
    times = times_of(s)
    n = len(s)
    calls = []
    for _ in range(rng.randint(1, 4)):
        i = rng.randrange(n)
        j = min(i + 1, n - 1)
        calls.append((times[i] + (times[j] - times[i]) * rng.choice([0.25, 0.5]), i, j))

    def run(x):
        interpolator = cls(x)
        return [interpolator.evaluate(at, prev_i=i, next_i=j) for at, i, j in calls]
    return Task('interpolator', [cls.__name__, calls], run)


def new_model(rng, labels):
    """A fittable model and the options for its fit, apply and evaluate."""
    which = rng.choice(['pa', 'pa', 'par', 'par', 'linear', 'detector', 'detector_r', 'custom'])
    period = rng.choice([2, 3, 4])
    fit = {'periodicity': period} if rng.random() < 0.7 else {}
    if which == 'pa':
        return which, PeriodicAverageForecaster(rng.choice(['auto', 1, 3])), fit, {'steps': rng.choice([1, 2, 5])}
    if which == 'par':
        return which, PeriodicAverageReconstructor(), fit, {}
    if which == 'linear':
        return which, LinearInterpolationReconstructor(), None, {}
    if which == 'custom':
        cls = models.custom_forecaster(2, [0.5, 0.25], 1, rng.choice(['single', 'multi']), True, True, bias='mean')[0]
        return which, cls(), {}, {'steps': rng.choice([1, 3])}
    if rng.random() < 0.5:
        fit = dict(fit, error_metric=rng.choice(['E', 'AE']), error_distribution=rng.choice(['norm', 'gennorm']))
    return which, (PeriodicAverageAnomalyDetector if which == 'detector' else PeriodicAverageReconstructorAnomalyDetector)(), fit, rng.choice([{}, {}, {'index_type': 'linear'}, {'details': True}, {'multivariate_index_strategy': 'avg'}])


def task_model(rng, s, labels, path):
    which, _, fit, apply = new_model(rng, labels)
    state = rng.getstate()
    rng.random()
    what = rng.choice(['fit', 'apply', 'apply', 'predict', 'evaluate', 'evaluate', 'cross', 'mark', 'twice', 'parts'])
    metrics = rng.choice([None, ['MAE'], ['MAE', 'RMSE']])
    threshold = rng.choice([0.3, 0.6])
    a = max(1, int(len(s) * 0.6))

    def run(x):
        import random
        r = random.Random()
        r.setstate(state)
        _, model, _, _ = again(r, which, labels, fit)
        if fit is not None:
            model.fit(x[:a] if what == 'parts' else x, **fit)
        if what == 'fit':
            return model
        if what == 'predict':
            if which in ('pa', 'custom'):
                return model.predict(x)
            return model.predict(x, from_i=1, to_i=2)
        if what == 'evaluate':
            return model.evaluate(x, **({'error_metrics': metrics} if metrics else {}))
        if what == 'cross':
            return model.cross_validate(x, rounds=2)
        if what == 'mark':
            return model.mark_events(model.apply(x), threshold)
        out = model.apply(x, **apply)
        if what == 'twice':
            return [out, model.apply(x, **apply), model]
        if what == 'parts':
            return [out, model.apply(x[a:], **apply), model]
        return out
    return Task('%s:%s' % (which, what), [fit, apply, metrics], run)


def again(rng, which, labels, fit):
    """A new model of the given type, always the same for the same state."""
    if which == 'pa':
        return which, PeriodicAverageForecaster(rng.choice(['auto', 1, 3])), fit, None
    if which == 'par':
        return which, PeriodicAverageReconstructor(), fit, None
    if which == 'linear':
        return which, LinearInterpolationReconstructor(), fit, None
    if which == 'custom':
        return which, models.custom_forecaster(2, [0.5, 0.25], 1, rng.choice(['single', 'multi']), True, True, bias='mean')[0](), fit, None
    return which, (PeriodicAverageAnomalyDetector if which == 'detector' else PeriodicAverageReconstructorAnomalyDetector)(), fit, None


GROUPS = [(task_queries, 5), (task_operation, 6), (task_merge, 1), (task_part, 2), (task_copy, 1), (task_transformation, 4), (task_conversion, 2), (task_plot, 1), (task_interpolator, 1), (task_model, 4)]


def draw(rng, s, path, groups=GROUPS):
    labels = obs.labels_of(s[0])
    function = rng.choices([g for g, _ in groups], [w for _, w in groups])[0]
    return function(rng, s, labels, path)
