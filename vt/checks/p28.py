import contextlib
import math
import statistics
import numpy

from timeseria import utilities
from timeseria.exceptions import NotEnoughDataError
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster, ProphetForecaster
from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor, Reconstructor

from .. import gen, models, obs

RULE = ('evaluations and cross validations of user-written (with a call log) and library forecasters and reconstructors on regular point and slot series (views as well), with all the metrics, per-item results, '
        'limits and data losses, against the metrics computed from the reference predictions; what each model was shown is checked too; distinct by model, options and content')
FLOORS = {'metrics': 3000, 'predictions': 10000, 'result_series': 200, 'cross_validations': 150, 'rounds': 500, 'reconstructions': 300, 'lossy_evaluations': 50, 'prophet': 4, 'error_plots': 60}

ALL = ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']


def metric(name, actual, predicted):
    e = [a - p for a, p in zip(actual, predicted)]
    pe = [(a - p) / a for a, p in zip(actual, predicted)]
    le = [math.log(a / p) if a / p > 0 else math.nan for a, p in zip(actual, predicted)] if name.endswith('LE') else None
    n = len(e)
    return {'MSE': lambda: sum(x * x for x in e) / n, 'RMSE': lambda: math.sqrt(sum(x * x for x in e) / n), 'MAE': lambda: sum(map(abs, e)) / n, 'HAE': lambda: max(map(abs, e)),
            'MAPE': lambda: sum(map(abs, pe)) / n, 'HAPE': lambda: max(map(abs, pe)), 'MALE': lambda: sum(map(abs, le)) / n, 'HALE': lambda: max(map(abs, le))}[name]()


def positive_rows(rng, n, labels, period=None):
    rows = models.rows(rng, n, labels, period, noise=rng.choice([0.5, 1, 5]))
    return [{label: round(v + 100, 4) for label, v in d.items()} for d in rows]


def utility(ctx, rng, index):
    n = rng.choice([1, 2, 5, 30])
    a = [round(rng.uniform(0.1, 50), 3) * rng.choice([1, 1, 1000]) for _ in range(n)]
    b = [round(rng.uniform(0.1, 50), 3) * rng.choice([1, 1, 1000]) if rng.random() < 0.9 else a[i] for i in range(n)]
    for name, function in (('MSE', 'mean_squared_error'), ('MAE', 'mean_absolute_error'), ('HAE', 'max_absolute_error'), ('MAPE', 'mean_absolute_percentage_error'),
                           ('HAPE', 'max_absolute_percentage_error'), ('MALE', 'mean_absolute_log_error'), ('HALE', 'max_absolute_log_error')):
        sa, sb = a, b
        if name[-2:] != 'LE' and rng.random() < 0.5:
            sa, sb = [x if rng.random() < 0.5 else -x for x in a], [-x if rng.random() < 0.5 else x for x in b]
        got, want = getattr(utilities, function)(sa, sb), metric(name, sa, sb)
        ctx.check(obs.close(got, want, rel=1e-7, abs_=1e-9), lambda: '%s of %s and %s is %s instead of %s' % (function, sa, sb, got, want), 'utility')
        ctx.count('metrics')
        error = ctx.raises(lambda: getattr(utilities, function)(a, b + [1]), ValueError)
        ctx.check(error is not None, '%s accepts lists of different lengths' % function, 'lengths')
    ctx.sig(a, b)


def check_calls(ctx, calls, window, n, first_t, bounds, what):
    """Every prediction was asked on the items before the one to predict, and only on them."""
    lengths = [c[2] for c in calls if c[0] == 'predict']
    for c in calls:
        if c[0] != 'predict':
            continue
        ctx.count('predictions')
        ctx.check(c[1] == 1 and c[3] == first_t and c[4] == bounds[c[2] - 1], lambda: '%s: asked to predict from %r' % (what, c[:5]), 'leak')
    ctx.check(set(lengths) == set(range(window, n)), lambda: '%s: predicted items %s instead of %s..%s' % (what, sorted(set(lengths)), window, n - 1), 'coverage')


@contextlib.contextmanager
def figures():
    """Titles and bars of the figures which are shown"""
    from matplotlib import pyplot
    shown = []
    def show(*args, **kwargs):
        for axes in pyplot.gcf().axes:
            shown.append((axes.get_title(), [(x.get_x(), x.get_width(), x.get_height()) for x in axes.patches]))
        pyplot.close('all')
    real, pyplot.show = pyplot.show, show
    try:
        yield shown
    finally:
        pyplot.show = real
        pyplot.close('all')


def evaluate(ctx, rng, index):
    labels = gen.labels(rng)
    window = rng.choice([1, 2, 3, 5])
    n = window + rng.choice([1, 2, 5, 20])
    line = models.Line(rng, n + 4)
    if line.kind == 'points':
        n = max(n, 2)
    rows = positive_rows(rng, n, labels)
    weights = [rng.uniform(0.5, 1.5) for _ in range(window)]
    weights = [round(w / sum(weights), 3) for w in weights]
    with_fit = rng.random() < 0.6
    cls, one_step = models.custom_forecaster(window, weights, round(rng.uniform(-1, 1), 1), rng.choice(['single', 'multi']), with_fit, rng.random() < 0.7)
    model = cls()
    what = 'forecaster (window %s, fit %s) on %s %s' % (window, with_fit, n, line.kind)
    series = line.series(rows)
    target, first = series, 0
    if with_fit:
        model.fit(series)
    if rng.random() < 0.3 and n > window + 2:
        # On a part of the series
        first = rng.randint(0, n - window - 2)
        last = rng.randint(first + window + 2, n)
        target = series.view(first, last) if rng.random() < 0.5 else series[first:last]
        rows, n = rows[first:last], last - first
    options = {}
    metrics = rng.choice([None, None, ALL, [rng.choice(ALL)], ['MAE', 'MAPE', 'MALE']])
    if metrics:
        options['error_metrics'] = list(metrics)
    punctual = rng.choice([None, ['E'], ['E', 'PE', 'LE']])
    results_series = rng.random() < 0.5
    if results_series:
        options['return_results_series'] = True
        if punctual:
            options['punctual_error_metrics'] = punctual
    before = obs.snap(target)
    model.calls = []
    drawn = rng.random() < 0.12
    if drawn:
        options['plot_error_distribution'] = True
        if punctual:
            options['punctual_error_metrics'] = punctual
    with figures() as shown:
        got = models.aloud(rng, model.evaluate, target, **options)
    ctx.check(obs.diff(before, obs.snap(target)) is None, '%s: the evaluation changed the series' % what, 'source-changed')
    check_calls(ctx, model.calls, window, n, line.bounds[first], line.bounds[first:], what)
    want = {}
    predicted = {}
    for label in labels:
        column = [d[label] for d in rows]
        predicted[label] = [one_step(column[i - window:i]) + (models.bias_of(label) if with_fit else 0) for i in range(window, n)]
        for name in metrics or ['RMSE', 'MAE']:
            want['%s_%s' % (label, name)] = metric(name, column[window:], predicted[label])
    errors = {'AE': lambda a, p: abs(a - p), 'APE': lambda a, p: abs((a - p) / a), 'ALE': lambda a, p: abs(math.log(a / p)), 'E': lambda a, p: a - p, 'PE': lambda a, p: (a - p) / a, 'LE': lambda a, p: math.log(a / p)}
    plots = sorted('%s distribution for "%s"' % (x, label) for label in labels for x in [m[1:] for m in (metrics or ['RMSE', 'MAE']) if m in ('MAE', 'MAPE', 'MALE')] + (options.get('punctual_error_metrics') or [])) if drawn else []
    ctx.check(sorted(title for title, _ in shown) == plots, lambda: '%s: plots %s instead of %s' % (what, [x[0] for x in shown], plots), 'error-plots')
    for title, bars in shown:
        name, label = title.split(' ')[0], title.split('"')[1]
        values = [errors[name](rows[i][label], predicted[label][i - window]) for i in range(window, n)]
        heights, edges = numpy.histogram(values, bins=len(bars), density=True)
        # (which of two bars an error on an edge belongs to is a matter of rounding, and so is the width of the bars for a single error)
        if max(values) - min(values) > 1e-6:
            ctx.check(obs.close(bars[0][0], min(values), rel=1e-5, abs_=1e-6) and obs.close(bars[-1][0] + bars[-1][1], max(values), rel=1e-5, abs_=1e-6)
                      and sum(abs(x[2] - h) * x[1] for x, h in zip(bars, heights)) < 0.05 + 4.5 / len(values), lambda: '%s: the bars of the %s are not those of the errors' % (what, title), 'error-plots')
            ctx.count('error_plots')
    series_ = got.pop('series', None)
    ctx.check(sorted(got) == sorted(want), lambda: '%s: got %s instead of %s' % (what, sorted(got), sorted(want)), 'metric-names')
    for name in want:
        ctx.count('metrics')
        ctx.check(obs.close(got[name], want[name], rel=1e-6, abs_=1e-7), lambda: '%s: %s is %r instead of %r' % (what, name, got[name], want[name]), 'metric-values')
    ctx.check((series_ is not None) == results_series, 'results series missing or not asked for', 'result-series')
    if results_series:
        ctx.count('result_series')
        ctx.check(len(series_) == n - window, lambda: '%s: results series of %s items instead of %s' % (what, len(series_), n - window), 'result-series')
        names = [m[1:] for m in (metrics or ['RMSE', 'MAE']) if m in ('MAE', 'MAPE', 'MALE')] + (punctual or [])
        for k, item in enumerate(series_):
            i = window + k
            ctx.check(models.start_of(item) == line.bounds[first + i], '%s: results series misplaced' % what, 'result-series')
            ctx.check(sorted(item.data) == sorted(labels + ['%s_%s' % (label, x) for label in labels for x in ['pred'] + names]), lambda: '%s: results labels %s' % (what, sorted(item.data)), 'result-labels')
            for label in labels:
                a, p = rows[i][label], predicted[label][k]
                reference = {'pred': p, 'AE': abs(a - p), 'APE': abs((a - p) / a), 'ALE': abs(math.log(a / p)) if a / p > 0 else 0, 'E': a - p, 'PE': (a - p) / a, 'LE': math.log(a / p) if a / p > 0 else 0}
                ctx.check(item.data[label] == a, '%s: results with another actual value' % what, 'result-actual')
                for x in ['pred'] + names:
                    ctx.check(obs.close(item.data['%s_%s' % (label, x)], reference[x], rel=1e-6, abs_=1e-7), lambda: '%s: item %s has %s %r instead of %r' % (what, i, x, item.data['%s_%s' % (label, x)], reference[x]), 'result-values')
    error = ctx.raises(lambda: model.evaluate(target, error_metrics=['XYZ']), ValueError)
    ctx.check(error is not None, 'unknown metric accepted', 'unknown-metric')
    ctx.sig(window, weights, repr(options), line.describe(), repr(rows)[:300])
    ctx.sample({'evaluation': what, 'options': options, 'results': got})


def periodic(ctx, rng, index):
    """The periodic average forecaster on its fit series and on the following items."""
    period = rng.choice([2, 3, 4, 6])
    n = period * rng.randint(3, 6)
    line = models.Line(rng, 2 * n + 3)
    labels = gen.labels(rng)
    rows = positive_rows(rng, 2 * n, labels, period)
    model = PeriodicAverageForecaster()
    model.fit(line.series(rows[:n]), periodicity=period)
    first = rng.choice([0, n, n - 1])
    target = line.series(rows[first:first + n], first=first)
    got = models.aloud(rng, model.evaluate, target, error_metrics=list(ALL))
    fit_items = [(i, rows[i], None) for i in range(n)]
    for label in labels:
        allowed = []
        for shifted in (False, True):
            predicted = [models.pa_forecast(line, fit_items, [(k, rows[k], None) for k in range(first, first + i)], label, period, period, 1, shifted=shifted)[0] for i in range(period, n)]
            allowed.append([metric(name, [rows[first + i][label] for i in range(period, n)], predicted) for name in ALL])
        values = [got['%s_%s' % (label, name)] for name in ALL]
        ctx.count('metrics', len(ALL))
        ctx.check(any(all(obs.close(v, w, rel=1e-6, abs_=1e-6) for v, w in zip(values, a)) for a in allowed), lambda: 'periodic average forecaster: %r instead of %r for %r' % (values, allowed, ALL), 'metric-values')
    ctx.sig('pa', period, n, first, line.describe(), repr(rows)[:200])


def cross_validate(ctx, rng, index):
    labels = gen.labels(rng)
    window = rng.choice([1, 2, 3])
    rounds = rng.choice([2, 3, 4, 5, 10])
    size = window + rng.randint(2, 5)
    n = rounds * size + rng.choice([0, 0, 1, rounds - 1])
    line = models.Line(rng, n + 2)
    rows = positive_rows(rng, n, labels)
    series = line.series(rows)
    weights = [round(1 / window, 3)] * window
    cls, one_step = models.custom_forecaster(window, weights, 0, rng.choice(['single', 'multi']), True, True, bias='mean')
    updates = rng.random() < 0.4
    if updates:
        def fit_update(self, series, **kwargs):
            self.calls.append(('update', kwargs) + models.record(series) + ([models.start_of(x) for x in series],))
        cls.fit_update = fit_update
    model = cls()
    options = {}
    if rounds != 10 or rng.random() < 0.5:
        options['rounds'] = rounds
    extra = rng.random() < 0.4
    fit_options = {}
    if extra:
        # Only the first prefix is to be removed, whatever follows
        fit_options = {rng.choice(['something', 'best_fit_only', 'fit_twice', 'evaluate_on', 'fit']): 7}
        options.update({'fit_' + key: fit_options[key] for key in fit_options})
    metrics = rng.choice([None, ['MAE'], ['MSE', 'HAPE']])
    if metrics:
        options['evaluate_error_metrics'] = metrics
    what = 'cross validation of %s %s with %r' % (n, line.kind, options)
    before = obs.snap(series)
    if rng.random() < 0.2:
        error = ctx.raises(lambda: model.cross_validate(series, **dict(options, **{rng.choice(['something', 'metrics', 'refit_something', 'x_evaluate_metrics']): 1})))
        ctx.check(error is not None, '%s: an unknown argument was accepted' % what, 'unknown-argument')
        ctx.check(not model.calls and not model.fitted, '%s: refused but already fitting' % what, 'unknown-argument')
    got = model.cross_validate(series, **options)
    ctx.check(obs.diff(before, obs.snap(series)) is None, '%s: the series changed' % what, 'source-changed')
    k = n // rounds
    fits = [c for c in model.calls if c[0] == 'fit']
    ctx.check(len(fits) == rounds, lambda: '%s: %s fits' % (what, len(fits)), 'rounds')
    position = {line.bounds[i]: i for i in range(n)}
    scores = {}
    calls = list(model.calls)
    for r in range(rounds):
        ctx.count('rounds')
        low, high = r * k, (r + 1) * k
        call = calls.pop(0)
        ctx.check(call[0] == 'fit' and (call[1] == fit_options), lambda: '%s: fit with %r' % (what, call[:2]), 'fit-arguments')
        seen = [position[t] for t in call[6]]
        ctx.check(not any(low <= i < high for i in seen), lambda: '%s: round %s fitted on the items %s..%s it is validated on (fit on %s..%s)' % (what, r, low, high - 1, seen[0], seen[-1]), 'leak')
        before_, after = list(range(0, low)), list(range(high, n))
        ctx.check(seen in (before_, after) and len(seen) == max(len(before_), len(after)), lambda: '%s: round %s fitted on %s..%s' % (what, r, seen[0], seen[-1]), 'fit-items')
        if calls and calls[0][0] == 'update':
            call = calls.pop(0)
            other = [position[t] for t in call[6]]
            ctx.check(other == (after if seen == before_ else before_), '%s: round %s updated on %s..%s' % (what, r, other[0], other[-1]), 'leak')
            ctx.count('updates')
        elif updates:
            ctx.check(min(len(before_), len(after)) < max(window, 1), '%s: no update on the other items' % what, 'update')
        mine = []
        while calls and calls[0][0] == 'predict':
            mine.append(calls.pop(0))
        ctx.check(sorted(set(c[2] for c in mine)) == list(range(window, k)) and all(c[3] == line.bounds[low] and c[4] == line.bounds[low + c[2] - 1] for c in mine),
                  '%s: round %s did not predict the items %s..%s' % (what, r, low + window, high - 1), 'validated-items')
        ctx.count('predictions', len(mine))
        for label in labels:
            bias = sum(rows[i][label] for i in seen) / len(seen)
            column = [d[label] for d in rows[low:high]]
            predicted = [one_step(column[i - window:i]) + bias for i in range(window, k)]
            for name in metrics or ['RMSE', 'MAE']:
                scores.setdefault('%s_%s' % (label, name), []).append(metric(name, column[window:], predicted))
    want = {}
    for name, values in scores.items():
        want[name + '_avg'] = statistics.mean(values)
        want[name + '_stdev'] = statistics.stdev(values)
    ctx.check(sorted(got) == sorted(want), lambda: '%s: got %s instead of %s' % (what, sorted(got), sorted(want)), 'metric-names')
    for name in want:
        ctx.count('metrics')
        ctx.check(obs.close(got[name], want[name], rel=1e-6, abs_=1e-6), lambda: '%s: %s is %r instead of %r' % (what, name, got[name], want[name]), 'cross-validation')
    ctx.check(model.fitted is False, 'a model which was cross validated is left as fitted', 'fitted')
    ctx.count('cross_validations')
    ctx.sig(window, rounds, n, repr(options), line.describe(), repr(rows)[:300])


def reconstructor(ctx, rng, index):
    label = rng.choice(gen.LABELS)
    which = rng.choice(['linear', 'periodic', 'custom'])
    period = rng.choice([2, 3, 5])
    n = rng.choice([8, 12, 20, 30])
    line = models.Line(rng, n + 2)
    rows = positive_rows(rng, n, [label], period)
    threshold = rng.choice([1.0, 1.0, 0.5])
    losses = [rng.choice([None, 0, threshold / 2, threshold / 2, 0]) if rng.random() < 0.85 else threshold for _ in range(n)] if rng.random() < 0.5 else None
    series = line.series(rows, losses=losses)
    bad = [losses is not None and loss is not None and loss >= threshold for loss in (losses or [None] * n)]
    column = [d[label] for d in rows]
    calls = []
    window = 1
    if which == 'linear':
        model = LinearInterpolationReconstructor()

        def reference(a, b):
            t0, t1 = line.bounds[a - 1], line.bounds[b + 1]
            return [column[a - 1] + (column[b + 1] - column[a - 1]) * (line.bounds[i] - t0) / (t1 - t0) for i in range(a, b + 1)]
    elif which == 'periodic':
        model = PeriodicAverageReconstructor()
        model.fit(series, periodicity=period, data_loss_limit=None)
        means = models.averages([(i % period, v) for i, v in enumerate(column)])

        def reference(a, b):
            offset = (column[a - 1] - means[(a - 1) % period] + column[b + 1] - means[(b + 1) % period]) / 2
            return [means[i % period] + offset for i in range(a, b + 1)]
    else:
        window = rng.choice([1, 2])

        class Custom(Reconstructor):
            def predict(self, series, from_i, to_i):
                calls.append((from_i, to_i))
                return [{label: series[from_i - window].data[label] * 0.5 + series[to_i + window].data[label] * 0.5} for _ in range(from_i, to_i + 1)]
        Custom.window = window
        model = Custom()

        def reference(a, b):
            return [column[a - window] * 0.5 + column[b + window] * 0.5 for _ in range(a, b + 1)]
    options = {}
    steps = rng.choice([None, 1, 2, 3, [1, 3], [2]])
    if steps:
        options['steps'] = steps
    the_steps = ([1, period] if which == 'periodic' else [1, 2, 3]) if steps is None else steps if isinstance(steps, list) else list(range(1, steps + 1))
    metrics = rng.choice([None, ['RMSE', 'MAE', 'MAPE'], ['MAPE'], ['MAE']])
    if metrics:
        options['metrics'] = metrics
    limit = rng.choice([None, None, 1, 3])
    if limit:
        options['limit'] = limit
    if threshold != 1.0:
        options['data_loss_threshold'] = threshold
    details = rng.random() < 0.5
    if details:
        options['details'] = True
    what = '%s reconstructor on %s %s, losses %s, %r' % (which, n, line.kind, losses, options)
    before = obs.snap(series)
    allowed = []
    # The last possible place may be left out
    for margin in (0, 1):
        scores = {}
        for s in the_steps:
            places = [i for i in range(window, n - s - window + 1 - margin) if not any(bad[i - window:i + s + window])]
            if limit:
                places = places[:limit]
            actual = [v for i in places for v in column[i:i + s]]
            predicted = [v for i in places for v in reference(i, i + s - 1)]
            if not actual:
                scores = None
                break
            for name in metrics or ['RMSE', 'MAE']:
                scores['%s_%s_steps' % (name, s)] = metric(name, actual, predicted)
        if scores is not None:
            for name in metrics or ['RMSE', 'MAE']:
                values = [scores['%s_%s_steps' % (name, s)] for s in set(the_steps)]
                scores[name] = sum(values) / len(values)
            if not details:
                scores = {name: scores[name] for name in metrics or ['RMSE', 'MAE']}
        allowed.append(scores)
    try:
        got = model.evaluate(series, **options)
    except NotEnoughDataError:
        ctx.check(None in allowed, what + ': not evaluated', 'not-evaluated')
        ctx.count('not_enough')
        return
    ctx.check(obs.diff(before, obs.snap(series)) is None, what + ': the evaluation changed the series', 'source-changed')
    if which == 'custom':
        ctx.check(all(not any(bad[a - window:b + 1 + window]) for a, b in calls), what + ': evaluated on lossy items', 'lossy')
    ctx.count('reconstructions')
    if any(bad):
        ctx.count('lossy_evaluations')
    fine = any(a is not None and sorted(a) == sorted(got) and all(obs.close(got[k], a[k], rel=1e-6, abs_=1e-7) for k in a) for a in allowed)
    ctx.check(fine, lambda: '%s: %r instead of %r' % (what, got, allowed), 'reconstructor-metrics')
    ctx.count('metrics', len(got))
    ctx.sig(which, repr(options), n, line.describe(), repr(rows)[:200], losses)


def prophet(ctx, rng, index):
    """The Prophet forecaster is a function of the time only, each item is compared with the prediction for it."""
    n = rng.choice([6, 12, 24])
    size = rng.choice([24, 48])
    line = models.Line(rng, size + 2, unit=rng.choice(['1h', '1D']), spacing=rng.choice([600, 3600]))
    label = rng.choice(gen.LABELS)
    rows = positive_rows(rng, size, [label], 6)
    series = line.series(rows)
    model = ProphetForecaster()
    model.fit(series)
    one = model.predict(series[0:size - 1])
    ctx.check(isinstance(one, list) and len(one) == 1 and sorted(one[0]) == [label], lambda: 'Prophet: predicted %r when not asked for a number of steps' % (one,), 'default-steps')
    # What it predicts from the first item, for all of the following ones
    predicted = [None] + [d[label] for d in model.predict(series.view(0, 1), steps=size)]
    ctx.check(obs.close(one[0][label], predicted[size - 1], rel=1e-6, abs_=1e-6), 'Prophet: the forecast for a same time depends on where it starts', 'prophet-time')
    # On the first items: otherwise, the prediction for an item could be confused with the one for another
    whole = rng.random() < 0.5
    target, n = (series, size) if whole else (series[0:n], n)
    metrics = rng.choice([['RMSE', 'MAE'], list(ALL)])
    got = model.evaluate(target, error_metrics=list(metrics))
    column = [d[label] for d in rows[:n]]
    want = ['%s_%s' % (label, name) for name in metrics]
    ctx.check(sorted(got) == sorted(want), lambda: 'Prophet: got %s instead of %s' % (sorted(got), sorted(want)), 'metric-names')
    # The first item has nothing before
    right = [metric(name, column[1:], predicted[1:n]) for name in metrics]
    # What comes out when it is compared with the prediction for the item after the last one
    wrong = [metric(name, column, [predicted[n]] + predicted[1:n]) for name in metrics]
    values = [got[k] for k in want]
    ctx.count('metrics', len(metrics))
    ctx.count('prophet')
    ctx.sig('prophet', n, line.describe(), repr(rows)[:200])
    close = lambda reference: all(obs.close(a, b, rel=1e-5, abs_=1e-6) for a, b in zip(values, reference))
    if not close(right):
        ctx.check(close(wrong), lambda: 'Prophet forecaster: %r instead of %r for %r' % (values, right, metrics), 'metric-values')
        ctx.fail('Prophet forecaster: the first item is evaluated with the prediction for the one after the last', 'prophet-first-item')


CASES = {'utility': {'run': utility, 'quick': 500, 'thorough': 6000},
         'evaluate': {'run': evaluate, 'quick': 800, 'thorough': 10000},
         'periodic': {'run': periodic, 'quick': 150, 'thorough': 1500},
         'cross_validate': {'run': cross_validate, 'quick': 400, 'thorough': 5000},
         'reconstructor': {'run': reconstructor, 'quick': 900, 'thorough': 12000},
         'prophet': {'run': prophet, 'quick': 8, 'thorough': 48}}
SCALE = {'quick': 1, 'thorough': 2}
