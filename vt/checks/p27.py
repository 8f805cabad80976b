import math
import contextlib
import io
import statistics
import numpy

import scipy.stats

from timeseria.models.anomaly_detectors import AnomalyDetector, ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector
from timeseria.models.reconstructors import Reconstructor

from .. import gen, models, obs

RULE = ('anomaly detectors on user-written forecasters and reconstructors and on the periodic average ones, with all the error metrics, bounds, index types, thresholds and strategies, fitted and applied on '
        'regular series with outliers and data losses: predictions, errors, distribution and index of every item against the reference formulas; event marking against a reference clustering; distinct by content and options')
FLOORS = {'indexes': 5000, 'ones': 300, 'zeros': 300, 'middle': 500, 'lossy_items': 200, 'events': 1000, 'preprocessed': 30, 'reconstructor': 50, 'preprocessed_before_fit': 20, 'inspected_plots': 40}


def mark(ctx, rng, index):
    n = rng.choice([1, 2, 3, 5, 10, 30, 60])
    line = models.Line(rng, n + 1)
    labels = gen.labels(rng)
    rows = models.rows(rng, n, labels)
    rate = rng.choice([0.05, 0.2, 0.5, 0.8])
    values = [rng.choice([1, 1, 0.9, 0.89999, 0.5]) if rng.random() < rate else rng.choice([0, 0, 0.1, 0.49, 0.49999]) for _ in range(n)]
    names = rng.choice([[], ['data_loss']])
    indexes = [dict([('anomaly', v)] + [(name, rng.choice([0, 0.5])) for name in names]) for v in values]
    # Lossy items, for which there is no index
    if rng.random() < 0.25:
        for i in range(n):
            if rng.random() < 0.2:
                indexes[i].pop('anomaly')
    series = line.series(rows, indexes=indexes)
    options = {}
    threshold, persistence, gap = 1.0, 2, 2
    if rng.random() < 0.8:
        threshold = options['index_treshold'] = rng.choice([1.0, 0.5, 0.9, 0.3])
    if rng.random() < 0.8:
        persistence = options['min_persistence'] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.8:
        gap = options['max_gap'] = rng.choice([0, 1, 2, 3, 6])
    replace, inplace = rng.random() < 0.3, rng.random() < 0.3
    if replace:
        options['replace_index'] = True
    if inplace:
        options['inplace'] = True
    clusters = []
    for i in range(n):
        if indexes[i].get('anomaly') is not None and indexes[i]['anomaly'] >= threshold:
            if clusters and i - clusters[-1][1] - 1 <= gap:
                clusters[-1][1] = i
            else:
                clusters.append([i, i])
    marked = set(i for a, b in clusters if b - a + 1 >= persistence for i in range(a, b + 1))
    before = obs.snap(series)
    got = AnomalyDetector.mark_events(series, **options)
    what = 'events in %s with %r' % ([x.get('anomaly') for x in indexes], options)
    if inplace:
        ctx.check(got is series or got is None, 'in-place marking gave another series', 'inplace')
        got = series
    else:
        ctx.check(obs.diff(before, obs.snap(series)) is None, 'marking the events changed the source', 'source-changed')
    ctx.check(len(got) == n, 'items lost', 'length')
    for i, item in enumerate(got):
        want = dict(indexes[i])
        want['anomaly' if replace else 'anomaly_event'] = 1 if i in marked else 0
        ctx.check(dict(item.data_indexes) == want, lambda: '%s: item %s has %r instead of %r' % (what, i, item.data_indexes, want), 'events')
        ctx.check(dict(item.data) == rows[i] and models.start_of(item) == line.bounds[i], 'marking the events changed an item', 'items')
    ctx.count('events', len(clusters))
    ctx.sig(values, options)


def make_model(rng, labels, period):
    """A detector, its window, and its predictions as function of the values and the position."""
    which = rng.choice(['forecaster', 'forecaster', 'reconstructor', 'pa', 'pa_reconstructor'])
    if which in ('pa_reconstructor',) and len(labels) > 1:
        which = 'pa'
    if which == 'forecaster':
        window = rng.choice([1, 2, 4])
        weights = [round(rng.uniform(0.1, 0.6), 2) for _ in range(window)]
        cls, one_step = models.custom_forecaster(window, weights, round(rng.uniform(-1, 1), 1), rng.choice(['single', 'multi']), True, True)
        return which, ModelBasedAnomalyDetector(cls), window, lambda values, i, label: one_step(values[i - window:i]) + models.bias_of(label)
    if which == 'reconstructor':
        window = rng.choice([1, 2])
        shift = round(rng.uniform(-1, 1), 1)

        class Custom(Reconstructor):
            @Reconstructor.fit_function
            def fit(self, series, verbose=False):
                self.data['shift'] = shift

            @Reconstructor.predict_function
            def predict(self, series, from_i, to_i):
                out = {}
                for label in series.data_labels():
                    sides = [series[k].data[label] for k in list(range(from_i - window, from_i)) + list(range(to_i + 1, to_i + 1 + window))]
                    out[label] = [sum(sides) / len(sides) + self.data['shift'] for _ in range(from_i, to_i + 1)]
                return out
        Custom.window = window
        return which, ModelBasedAnomalyDetector(Custom), window, lambda values, i, label: sum(values[i - window:i] + values[i + 1:i + 1 + window]) / (2 * window) + shift
    if which == 'pa':
        return which, PeriodicAverageAnomalyDetector(), period, None
    return which, PeriodicAverageReconstructorAnomalyDetector(), 1, None


def pdf(detector, label):
    name = detector.data['error_distributions'][label]
    params = detector.data['error_distributions_params'][label]
    return lambda x: float(getattr(scipy.stats, name).pdf(x, **params)), params


def error_of(metric, actual, predicted):
    return {'E': lambda: actual - predicted, 'AE': lambda: abs(actual - predicted), 'PE': lambda: (actual - predicted) / actual, 'APE': lambda: abs((actual - predicted) / actual)}[metric]()


def inspect(ctx, rng, detector, labels, what):
    """What is printed and drawn about the errors are the errors and their distribution."""
    from matplotlib import pyplot
    limits = {}
    if rng.random() < 0.3:
        limits['plot_x_min'] = -rng.choice([1, 2.5])
    if rng.random() < 0.3:
        limits['plot_x_max'] = rng.choice([1, 2.5])
    drawn = rng.random() < 0.7
    shown = []
    def show(*args, **kwargs):
        axes = pyplot.gcf().axes[0]
        shown.append(([(list(line.get_xdata()), list(line.get_ydata())) for line in axes.lines], [(x.get_x(), x.get_width(), x.get_height()) for x in axes.patches]))
        pyplot.close('all')
    real, pyplot.show = pyplot.show, show
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            detector.inspect(**({} if drawn and rng.random() < 0.5 else {'plot': drawn}), **limits)
    finally:
        pyplot.show = real
        pyplot.close('all')
    parts = out.getvalue().split('Details for: ')[1:]
    names = [x.split('\n')[0].strip('"') for x in parts]
    ctx.check(sorted(names) == sorted(labels), lambda: '%s: inspected %r' % (what, out.getvalue()[:300]), 'inspect-labels')
    for label, part in zip(names, parts):
        sizes = [abs(e) for e in detector.data['prediction_errors'][label]]
        for name, want in (('avg', sum(sizes) / len(sizes)), ('min', min(sizes)), ('max', max(sizes))):
            got = [line.split(': ')[1] for line in part.split('\n') if line.startswith('Predictive model %s error (abs): ' % name)]
            ctx.check(len(got) == 1 and obs.close(float(got[0]), want, rel=1e-9, abs_=1e-12), lambda: '%s: the %s error of %s is said to be %s and not %s' % (what, name, label, got, want), 'inspect-errors')
    ctx.check(len(shown) == (len(labels) if drawn else 0), lambda: '%s: %s plots for %s labels' % (what, len(shown), len(labels)), 'inspect-plots')
    for label, (lines, bars) in zip(names, shown):
        errors = detector.data['prediction_errors'][label]
        density, _ = pdf(detector, label)
        xs, ys = lines[0]
        low, high = limits.get('plot_x_min', min(errors)), limits.get('plot_x_max', max(errors))
        ctx.check(obs.close(xs[0], low, rel=1e-9, abs_=1e-12) and obs.close(xs[-1], high, rel=1e-9, abs_=1e-12), lambda: '%s: the distribution of %s is drawn from %s to %s and not from %s to %s' % (what, label, xs[0], xs[-1], low, high), 'inspect-range')
        for k in rng.sample(range(len(xs)), 5):
            ctx.check(obs.close(ys[k], density(xs[k]), rel=1e-6, abs_=1e-12), lambda: '%s: another distribution is drawn for %s' % (what, label), 'inspect-density')
        heights, edges = numpy.histogram(errors, bins=len(bars), density=True)
        # (which of two bars an error on an edge belongs to is a matter of rounding)
        ctx.check(obs.close(bars[0][0], min(errors), rel=1e-9, abs_=1e-12) and obs.close(bars[-1][0] + bars[-1][1], max(errors), rel=1e-6, abs_=1e-9)
                  and sum(abs(a[2] - b) * a[1] for a, b in zip(bars, heights)) < 4.5 / len(errors), lambda: '%s: the bars drawn for %s are not those of its errors' % (what, label), 'inspect-bars')
        ctx.count('inspected_plots')
    ctx.count('inspected')


def detect(ctx, rng, index):
    period = rng.choice([3, 4, 6])
    labels = gen.labels(rng, 2)
    which, detector, window, reference = make_model(rng, labels, period)
    n = rng.choice([30, 40, 60]) // period * period
    line = models.Line(rng, n + 2)
    rows = models.rows(rng, n, labels, period, noise=rng.choice([0.5, 1, 3]))
    for d in rows:
        for label in labels:
            d[label] = d[label] + 40 if abs(d[label]) < 1e-3 or rng.random() < 0.02 else d[label]
    reconstructor = which in ('reconstructor', 'pa_reconstructor')
    metric = rng.choice(['E', 'AE', 'PE', 'PE', 'APE'])
    distribution = rng.choice(['norm', 'norm', 'gennorm', 'cauchy', 'logistic'])
    fit_options = {}
    if metric != 'PE' or rng.random() < 0.5:
        fit_options['error_metric'] = metric
    if distribution != 'gennorm' or rng.random() < 0.5:
        fit_options['error_distribution'] = distribution
    if which in ('pa', 'pa_reconstructor'):
        fit_options['periodicity'] = period
    stored = rng.random() < 0.85
    if not stored:
        fit_options['store_errors'] = False
    series = line.series(rows)
    before = obs.snap(series)
    columns = {label: [d[label] for d in rows] for label in labels}
    fit_items = [(i, d, None) for i, d in enumerate(rows)]

    def predictions(rows, i, label):
        """The predictions which are allowed."""
        values = [d[label] for d in rows]
        if which in ('forecaster', 'reconstructor'):
            return [reference(values, i, label)]
        if which == 'pa':
            items = [(k, rows[k], None) for k in range(i)]
            return [models.pa_forecast(line, fit_items, items, label, period, period, 1, shifted=shifted)[0] for shifted in (False, True)]
        means = models.averages([(k % period, d[label]) for k, d, _ in fit_items])
        return [means[i % period] + (values[i - 1] - means[(i - 1) % period] + values[i + 1] - means[(i + 1) % period]) / 2]

    positions = list(range(window + 1, n - window if reconstructor else n))
    # The errors which are expected from the fit. Degenerate cases make the distributions meaningless
    errors = {label: [error_of(metric, columns[label][i], predictions(rows, i, label)[-1]) for i in positions] for label in labels}
    if any(max(e) - min(e) < 1e-3 for e in errors.values()):
        return
    what = '%s detector (metric %s, distribution %s) on %s %s' % (which, metric, distribution, n, line.kind)
    again = rng.random() < 0.3
    for _ in range(2 if again else 1):
        # A second fit takes the place of the first
        models.aloud(rng, detector.fit, series, **fit_options)
    ctx.check(obs.diff(before, obs.snap(series)) is None, what + ': fitting changed the series', 'source-changed')
    if reconstructor:
        ctx.count('reconstructor')
    for label in labels:
        ctx.check(detector.data['error_distributions'][label] == distribution, what + ': another error distribution', 'distribution')
        ctx.check(('prediction_errors' in detector.data) == stored, what + ': errors stored or not against what was asked', 'stored')
        if stored:
            got = detector.data['prediction_errors'][label]
            ctx.check(len(got) == len(positions), lambda: '%s: %s fit errors instead of %s' % (what, len(got), len(positions)), 'fit-errors')
            ctx.check(all(obs.close(a, b, rel=1e-6, abs_=1e-7) for a, b in zip(detector.data['actual_values'][label], [columns[label][i] for i in positions])), what + ': wrong actual values', 'fit-errors')
            for k, i in enumerate(positions):
                allowed = [error_of(metric, columns[label][i], p) for p in predictions(rows, i, label)]
                ctx.check(any(obs.close(got[k], e, rel=1e-6, abs_=1e-7) for e in allowed), lambda: '%s: fit error %s is %r instead of %r' % (what, i, got[k], allowed), 'fit-errors')
            ctx.check(obs.close(detector.data['stdevs'][label], statistics.stdev(got), rel=1e-6), what + ': wrong standard deviation of the errors', 'stdev')
            if distribution == 'norm':
                params = detector.data['error_distributions_params'][label]
                ctx.check(obs.close(params['loc'], statistics.mean(got), rel=1e-5, abs_=1e-7) and obs.close(params['scale'], statistics.pstdev(got), rel=1e-5), what + ': wrong error distribution', 'distribution')

    if stored and rng.random() < 0.3:
        inspect(ctx, rng, detector, labels, what)

    # Apply, on the same or on another series
    target_rows = [dict(d) for d in rows]
    for d in target_rows:
        for label in labels:
            if rng.random() < 0.15:
                d[label] = d[label] * rng.choice([0.5, 0.9, 1.1, 1.5, 3]) + rng.choice([0, 1, -2])
                if abs(d[label]) < 1e-3:
                    d[label] = 1.0
    losses = [rng.choice([None, 0, 0.5]) if rng.random() < 0.9 else rng.choice([1, 0.8]) for _ in range(n)] if rng.random() < 0.4 else None
    target = line.series(target_rows, losses=losses)
    bounds = rng.choice([None, ['avg_err', 'max_err'], ['avg_err', '3_sigma'], ['max_err', '10_sigma'], ['max_err', 'adherence/1000'], ['0.5sig', '2sig'], [0.01, 0.5], ['adherence/1.5', 'adherence/50'], ['1_sigma', 'max_err']])
    if not stored:
        bounds = rng.choice([['1_sigma', '3_sigma'], [0.01, 2], ['adherence/2', 'adherence/100']])
    if distribution == 'cauchy' and bounds and 'adherence/1000' in bounds:
        bounds = ['avg_err', 'max_err'] if stored else ['1_sigma', '3_sigma']
    index_type = rng.choice(['log', 'log', 'lin', 'custom'])
    threshold = rng.choice([None, None, None, 0.5, 1])
    strategy = rng.choice(['max', 'max', 'min', 'avg', 'sum']) if len(labels) > 1 else 'max'
    loss_limit = rng.choice([1.0, 1.0, 0.8])
    details = rng.choice([True, True, ['pred', 'err'], ['adh'], False])
    custom = lambda x, y, x0, x1, y0, y1: (x - x0) / (x1 - x0)
    options = {}
    if bounds:
        options['index_bounds'] = list(bounds)
    if index_type != 'log' or rng.random() < 0.5:
        options['index_type'] = custom if index_type == 'custom' else index_type
    if threshold is not None:
        options['threshold'] = threshold
    if strategy != 'max' or rng.random() < 0.5:
        options['multivariate_index_strategy'] = sum if strategy == 'sum' else strategy
    if loss_limit != 1.0:
        options['data_loss_threshold'] = loss_limit
    if details:
        options['details'] = details

    # The bounds, from the distribution and the errors of the fit
    limits = {}
    for label in labels:
        f, params = pdf(detector, label)
        fit_errors = [abs(e) for e in detector.data['prediction_errors'][label]] if stored else None
        values = []
        for b in bounds or ['avg_err', 'max_err']:
            if b == 'avg_err':
                values.append(sum(fit_errors) / len(fit_errors))
            elif b == 'max_err':
                values.append(max(fit_errors))
            elif isinstance(b, str) and 'sig' in b:
                values.append(float(b.replace('_sigma', '').replace('sig', '')) * detector.data['stdevs'][label])
            elif isinstance(b, str):
                values.append(('adherence', f(params['loc']) / float(b.split('/')[1])))
            else:
                values.append(b)
        for k, v in enumerate(values):
            if isinstance(v, tuple):
                low, high = params['loc'], params['scale'] * 1000
                if low >= high:
                    return
                for _ in range(200):
                    middle = (low + high) / 2
                    if f(middle) > v[1]:
                        low = middle
                    else:
                        high = middle
                values[k] = (low + high) / 2
        limits[label] = values
        if not values[0] < values[1] or f(values[1]) < 1e-280 or f(values[0]) - f(values[1]) < 1e-9:
            # Not an interval which makes sense for this distribution
            return

    before = obs.snap(target)
    before_data = repr(sorted((k, v) for k, v in detector.data.items()))
    got = models.aloud(rng, detector.apply, target, **options)
    ctx.check(obs.diff(before, obs.snap(target)) is None, what + ': applying changed the source', 'source-changed')
    ctx.check(repr(sorted((k, v) for k, v in detector.data.items())) == before_data, what + ': applying changed the model', 'model-changed')
    what += ' applied with %r, losses %s' % (options, losses is not None)
    ctx.check(len(got) == len(positions), lambda: '%s: %s items instead of %s' % (what, len(got), len(positions)), 'length')
    ctx.check(str(got.resolution) == str(target.resolution) and str(got.tz) == str(target.tz), what + ': resolution or time zone changed', 'series')
    seen = []
    for item, i in zip(got, positions):
        old = target[i]
        ctx.check(models.start_of(item) == line.bounds[i] and type(item) is type(old), lambda: '%s: item %s is at %s' % (what, i, models.start_of(item)), 'times')
        ctx.check(item is not old and item.data is not old.data, what + ': items shared with the source', 'shared')
        ctx.check(all(item.data.get(label) == old.data[label] for label in labels), what + ': data changed', 'data')
        bad = lambda k: losses is not None and losses[k] is not None and losses[k] >= loss_limit
        around = [i] + [i - 1 - j for j in range(window)] + ([i + 1 + j for j in range(window)] if reconstructor else [])
        if any(bad(k) for k in around):
            ctx.check('anomaly' not in item.data_indexes or item.data_indexes['anomaly'] is None, '%s: anomaly index on lossy data' % what, 'lossy')
            added = [] if not details else ['%s_%s' % (label, name) for label in labels for name in (['pred', 'err', 'adh'] if details is True else details)]
            ctx.check(all(item.data[label] is None for label in added), '%s: details on lossy data' % what, 'lossy')
            expected = dict(obs.snap_item(old), data=obs.freeze(dict(old.data, **{label: None for label in added})))
            ctx.check(obs.diff(expected, obs.snap_item(item)) is None, lambda: '%s: lossy item changed: %s' % (what, obs.diff(expected, obs.snap_item(item))), 'lossy')
            ctx.count('lossy_items')
            continue
        ctx.check(set(item.data_indexes) == set(old.data_indexes) | {'anomaly'}, lambda: '%s: indexes %r' % (what, item.data_indexes), 'indexes')
        want = []
        for label in labels:
            f, params = pdf(detector, label)
            x0, x1 = limits[label]
            allowed = []
            for p in predictions(target_rows, i, label):
                e = error_of(metric, old.data[label], p)
                if e < params['loc']:
                    # Mirrored on the right side
                    xs = [2 * params['loc'] - e]
                else:
                    xs = [e]
                for x in xs:
                    if x <= x0:
                        v = 0
                    elif x >= x1:
                        v = 1
                    elif index_type == 'log':
                        v = (math.log10(f(x)) - math.log10(f(x0))) / (math.log10(f(x1)) - math.log10(f(x0)))
                    elif index_type == 'lin':
                        v = (f(x0) - f(x)) / (f(x0) - f(x1))
                    else:
                        v = custom(x, f(x), x0, x1, f(x0), f(x1))
                    v = min(1, max(0, v))
                    near = min(abs(x - x0), abs(x - x1)) < 1e-7
                    if threshold is not None:
                        near = near or abs(v - threshold) < 1e-7
                        v = 0 if v < threshold else 1
                    allowed.append((v, p, x, f(x) / f(params['loc']), near))
            names = {'pred': 1, 'err': 2, 'adh': 3}
            if details:
                for name in (names if details is True else details):
                    got_detail = item.data['%s_%s' % (label, name)]
                    ctx.check(any(obs.close(got_detail, a[names[name]], rel=1e-5, abs_=1e-6) for a in allowed), lambda: '%s: item %s has %s %r instead of %r' % (what, i, name, got_detail, [a[names[name]] for a in allowed]), 'detail-' + name)
            want.append(allowed)
        if not details:
            ctx.check(sorted(item.data) == sorted(labels), what + ': labels added', 'labels')
        combine = {'max': max, 'min': min, 'avg': lambda v: sum(v) / len(v), 'sum': sum}[strategy]
        index_ = item.data_indexes['anomaly']
        options_ = [[]]
        for allowed in want:
            options_ = [o + [a] for o in options_ for a in allowed]
        fine = any(obs.close(index_, combine([a[0] for a in o]), rel=1e-5, abs_=1e-5) for o in options_) or any(a[4] for o in options_ for a in o)
        ctx.check(fine, lambda: '%s: item %s has anomaly index %r instead of %r' % (what, i, index_, [combine([a[0] for a in o]) for o in options_]), 'index')
        if strategy != 'sum':
            ctx.check(0 <= index_ <= 1, lambda: '%s: item %s has anomaly index %r' % (what, i, index_), 'range')
        ctx.count('indexes')
        ctx.count('ones' if index_ == 1 else 'zeros' if index_ == 0 else 'middle')
        seen.append(index_)
    # Once more, with the predictions made beforehand
    if rng.random() < 0.4:
        pre = models.aloud(rng, detector.preprocess, target)
        ctx.check(obs.diff(before, obs.snap(target)) is None and pre is not target, what + ': pre-processing changed the source', 'source-changed')
        other = detector.apply(pre, **options)
        ctx.check(obs.diff(obs.snap_content(got), obs.snap_content(other)) is None, lambda: '%s: different when pre-processed: %s' % (what, obs.diff(obs.snap_content(got), obs.snap_content(other))), 'preprocess')
        ctx.count('preprocessed')
        if which in ('pa', 'pa_reconstructor'):
            # What was predicted beforehand does not outlive the fit
            detector.fit(line.series([{k: v * 1.5 + (i % 3) for k, v in d.items()} for i, d in enumerate(rows)]), **fit_options)
            try:
                now = obs.snap_content(detector.apply(target, **options))
            except Exception:
                now = None
            if now is not None:
                other = obs.snap_content(detector.apply(pre, **options))
                ctx.check(obs.diff(now, other) is None, lambda: '%s: fitted again, different when pre-processed before: %s' % (what, obs.diff(now, other)), 'preprocess-refit')
                ctx.count('preprocessed_before_fit')
    ctx.sig(which, metric, distribution, repr(options), line.describe(), repr(rows)[:300])
    ctx.sample({'detector': what, 'indexes': seen[:12]})


CASES = {'mark': {'run': mark, 'quick': 3000, 'thorough': 40000},
         'detect': {'run': detect, 'quick': 500, 'thorough': 6000}}
SCALE = {'quick': 1, 'thorough': 2}
