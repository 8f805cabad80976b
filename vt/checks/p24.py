from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot
from timeseria.exceptions import NonContiguityError
from timeseria.models.forecasters import AARIMAForecaster, ARIMAForecaster, Forecaster, PeriodicAverageForecaster, ProphetForecaster

from .. import gen, models, obs

RULE = ('user-written forecasters with a call log (single-step or multi-step, with or without a fit, with any window) and the periodic average, ARIMA and Prophet ones, applied for several steps '
        'on regular point and slot series (sub-second to yearly, across DST changes and month ends): every forecasted item and every original item is compared; distinct by model, series and steps')
FLOORS = {'forecasted_items': 3000, 'original_items': 5000, 'fallback_predictions': 500, 'too_short': 100, 'library_models': 4, 'slots_over_dst': 20, 'mixed_time_zones': 50, 'context_models': 300, 'context_steps': 500}


def check_tail(ctx, line, n, items, labels, zone, what):
    """The items n, n + 1.. of the line, as forecasts."""
    for k, item in enumerate(items):
        ctx.count('forecasted_items')
        start, end = line.bounds[n + k], line.bounds[n + k + 1]
        ctx.check(models.start_of(item) == start, lambda: '%s: step %s is at %s instead of %s' % (what, k + 1, models.start_of(item), start), 'forecast-times')
        if line.kind == 'slots':
            ctx.check(isinstance(item, DataTimeSlot) and item.end.t == end and str(item.unit) == line.unit,
                      lambda: '%s: step %s ends at %s with unit %s instead of %s with unit %s' % (what, k + 1, item.end.t, item.unit, end, line.unit), 'forecast-slots')
            if (end - start) % 86400 and line.unit in ('1D', '1W', '1M', '1Y'):
                ctx.count('slots_over_dst')
        else:
            ctx.check(isinstance(item, DataTimePoint), '%s: a forecast is not a point' % what, 'forecast-type')
        ctx.check(str(item.tz) == zone, lambda: '%s: forecast on time zone %s instead of %s' % (what, item.tz, zone), 'forecast-tz')
        ctx.check(sorted(item.data) == sorted(labels), lambda: '%s: forecasted labels %s instead of %s' % (what, sorted(item.data), sorted(labels)), 'forecast-labels')


def check_apply(ctx, line, series, model, steps, labels, what, **kwargs):
    """Apply, not in place and in place, returning the data of the forecasted items."""
    n = len(series)
    zone = str(series.tz)
    before = obs.snap(series)
    got = model.apply(series, steps=steps, **kwargs)
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: '%s: the source changed: %s' % (what, obs.diff(before, obs.snap(series))), 'source-changed')
    ctx.check(len(got) == n + steps, lambda: '%s: %s items instead of %s + %s' % (what, len(got), n, steps), 'length')
    ctx.check(type(got) is type(series) and (n == 1 or str(got.resolution) == str(series.resolution)) and str(got.tz) == zone, '%s: type, resolution or time zone changed' % what, 'series')
    for a, b, s in zip(series, got, before['items']):
        ctx.count('original_items')
        indexes = dict(a.data_indexes)
        indexes['forecast'] = 0
        ctx.check(a is not b and a.data is not b.data, '%s: items shared with the source' % what, 'shared')
        expected = dict(s, indexes=obs.freeze(indexes))
        ctx.check(obs.diff(expected, obs.snap_item(b)) is None, lambda: '%s: an original item changed: %s' % (what, obs.diff(expected, obs.snap_item(b))), 'original-items')
    tail = [got[i] for i in range(n, n + steps)]
    check_tail(ctx, line, n, tail, labels, zone, what)
    for item in tail:
        ctx.check(item.data_indexes.get('forecast') == 1, '%s: a forecast is not marked as such' % what, 'forecast-index')
    # In place
    other = series.duplicate()
    answer = model.apply(other, steps=steps, inplace=True, **kwargs)
    ctx.check(answer is None, '%s: in-place apply returned something' % what, 'inplace-answer')
    ctx.check(obs.diff(obs.snap_content(got), obs.snap_content(other)) is None, lambda: '%s: different in place: %s' % (what, obs.diff(obs.snap_content(got), obs.snap_content(other))), 'inplace')
    # The series which is returned goes on as any other series
    got.append(line.item(n + steps, {label: 1 for label in labels}))
    ctx.check(len(got) == n + steps + 1, '%s: cannot append after the forecasts' % what, 'append')
    return [dict(item.data) for item in tail]


def check_forecast(ctx, line, series, model, steps, labels, rows, what, **kwargs):
    """The forecast method gives the same items, on their own."""
    before = obs.snap(series)
    got = model.forecast(series, steps=steps, **kwargs)
    ctx.check(obs.diff(before, obs.snap(series)) is None, '%s: forecasting changed the source' % what, 'source-changed')
    items = got if isinstance(got, list) else [got]
    ctx.check(len(items) == steps, lambda: '%s: forecasted %s items instead of %s' % (what, len(items), steps), 'forecast-count')
    check_tail(ctx, line, len(series), items, labels, str(series.tz), what + ' (forecast)')
    for item, row in zip(items, rows):
        for label in labels:
            ctx.check(obs.close(item.data[label], row[label]), lambda: '%s: forecast gives %r, apply %r' % (what, item.data, row), 'forecast-vs-apply')


def custom(ctx, rng, index):
    style = rng.choice(['single', 'single', 'multi'])
    with_fit, decorated = rng.random() < 0.5, rng.random() < 0.7
    window = rng.choice([1, 1, 2, 3, 5])
    n = max(window + rng.choice([0, 1, 2, 5, 15]), 2 if not with_fit else 1)
    steps = rng.choice([1, 1, 2, 3, 5, 13])
    line = models.Line(rng, n + steps + 3)
    if line.kind == 'points' and n < 2:
        n = 2
    labels = gen.labels(rng)
    rows = models.rows(rng, n, labels)
    losses = [rng.choice([None, 0, 0.3, 1]) for _ in range(n)] if rng.random() < 0.5 else None
    series = line.series(rows, losses=losses)
    if line.kind == 'points' and rng.random() < 0.2:
        # Points on more than one time zone
        zone = rng.choice(gen.ZONES)
        for item in rng.sample(list(series), rng.randint(1, n)):
            item.change_tz(zone)
        ctx.count('mixed_time_zones')
    weights = [round(rng.uniform(-0.6, 0.6), 2) for _ in range(window)]
    cls, one_step = models.custom_forecaster(window, weights, round(rng.uniform(-2, 2), 2), style, with_fit, decorated)
    model = cls()
    if with_fit:
        model.fit(series)
    what = '%s forecaster (window %s, fit %s, decorated %s) on %s of %s' % (style, window, with_fit, decorated, n, line.kind)
    model.calls = []
    got = check_apply(ctx, line, series, model, steps, labels, what)
    for label in labels:
        want = models.iterate(one_step, [r[label] for r in rows], steps, window, models.bias_of(label) if with_fit else 0)
        for k in range(steps):
            ctx.check(obs.close(got[k][label], want[k]), lambda: '%s: step %s is %r instead of %r' % (what, k + 1, got[k][label], want[k]), 'forecast-values')
    # What the model was asked
    single = [c for c in model.calls if c[1] == 1]
    if style == 'single' and steps > 1:
        ctx.count('fallback_predictions', len(single))
        half = single[:steps]
        ctx.check([c[2] for c in half] == [n + k for k in range(steps)], lambda: '%s: the model saw %s items' % (what, [c[2] for c in half]), 'feedback')
        ctx.check(all(c[3] == line.bounds[0] for c in half) and [c[4] for c in half] == [line.bounds[n + k - 1] for k in range(steps)], '%s: the model saw the wrong items' % what, 'feedback')
    if style == 'multi' or steps == 1:
        check_forecast(ctx, line, series, model, steps, labels, got, what)
    # A view and a slice are as good as the series
    if n > window and (line.kind == 'slots' or n - window >= 2 or window >= 2):
        cut = rng.randint(max(window, 2 if line.kind == 'points' else 1), n)
        a = model.predict(series.view(from_i=0, to_i=cut))
        b = model.predict(series[0:cut])
        ctx.check(a == b, '%s: view and slice give different predictions' % what, 'views')
        ctx.count('views')
    # Not enough items
    if window > 2 or (window == 2 and line.kind == 'slots'):
        short = line.series(rows[:window - 1])
        before = obs.snap(short)
        error = ctx.raises(lambda: model.apply(short, steps=steps), ValueError)
        ctx.check(error is not None and obs.diff(before, obs.snap(short)) is None, '%s: applied on too few items' % what, 'too-short')
        ctx.count('too_short')
    ctx.sig(style, with_fit, decorated, window, n, steps, line.describe(), sorted(labels))
    ctx.sample({'model': what, 'steps': steps, 'last': repr(series[-1]), 'forecasts': got[:3]})


def lazy(ctx, rng, index):
    """A model which answers with too few steps is refused, and so are other data labels and resolutions."""
    n = rng.randint(3, 9)
    steps = rng.randint(2, 5)
    line = models.Line(rng, n + steps + 3)
    labels = gen.labels(rng)
    rows = models.rows(rng, n, labels)
    series = line.series(rows)
    cls, _ = models.custom_forecaster(1, [1], 0, 'multi', False, rng.random() < 0.5)

    class Lazy(cls):
        def predict(self, series, steps=1):
            return cls.predict(self, series, steps=steps)[:steps - 1]
    before = obs.snap(series)
    error = ctx.raises(lambda: Lazy().apply(series, steps=steps), ValueError)
    ctx.check(error is not None, 'missing forecasts were not reported', 'missing-forecasts')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'the source changed', 'source-changed')
    ctx.count('missing')
    ctx.sig(n, steps, line.describe())


def periodic(ctx, rng, index):
    period = rng.choice([2, 3, 4, 7, 12, 24])
    window = rng.choice(['auto', 'auto', 1, 2, 5])
    n = max(period * rng.randint(2, 5) + rng.randint(0, 3), 6)
    steps = rng.choice([1, 2, period, period + 3, 13])
    line = models.Line(rng, n + 60)
    labels = gen.labels(rng)
    rows = models.rows(rng, n, labels, period)
    series = line.series(rows)
    model = PeriodicAverageForecaster(window=window)
    model.fit(series, periodicity=period, dst_affected=rng.random() < 0.3 and (line.resolution_s() or 0) <= 3600 and line.unit not in ('1D', '1W', '1M', '1Y'))
    size = period if window == 'auto' else window
    ctx.check(model.window == size, lambda: 'window %s instead of %s' % (model.window, size), 'window')
    what = 'periodic average forecaster (periodicity %s, window %s) on %s %s' % (period, window, n, line.kind)
    # On the whole series or on its end
    first = rng.choice([0, 0, n - size - 1]) if n - size - 1 >= 0 else 0
    if line.kind == 'points' and n - first < 2:
        first = 0
    tail_rows = rows[first:]
    target = line.series(tail_rows, first=first)
    shifted = models.Line.__new__(models.Line)
    shifted.__dict__.update(line.__dict__)
    shifted.bounds = line.bounds[first:]
    try:
        got = check_apply(ctx, shifted, target, model, steps, labels, what)
    except KeyError:
        # A phase which was never seen because of the DST
        ctx.check(model.data['dst_affected'], what + ': a phase was never seen', 'phase')
        return
    check_forecast(ctx, shifted, target, model, steps, labels, got, what)
    # The history older than the window does not matter
    if first:
        other = model.predict(series, steps=steps)
        for k in range(steps):
            for label in labels:
                ctx.check(obs.close(other[k][label], got[k][label], abs_=1e-7), '%s: older items changed the forecast' % what, 'history')
        ctx.count('history')
    # Again, and through a view
    again = model.predict(target, steps=steps)
    ctx.check(all(obs.close(again[k][label], got[k][label]) for k in range(steps) for label in labels), '%s: not repeatable' % what, 'repeatable')
    view = model.predict(series.view(from_i=first, to_i=n), steps=steps)
    ctx.check(all(obs.close(view[k][label], got[k][label]) for k in range(steps) for label in labels), '%s: different on a view' % what, 'views')
    if size > 1 and (line.kind == 'slots' or size > 2):
        short = line.series(rows[:size - 1])
        error = ctx.raises(lambda: model.apply(short, steps=steps), ValueError)
        ctx.check(error is not None, '%s: applied on too few items' % what, 'too-short')
        ctx.count('too_short')
    elif size == 1 and line.kind == 'points':
        one = line.series(rows[-1:], first=n - 1)
        if len(labels) and not model.data['dst_affected']:
            a = model.apply(one, steps=steps)
            end = models.Line.__new__(models.Line)
            end.__dict__.update(line.__dict__)
            end.bounds = line.bounds[n - 1:]
            check_tail(ctx, end, 1, [a[i] for i in range(1, 1 + steps)], labels, str(one.tz), what + ' (single point)')
            ctx.count('single_points')
    ctx.sig(period, window, n, steps, first, line.describe(), sorted(labels))
    ctx.sample({'model': what, 'steps': steps, 'forecasts': got[:3]})


def library(ctx, rng, index):
    which = ['arima', 'prophet', 'aarima', 'prophet'][index % 4]
    n = rng.choice([40, 60])
    steps = rng.choice([1, 2, 5])
    kind = rng.choice(['points', 'slots'])
    line = models.Line(rng, n + 12, kind=kind, unit=rng.choice(['15m', '1h', '1D', '1D']), spacing=rng.choice([600, 3600, 86400]))
    label = rng.choice(gen.LABELS)
    rows = models.rows(rng, n, [label], 12, noise=1)
    series = line.series(rows)
    model = {'arima': lambda: ARIMAForecaster(p=1, d=1, q=0), 'prophet': ProphetForecaster, 'aarima': AARIMAForecaster}[which]()
    before = obs.snap(series)
    model.fit(series)
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'fitting changed the series', 'source-changed')
    what = '%s forecaster on %s %s' % (which, n, kind)
    got = check_apply(ctx, line, series, model, steps, [label], what)
    check_forecast(ctx, line, series, model, steps, [label], got, what)
    ctx.count('library_models')
    if which == 'prophet':
        # Prophet is a function of the time only
        cut = rng.randint(5, n - 1)
        part = model.predict(series[0:cut], steps=n - cut + steps)
        for k in range(steps):
            ctx.check(obs.close(part[n - cut + k][label], got[k][label], rel=1e-6, abs_=1e-6), '%s: the forecast for a same time depends on where it starts' % what, 'prophet-time')
        ctx.count('prophet_time')
    else:
        # The others continue the fit series only
        cut = rng.randint(5, n - 1)
        error = ctx.raises(lambda: model.apply(series[0:cut], steps=steps), NonContiguityError)
        ctx.check(error is not None, '%s: applied where the fit series does not end' % what, 'contiguity')
        # ..and forecasting more steps does not change the first ones
        more = model.predict(series, steps=steps + 3)
        ctx.check(all(obs.close(more[k][label], got[k][label], rel=1e-6, abs_=1e-6) for k in range(steps)), '%s: the first steps depend on how many are asked' % what, 'steps')
    ctx.sig(which, n, steps, line.describe(), label)


def context_forecaster(weights, targets, others):
    """A forecaster as the users write them, for some of the labels, knowing the others (if any) at the time of the forecast"""
    class ContextForecaster(Forecaster):
        window = 1

        def __init__(self):
            self.calls = []
            Forecaster.__init__(self)

        @Forecaster.fit_function
        def fit(self, series, verbose=False):
            self.data['target_data_labels'] = list(targets)
            self.data['context_data_labels'] = list(others) if others else None

        @Forecaster.predict_function
        def predict(self, series, steps=1, context_data=None):
            if steps > 1:
                raise NotImplementedError('one step only')
            self.calls.append((models.record(series), dict(context_data) if context_data else None))
            last = series[-1].data
            data = {label: weights[0] * last[label] + weights[1] * sum(context_data[o] * (i + 1) for i, o in enumerate(others)) if others else weights[0] * last[label] + weights[1]
                    for label in targets}
            return data

    def expected(last, known):
        return {label: weights[0] * last[label] + weights[1] * (sum(known[o] * (i + 1) for i, o in enumerate(others)) if others else 1) for label in targets}
    return ContextForecaster(), expected


def context(ctx, rng, index):
    """What is known of the item to forecast is given to the model, and is part of the forecast"""
    n = rng.randint(2, 12)
    line = models.Line(rng, n + 8)
    labels = sorted(rng.sample(gen.LABELS, rng.choice([2, 3, 4])))
    k = rng.randint(1, len(labels) - 1)
    targets = rng.sample(labels, k)
    others = [label for label in labels if label not in targets]
    rows = models.rows(rng, n + 5, labels)
    losses = [rng.choice([None, 0, 0.3, 1]) for _ in range(n)] if rng.random() < 0.5 else None
    series = line.series(rows[:n], losses=losses)
    zone = str(series.tz)
    weights = [round(rng.uniform(-2, 2), 2) for _ in range(2)]
    model, expected = context_forecaster(weights, targets, others)
    what = 'forecaster of %s knowing %s on %s %s' % (targets, others, n, line.kind)
    model.fit(series)
    known = {label: rows[n][label] for label in others}
    given = dict(known)
    want = dict(expected(rows[n - 1], known), **known)
    before = obs.snap(series)

    def same(data, want, how):
        ctx.check(sorted(data) == sorted(want) and all(obs.close(data[label], want[label]) for label in want), lambda: '%s: %s gives %r instead of %r' % (what, how, data, want), 'context-values')

    def untouched(how):
        ctx.check(given == known and list(given) == list(known), lambda: '%s: %s altered the context data: %r' % (what, how, given), 'context-altered')
        d = obs.diff(before, obs.snap(series))
        ctx.check(d is None, lambda: '%s: %s altered the series: %s' % (what, how, d), 'source-changed')
    # On its own
    a = model.predict(series, context_data=given)
    same(a, expected(rows[n - 1], known), 'predicting')
    untouched('predicting')
    item = model.forecast(series, context_data=given)
    check_tail(ctx, line, n, [item], labels, zone, what)
    same(item.data, want, 'forecasting')
    untouched('forecasting')
    ctx.check(item.data is not given, '%s: the forecast has the context data themselves' % what, 'context-shared')
    # In the series
    steps = rng.choice([1, 1, 2, 3])
    got = model.apply(series, steps=steps, context_data=given)
    untouched('applying')
    ctx.check(len(got) == n + steps and len({id(x.data) for x in got}) == n + steps and all(x.data is not given for x in got), '%s: items are missing or share their data' % what, 'context-shared')
    check_tail(ctx, line, n, [got[i] for i in range(n, n + steps)], labels, zone, what)
    for i in range(n):
        ctx.count('original_items')
        ctx.check(got[i].data == series[i].data and got[i].data is not series[i].data and dict(got[i].data_indexes) == dict(series[i].data_indexes, forecast=0), '%s: original item %s changed' % (what, i), 'original-items')
    for i in range(n, n + steps):
        ctx.check(got[i].data_indexes.get('forecast') == 1, '%s: a forecast is not marked as such' % what, 'forecast-index')
    same(got[n].data, want, 'applying')
    other = series.duplicate()
    answer = model.apply(other, steps=steps, context_data=given, inplace=True)
    ctx.check(answer is None and given == known and obs.diff(obs.snap_content(got), obs.snap_content(other)) is None, '%s: different in place' % what, 'inplace')
    # Step after step, with what is known of each
    follow = series
    last = rows[n - 1]
    for i in range(rng.choice([1, 2, 4])):
        known_i = {label: rows[n + i][label] for label in others}
        follow = model.apply(follow, context_data=known_i)
        last = dict(expected(last, known_i), **known_i)
        same(follow[-1].data, last, 'step %s' % (i + 1))
        ctx.count('context_steps')
    ctx.check(len(follow) == n + i + 1, '%s: %s items instead of %s' % (what, len(follow), n + i + 1), 'length')
    # The evaluation gives to the model what was known of each item, and nothing of the others
    model.calls = []
    answer = model.evaluate(series, error_metrics=['MAE', 'MSE'])
    untouched('evaluating')
    for label in targets:
        errors = [rows[i][label] - expected(rows[i - 1], rows[i])[label] for i in range(1, n)]
        ctx.check(obs.close(answer['%s_MAE' % label], sum(abs(e) for e in errors) / (n - 1)) and obs.close(answer['%s_MSE' % label], sum(e * e for e in errors) / (n - 1)),
                  lambda: '%s: evaluated as %r' % (what, answer), 'context-evaluation')
    ctx.check(not any(key.startswith(label + '_') for key in answer for label in others if not any(key.startswith(t + '_') for t in targets)), lambda: '%s: %s evaluated' % (what, sorted(answer)), 'context-evaluation')
    for record, seen in model.calls:
        m = record[0]
        ctx.check(seen is not None and all(seen[label] == rows[m][label] for label in others) and record[1] == line.bounds[0] and record[2] == line.bounds[m - 1],
                  lambda: '%s: the model was asked about %s with context %r' % (what, record, seen), 'context-asked')
    ctx.count('context_models')
    # No context, no forecast; and the other way around
    for function in (model.predict, model.forecast, model.apply):
        error = ctx.raises(lambda: function(series), ValueError)
        ctx.check(error is not None, '%s: %s without the context' % (what, function.__name__), 'context-missing')
    free, free_expected = context_forecaster(weights, labels, [])
    free.fit(series)
    for function in (free.predict, free.forecast, free.apply):
        error = ctx.raises(lambda: function(series, context_data=given), ValueError)
        ctx.check(error is not None, '%s: %s with a context it does not accept' % (what, function.__name__), 'context-refused')
    untouched('a refusal')
    same(free.forecast(series).data, free_expected(rows[n - 1], None), 'forecasting without context')
    # A model for some of the labels only, which has no context, has forecasts which miss the others: these are refused
    part, part_expected = context_forecaster(weights, targets, [])
    part.fit(series)
    for function in (part.forecast, part.apply):
        error = ctx.raises(lambda: function(series), ValueError)
        ctx.check(error is not None, '%s: %s of some labels only' % (what, function.__name__), 'context-missing')
    answer = part.evaluate(series, error_metrics=['MAE'])
    for label in targets:
        ctx.check(obs.close(answer['%s_MAE' % label], sum(abs(rows[i][label] - part_expected(rows[i - 1], None)[label]) for i in range(1, n)) / (n - 1)), '%s: evaluated as %r' % (what, answer), 'context-evaluation')
    untouched('evaluating')
    ctx.sig('context', n, len(targets), line.describe(), labels, steps)


CASES = {'context': {'run': context, 'quick': 900, 'thorough': 8000},
         'custom': {'run': custom, 'quick': 3000, 'thorough': 20000},
         'lazy': {'run': lazy, 'quick': 100, 'thorough': 1000},
         'periodic': {'run': periodic, 'quick': 1500, 'thorough': 8000},
         'library': {'run': library, 'quick': 16, 'thorough': 160}}
SCALE = {'quick': 1, 'thorough': 2}
