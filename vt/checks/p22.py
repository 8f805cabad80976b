import os

from timeseria.datastructures import TimeSeries
from timeseria.exceptions import NotFittedError
from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector
from timeseria.models.base import Model
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor

from .. import gen, models, obs

RULE = ('random histories of fit, predict, apply, evaluate, cross validate, save and id calls, on series which are proper, empty, with variable resolution, with another resolution, with other labels, or not series at all, '
        'on library and user-written models: what must be refused is refused with the right error and leaves series, model and file system as they were, and what is proper is accepted, also after a fit which failed, a cross validation or a fit on something else; distinct by history')
FLOORS = {'univariate': 100, 'refused': 3000, 'accepted': 2000, 'not_fitted': 500, 'other_resolution': 300, 'other_labels': 300, 'saves': 100, 'single_labels': 200, 'single_resolution': 30, 'fitted_again': 1000, 'not_fitted_after': 400, 'cross_validated': 200}

PERIOD = 3


class Plain(Model):
    """A model as in the documentation."""

    def __init__(self):
        self.applied = 0
        super().__init__()

    @Model.fit_function
    def fit(self, series):
        self.data['mean'] = sum(x.data[series.data_labels()[0]] for x in series) / len(series)

    @Model.predict_function
    def predict(self, series):
        return self.data['mean']

    @Model.apply_function
    def apply(self, series):
        self.applied += 1
        return series.duplicate()

    @Model.evaluate_function
    def evaluate(self, series):
        return {'grade': self.data['mean']}


class Parameters(Model):
    """A model with parameters and without a fit."""

    def __init__(self, factor=2):
        self.data = {'factor': factor}
        super().__init__()

    @Model.predict_function
    def predict(self, series):
        return self.data['factor'] * len(series)

    @Model.apply_function
    def apply(self, series):
        return series.duplicate()

    @Model.evaluate_function
    def evaluate(self, series):
        return {'grade': self.data['factor']}


def make(rng):
    which = rng.choice(['pa', 'pa', 'par', 'linear', 'detector', 'detector_r', 'custom', 'custom_nofit', 'plain', 'plain', 'parameters'])
    if which == 'pa':
        return which, PeriodicAverageForecaster(), {'periodicity': PERIOD}
    if which == 'par':
        return which, PeriodicAverageReconstructor(), {'periodicity': PERIOD}
    if which == 'linear':
        return which, LinearInterpolationReconstructor(), {}
    if which == 'detector':
        return which, PeriodicAverageAnomalyDetector(), {'periodicity': PERIOD, 'error_metric': 'E', 'error_distribution': 'norm'}
    if which == 'detector_r':
        return which, PeriodicAverageReconstructorAnomalyDetector(), {'periodicity': PERIOD, 'error_metric': 'E', 'error_distribution': 'norm'}
    if which == 'custom':
        return which, models.custom_forecaster(2, [0.5, 0.5], 0, rng.choice(['single', 'multi']), True, True)[0](), {}
    if which == 'custom_nofit':
        return which, models.custom_forecaster(2, [0.5, 0.5], 0, rng.choice(['single', 'multi']), False, True)[0](), {}
    if which == 'plain':
        return which, Plain(), {}
    return which, Parameters(), {}


def history(ctx, rng, index):
    which, model, fit_options = make(rng)
    labels = gen.labels(rng)
    if which in ('par', 'detector_r'):
        labels = labels[:1]
    n = 24
    line = models.Line(rng, n + 2, kind=rng.choice(['points', 'slots']), spacing=rng.choice([60, 600, 3600]), unit=rng.choice(['1m', '1h', '1D']))
    other_line = models.Line(rng, n + 2, kind=rng.choice(['points', 'slots']), spacing=rng.choice([30, 900, 7200]), unit=rng.choice(['30s', '15m', '1M']))
    if line.kind == 'points' and rng.random() < 0.3:
        # Nearly the same resolution is another one
        other_line = models.Line(rng, n + 2, kind='points', spacing=line.spacing + rng.choice([0.25, 0.5, -0.5, 1]))
    rows = models.rows(rng, n, labels, PERIOD, noise=2)
    has_fit = which not in ('linear', 'custom_nofit', 'parameters')
    parametric = which not in ('linear', 'custom_nofit')
    fitted = False
    path = None
    steps = []

    def a_series(kind):
        data = rows
        if kind == 'proper':
            return line.series(data)
        if kind == 'order':
            # The same labels, in another order
            return line.series([{k: d[k] for k in reversed(list(d))} for d in data])
        if kind == 'empty':
            return TimeSeries()
        if kind == 'variable':
            series = TimeSeries()
            for i, d in enumerate(data):
                series.append(gen.point(i * 60 + (7 if i == 3 else 0), dict(d)))
            return series
        if kind == 'resolution':
            return other_line.series(data)
        if kind == 'single':
            return line.series(data[:1])
        if kind == 'single_resolution':
            return other_line.series(data[:1])
        if kind in ('labels', 'single_labels'):
            if kind == 'single_labels':
                data = data[:1]
            how = rng.choice(['renamed', 'more'] + (['fewer'] if len(labels) > 1 else []))
            if how == 'renamed':
                return line.series([{('new' if k == labels[0] else k): v for k, v in d.items()} for d in data])
            if how == 'more':
                return line.series([dict(d, another=1) for d in data])
            return line.series([{k: v for k, v in d.items() if k != labels[0]} for d in data])
        return rng.choice([None, [1, 2, 3], 'series', 5, {'a': 1}, data])

    def state():
        return repr(sorted((k, str(v)) for k, v in model.data.items())), model.fitted, sorted(os.listdir(ctx.dir))

    def call(what, series):
        if what == 'fit':
            return model.fit(series, **fit_options)
        if what == 'predict':
            if which in ('par', 'linear'):
                return model.predict(series, 2, 3)
            return model.predict(series)
        if what == 'apply':
            return model.apply(series)
        if what == 'evaluate':
            return model.evaluate(series)
        if what == 'cross_validate':
            return model.cross_validate(series, rounds=2)

    for _ in range(rng.randint(4, 10)):
        what = rng.choice(['fit', 'predict', 'predict', 'apply', 'apply', 'evaluate', 'save', 'id'])
        if what == 'id':
            if parametric:
                ctx.check(model.id == model.data['id'] and isinstance(model.id, str), '%s: wrong id' % which, 'id')
            else:
                ctx.check(ctx.raises(lambda: model.id, TypeError) is not None, '%s: a model with no parameters has an id' % which, 'id')
            continue
        if what == 'save':
            how = rng.choice(['new', 'new', 'existing', 'empty'])
            target = {'new': os.path.join(ctx.dir, 'm%s_%s' % (index, len(steps))), 'existing': ctx.dir, 'empty': rng.choice(['', None])}[how]
            before = state()
            try:
                model.save(target)
            except TypeError:
                outcome = TypeError
            except NotFittedError:
                outcome = NotFittedError
            except ValueError:
                outcome = ValueError
            else:
                outcome = None
            want = TypeError if not parametric else NotFittedError if has_fit and not fitted else ValueError if how != 'new' else None
            steps.append(('save', how, str(want)))
            ctx.check(outcome is want, lambda: '%s: saving (%s, fitted %s) gave %s instead of %s' % (which, how, fitted, outcome, want), 'save')
            if want is None:
                ctx.count('saves')
                ctx.check(os.path.isdir(target) and os.path.isfile(target + '/data.json'), 'nothing was saved', 'save')
                ctx.check(state()[:2] == before[:2], 'saving changed the model', 'save-state')
            else:
                ctx.check(state() == before, '%s: a refused save left something' % which, 'refused-state')
                ctx.count('refused')
            continue
        kind = rng.choice(['proper', 'proper', 'proper', 'order', 'empty', 'variable', 'resolution', 'labels', 'single_labels', 'single_resolution', 'single', 'other'])
        if kind == 'single' and which not in ('plain', 'parameters'):
            # The others may need more than one item
            kind = 'single_labels'
        if kind == 'single_resolution' and other_line.kind == 'points':
            # A single point has no resolution
            kind = 'single_labels'
        if kind in ('single_labels', 'single_resolution') and not has_fit:
            kind = 'labels'
        if what == 'fit' and kind in ('resolution', 'labels', 'order', 'single', 'single_labels', 'single_resolution'):
            kind = 'proper'
        series = a_series(kind)
        steps.append((what, kind))
        detector = which in ('detector', 'detector_r')
        # What is expected
        if what == 'fit' and not has_fit:
            want = NotImplementedError
        elif what in ('predict', 'evaluate') and detector:
            want = NotImplementedError
        elif what != 'fit' and has_fit and not fitted:
            want = NotFittedError
        elif kind == 'other':
            want = TypeError
        elif kind in ('empty', 'variable'):
            want = ValueError
        elif kind in ('resolution', 'labels', 'single_labels', 'single_resolution') and has_fit:
            want = ValueError
        else:
            want = None
        if want is None and what == 'evaluate' and which in ('par', 'linear') and len(series.data_labels()) > 1:
            want = NotImplementedError
        before = state()
        snap = obs.snap(series) if isinstance(series, TimeSeries) else repr(series)
        try:
            got = call(what, series)
        except (TypeError, ValueError, NotFittedError, NotImplementedError) as e:
            outcome, error = type(e), e
        else:
            outcome, error = None, None
        if want is not None:
            fine = outcome is want or (want is ValueError and outcome is not None and issubclass(outcome, ValueError)) or (kind == 'other' and outcome in (TypeError, ValueError))
            ctx.check(fine, lambda: '%s: %s on a series which is "%s" (fitted %s) gave %s instead of %s' % (which, what, kind, fitted, outcome and (outcome, str(error)), want), 'refused-' + (kind if want is not NotFittedError else 'not-fitted'))
            ctx.count('refused')
            ctx.count({NotFittedError: 'not_fitted'}.get(want, {'resolution': 'other_resolution', 'labels': 'other_labels', 'single_labels': 'single_labels', 'single_resolution': 'single_resolution'}.get(kind, 'other_refusals')))
            ctx.check(state() == before, lambda: '%s: %s on a series which is "%s" was refused but changed the model' % (which, what, kind), 'refused-state')
        else:
            ctx.check(outcome is None, lambda: '%s: %s on a series which is "%s" (fitted %s) refused: %s' % (which, what, kind, fitted, error), 'accepted')
            ctx.count('accepted')
            if what == 'fit':
                fitted = True
                ctx.check(model.fitted is True and 'fitted_at' in model.data and sorted(model.data['data_labels']) == sorted(labels) and str(model.data['resolution']) == str(series.resolution), '%s: wrong state after the fit' % which, 'fitted')
            elif what == 'apply':
                ctx.check(isinstance(got, TimeSeries) and got is not series, '%s: apply gave %r' % (which, got), 'apply')
            elif what == 'evaluate':
                ctx.check(isinstance(got, dict) and len(got) > 0, '%s: evaluate gave %r' % (which, got), 'evaluate')
        ctx.check((obs.snap(series) if isinstance(series, TimeSeries) else repr(series)) == snap, lambda: '%s: %s on a series which is "%s" changed it' % (which, what, kind), 'series-changed')
    # Cross validation
    if has_fit and which not in ('detector', 'detector_r'):
        series = line.series(rows)
        if fitted:
            ctx.check(ctx.raises(lambda: call('cross_validate', series), NotImplementedError) is not None, '%s: cross validated when already fitted' % which, 'cross-validate')
            ctx.count('refused')
        for kind, types in (('empty', ValueError), ('variable', ValueError), ('other', TypeError)):
            if not fitted:
                ctx.check(ctx.raises(lambda: call('cross_validate', a_series(kind)), types) is not None, '%s: cross validated on a series which is "%s"' % (which, kind), 'cross-validate')
                ctx.count('refused')
    elif has_fit:
        ctx.check(ctx.raises(lambda: call('cross_validate', line.series(rows)), NotImplementedError) is not None, 'a detector was cross validated', 'cross-validate')
        ctx.check(ctx.raises(lambda: ModelBasedAnomalyDetector(), ValueError) is not None, 'a detector with no model', 'no-model')
        ctx.check(ctx.raises(lambda: type(model)(model_class=PeriodicAverageForecaster), ValueError) is not None, 'a detector with two models', 'no-model')
    # Context
    if which in ('pa', 'custom') and fitted:
        series = line.series(rows)
        error = ctx.raises(lambda: model.predict(series, context_data={labels[0]: 1}), (ValueError, TypeError))
        ctx.check(error is not None, '%s: context accepted by a model which does not support it' % which, 'context')
        ctx.count('refused')
    ctx.sig(which, steps, line.describe(), labels)
    ctx.sample({'model': which, 'history': steps})


def again(ctx, rng, index):
    """Models fitted again on something else, fits which do not come to an end, and models after a cross validation."""
    which = None
    while which in (None, 'linear', 'custom_nofit', 'parameters'):
        which, model, fit_options = make(rng)
    labels = gen.labels(rng)
    if which in ('par', 'detector_r'):
        labels = labels[:1]
    n = 24
    line = models.Line(rng, n + 2, kind=rng.choice(['points', 'slots']), spacing=rng.choice([60, 600, 3600]), unit=rng.choice(['1m', '1h', '1D']))
    rows = models.rows(rng, n, labels, PERIOD, noise=2)
    first = line.series(rows)
    detector = which in ('detector', 'detector_r')
    calls = [('predict', lambda s: model.predict(s, 2, 3) if which == 'par' else model.predict(s)), ('apply', lambda s: model.apply(s)), ('evaluate', lambda s: model.evaluate(s)),
             ('save', lambda s: model.save(os.path.join(ctx.dir, 'a%s' % index)))]
    if detector:
        calls = [calls[1], calls[3]]

    def refused_as_not_fitted(why):
        ctx.check(model.fitted is False, lambda: '%s: fitted after %s' % (which, why), 'still-not-fitted')
        for name, f in calls:
            ctx.check(ctx.raises(lambda: f(line.series(rows)), NotFittedError) is not None, lambda: '%s: %s accepted after %s' % (which, name, why), 'still-not-fitted')
            ctx.count('refused')
            ctx.count('not_fitted')
        ctx.count('not_fitted_after')

    # A fit which does not come to an end leaves the model as not fitted
    if rng.random() < 0.6:
        how = rng.choice(['unknown option', 'within'])
        if how == 'within' and which in ('plain', 'custom'):
            bad = line.series([{k: None for k in d} for d in rows])
            error = ctx.raises(lambda: model.fit(bad, **fit_options), Exception)
        else:
            error = ctx.raises(lambda: model.fit(first, no_such_option=1), TypeError)
        if error is not None:
            refused_as_not_fitted('a fit which failed (%s)' % how)
    # Neither is one which is being validated
    if not detector and rng.random() < 0.6:
        options = {'fit_' + k: v for k, v in fit_options.items()}
        try:
            model.cross_validate(line.series(rows), rounds=2, **options)
        except (ValueError, NotImplementedError, ZeroDivisionError):
            model = type(model)()
        else:
            refused_as_not_fitted('a cross validation')
            ctx.count('cross_validated')
    model.fit(first, **fit_options)
    # Once fitted again, only what it was fitted on last counts
    how = rng.choice(['labels', 'resolution', 'both'] if which not in ('plain',) or len(labels) > 1 else ['labels', 'resolution'])
    new_labels, new_line = labels, line
    if how in ('labels', 'both'):
        new_labels = ['renamed'] + list(labels[1:]) if len(labels) == 1 or which in ('par', 'detector_r') or rng.random() < 0.5 else list(labels[1:])
    if how in ('resolution', 'both'):
        new_line = models.Line(rng, n + 2, kind=line.kind if rng.random() < 0.5 else rng.choice(['points', 'slots']), spacing=rng.choice([30, 900, 7200]), unit=rng.choice(['30s', '15m', '1M']))
    new_rows = models.rows(rng, n, new_labels, PERIOD, noise=2)
    second = new_line.series(new_rows)
    if rng.random() < 0.3:
        model.fit(first, **fit_options)
    model.fit(second, **fit_options)
    ctx.check(model.fitted is True and sorted(model.data['data_labels']) == sorted(new_labels) and str(model.data['resolution']) == str(second.resolution), lambda: '%s: wrong state after the second fit: %s, %s instead of %s, %s' % (which, model.data['data_labels'], model.data['resolution'], new_labels, second.resolution), 'second-fit')
    for name, f in calls[:-1]:
        before = repr(sorted((k, str(v)) for k, v in model.data.items()))
        ctx.check(ctx.raises(lambda: f(line.series(rows)), ValueError) is not None, lambda: '%s: %s accepted on a series as the one of the first fit, when fitted again on one with other %s' % (which, name, how), 'second-fit-refused')
        ctx.check(repr(sorted((k, str(v)) for k, v in model.data.items())) == before, '%s: a refused %s changed the model' % (which, name), 'refused-state')
        ctx.count('refused')
        try:
            f(new_line.series(new_rows))
        except (ValueError, NotFittedError) as e:
            ctx.fail('%s: %s on the series of the second fit (other %s) refused: %r' % (which, name, how, e), 'second-fit-accepted')
        ctx.count('accepted')
        ctx.count('fitted_again')
    ctx.sig('again', which, how, line.describe(), new_line.describe(), labels, new_labels)


def univariate(ctx, rng, index):
    """Models which work on a single label refuse series with more of them, and are then still not fitted."""
    from timeseria.models.forecasters import AARIMAForecaster, ARIMAForecaster, ProphetForecaster
    from timeseria.models.reconstructors import ProphetReconstructor
    make, options = [(ProphetForecaster, {}), (ARIMAForecaster, {}), (AARIMAForecaster, {}), (ProphetReconstructor, {}), (PeriodicAverageReconstructor, {'periodicity': PERIOD})][index % 5]
    labels = rng.sample(gen.LABELS, rng.choice([2, 2, 3]))
    n = rng.choice([12, 24])
    line = models.Line(rng, n + 2)
    rows = models.rows(rng, n, labels, PERIOD)
    series = line.series(rows)
    single = line.series([{labels[0]: d[labels[0]]} for d in rows])
    before = obs.snap(series)
    model = make()
    ctx.check(ctx.raises(lambda: model.fit(series, **options)) is not None, lambda: '%s fitted on labels %s' % (make.__name__, labels), 'univariate-fit')
    ctx.check(not model.fitted, lambda: '%s is fitted after having refused labels %s' % (make.__name__, labels), 'univariate-fitted')
    for one in (series, single):
        call = (lambda: model.predict(one, steps=1)) if 'Forecaster' in make.__name__ else (lambda: model.predict(one, from_i=4, to_i=5))
        ctx.check(ctx.raises(call, NotFittedError) is not None, lambda: '%s predicts after having refused labels %s' % (make.__name__, labels), 'univariate-predict')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'refusing the series changed it', 'univariate-series')
    ctx.count('univariate')
    ctx.sig('univariate', index % 5, labels, line.describe())


CASES = {'univariate': {'run': univariate, 'quick': 200, 'thorough': 1000}, 'history': {'run': history, 'quick': 6000, 'thorough': 60000}, 'again': {'run': again, 'quick': 900, 'thorough': 9000}}
SCALE = {'quick': 1, 'thorough': 2}
