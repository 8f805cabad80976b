import json
import os
import shutil
import subprocess
import sys

from timeseria.datastructures import TimeSeries
from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector
from timeseria.models.base import Model
from timeseria.models.forecasters import AARIMAForecaster, ARIMAForecaster, PeriodicAverageForecaster, ProphetForecaster
from timeseria.models.reconstructors import PeriodicAverageReconstructor, ProphetReconstructor, Reconstructor
from timeseria.units import TimeUnit

from .. import gen, models, obs

RULE = ('library and user-written models (forecasters, reconstructors, anomaly detectors and generic parametric ones) fitted on regular point and slot series, saved, loaded (also in another process, and from a moved directory '
        'which is then removed) and compared with the original: parameters, predictions, applications, evaluations, refusals, refits and further saves; saves which fail, of which nothing must be left; distinct by model, options and series')
FLOORS = {'loaded': 600, 'predictions': 500, 'applications': 500, 'evaluations': 200, 'refusals': 500, 'detectors': 100, 'failed_saves': 200, 'processes': 3, 'engines': 3}


class CustomReconstructor(Reconstructor):
    """A reconstructor as the users write them."""
    window = 1

    @Reconstructor.fit_function
    def fit(self, series, verbose=False):
        self.data['shift'] = {label: sum(x.data[label] for x in series) / len(series) / 10 for label in series.data_labels()}

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        return {label: [(series[from_i - 1].data[label] + series[to_i + 1].data[label]) / 2 + self.data['shift'][label] for _ in range(from_i, to_i + 1)] for label in series.data_labels()}


def make(rng, labels, period, which=None):
    """A new model, the options of its fit, and if it can be fitted again after loading it."""
    which = which or rng.choice(['pa', 'pa', 'pa', 'par', 'par', 'custom', 'custom', 'custom_reconstructor', 'parameters', 'detector', 'detector_r', 'custom_detector', 'custom_detector_r'])
    detection = {'error_metric': rng.choice(['E', 'PE', 'AE']), 'error_distribution': rng.choice(['norm', 'gennorm', 'logistic'])}
    if rng.random() < 0.3:
        detection['store_errors'] = False
    if which == 'pa':
        window = rng.choice(['auto', 'auto', 1, 3, period + 2])
        options = {'periodicity': period} if rng.random() < 0.8 or window == 'auto' else {'periodicity': period, 'dst_affected': True}
        if rng.random() < 0.2:
            options['dst_affected'] = True
        return which, PeriodicAverageForecaster(window), options, window == 'auto'
    if which == 'par':
        options = {'periodicity': period}
        if rng.random() < 0.2:
            options['dst_affected'] = True
        return which, PeriodicAverageReconstructor(), options, True
    if which == 'custom':
        window = rng.choice([1, 2, 4])
        cls = models.custom_forecaster(window, [round(rng.uniform(0.1, 0.5), 2) for _ in range(window)], 1, rng.choice(['single', 'multi']), True, True, bias=rng.choice(['mean', 'constant']))[0]
        return which, cls(), {}, True
    if which == 'custom_reconstructor':
        return which, CustomReconstructor(), {}, True
    if which == 'parameters':
        from .p22 import Parameters
        return which, Parameters(rng.choice([2, 2.5, -1e300, 0.1, 'text', 'è', True])), None, False
    if which == 'detector':
        return which, PeriodicAverageAnomalyDetector(), dict(detection, periodicity=period), True
    if which == 'detector_r':
        return which, PeriodicAverageReconstructorAnomalyDetector(), dict(detection, periodicity=period), True
    if which == 'custom_detector':
        cls = models.custom_forecaster(2, [0.5, 0.4], 0.3, rng.choice(['single', 'multi']), True, True, bias='mean')[0]
        return which, type('Detector', (ModelBasedAnomalyDetector,), {'model_class': cls})(), detection, True
    return which, type('Detector', (ModelBasedAnomalyDetector,), {'model_class': CustomReconstructor})(), detection, True


def parameters(model):
    """The parameters, with their types. Not the moment of the fit nor the identifiers."""
    return {k: repr(v) if k != 'resolution' else str(v) for k, v in model.data.items() if k not in ('id', 'fitted_at', 'model_id', 'model_ids')}


def everything(model):
    out = {k: repr(v) if k != 'resolution' else (str(v), type(v).__name__) for k, v in model.data.items()}
    for name in ('model', 'models'):
        inner = getattr(model, name, None)
        if isinstance(inner, Model):
            out[name] = everything(inner)
    return out


def outcome(function):
    try:
        got = function()
    except Exception as e:
        return 'raised', type(e).__name__, str(e)
    if isinstance(got, TimeSeries):
        return 'series', obs.snap_content(got)
    if isinstance(got, dict) and isinstance(got.get('series'), TimeSeries):
        got = dict(got, series=obs.snap_content(got['series']))
    return 'value', obs.freeze(got)



def behaviours(rng, which, line, rows, labels, n):
    """What to ask a model: name and function of the model."""
    out = []
    detector = 'detector' in which
    target = line.series(rows[:n], losses=[0.2 if i % 7 else 1 if 0 < i < n - 1 else 0 for i in range(n)] if rng.random() < 0.5 else None)
    other = line.series(rows[3:n], first=3)
    if which == 'par' or which == 'custom_reconstructor':
        out += [('predict', lambda m: m.predict(target, 2, 4)), ('apply', lambda m: m.apply(target)), ('apply', lambda m: m.apply(other)),
                ('evaluate', lambda m: m.evaluate(other, steps=[1, 2])), ('inplace', lambda m: in_place(m, target))]
    elif detector:
        options = {'index_bounds': ['1_sigma', '3_sigma']} if rng.random() < 0.5 else {'index_bounds': ['avg_err', 'max_err'], 'details': True}
        out += [('apply', lambda m: m.apply(target, **options)), ('apply', lambda m: m.apply(other, **options)), ('preprocess', lambda m: m.preprocess(target)),
                ('apply', lambda m: m.apply(m.preprocess(target), **options)), ('inspect', lambda m: m.data.get('stdevs'))]
    elif which == 'parameters':
        out += [('predict', lambda m: m.predict(other)), ('apply', lambda m: m.apply(other)), ('evaluate', lambda m: m.evaluate(other))]
    else:
        out += [('predict', lambda m: m.predict(other)), ('predict', lambda m: m.predict(target, steps=5) if which == 'pa' else m.predict(target)), ('apply', lambda m: m.apply(other, steps=4)),
                ('evaluate', lambda m: m.evaluate(other)), ('forecast', lambda m: m.forecast(other, steps=3) if hasattr(m, 'forecast') else None)]
    # What must be refused, the same way
    wrong = line.series([{'zz': 1.0} for _ in rows[:n]])
    short = models.Line(rng, n + 2, kind='points', spacing=17, zone='UTC').series(rows[:n])
    single = line.series(rows[:1])
    irregular = TimeSeries()
    for i in range(n):
        irregular.append(gen.point(i * 60 + (5 if i == 2 else 0), dict(rows[i])))
    for series in (wrong, short, TimeSeries(), irregular, None, single):
        out.append(('refusal', lambda m, series=series: m.predict(series, 1, 1) if which in ('par', 'custom_reconstructor') else m.predict(series)))
        out.append(('refusal', lambda m, series=series: m.apply(series)))
    out.append(('refusal', lambda m: m.evaluate(wrong)))
    if which != 'parameters':
        out.append(('refusal', lambda m: m.cross_validate(other)))
    return out


def in_place(model, series):
    series = series.duplicate()
    model.apply(series, inplace=True)
    return series


def round_trip(ctx, rng, index):
    period = rng.choice([2, 3, 5])
    labels = gen.labels(rng, 2)
    if rng.random() < 0.1:
        labels = ['è', 'with "quotes"\n'][:len(labels)]
    which, model, options, again = make(rng, labels, period)
    if which in ('par', 'detector_r'):
        labels = labels[:1]
    n = period * rng.randint(4, 6) + rng.randint(6, 9)
    zone = rng.choice(['UTC', 'Europe/Rome', 'Asia/Kolkata'])
    line = models.Line(rng, n + 2, zone=zone)
    rows = models.rows(rng, n, labels, period, noise=2)
    series = line.series(rows)
    if options and options.get('dst_affected') and (line.resolution_s() or 1) > 3600:
        options.pop('dst_affected')
    if options is not None:
        model.fit(series, **options)
    path = os.path.join(ctx.dir, rng.choice(['model', 'a/b/model', 'with spaces', 'è']) + str(index))
    before = everything(model)
    model.save(path)
    ctx.check(everything(model) == before and (model.fitted or options is None), '%s: saving changed the model' % which, 'save-changed')
    files = {name: open(os.path.join(root, name)).read() for root, _, names in os.walk(path) for name in names if name == 'data.json' and root == path}
    where = path
    if rng.random() < 0.3:
        where = path + '_moved'
        shutil.move(path, where)
    loaded = type(model).load(where)
    second = type(model).load(where)
    if rng.random() < 0.3:
        shutil.rmtree(where)
        where = None
    what = '%s fitted with %r on %s %s' % (which, options, n, line.describe())
    ctx.count('loaded')
    ctx.check(type(loaded) is type(model), what + ': another class', 'class')
    after = everything(loaded)
    ctx.check(after == before, lambda: '%s: loaded with other parameters: %r instead of %r' % (what, {k: v for k, v in after.items() if before.get(k) != v}, {k: v for k, v in before.items() if after.get(k) != v}), 'parameters')
    ctx.check(loaded.id == model.id and loaded.fitted is True, what + ': loaded with another id, or not fitted', 'id')
    if 'resolution' in model.data:
        ctx.check(loaded.data['resolution'] == model.data['resolution'] and isinstance(loaded.data['resolution'], TimeUnit), what + ': loaded with another resolution', 'parameters')
    ctx.check(loaded.data is not second.data, 'models loaded from the same path share the parameters', 'shared')
    ctx.check(getattr(loaded, 'window', None) == getattr(model, 'window', None), what + ': loaded with another window', 'window')
    if 'detector' in which:
        ctx.count('detectors')
    asked = behaviours(rng, which, line, rows, labels, n)
    rng.shuffle(asked)
    for name, function in asked:
        want = outcome(lambda: function(model))
        got = outcome(lambda: function(loaded))
        ctx.check(obs.diff(want, got) is None, lambda: '%s: %s on the loaded model is different: %s' % (what, name, obs.diff(want, got)), 'behaviour-' + name)
        ctx.count({'predict': 'predictions', 'apply': 'applications', 'evaluate': 'evaluations', 'refusal': 'refusals'}.get(name, 'others'))
        if want[0] == 'raised':
            ctx.count('raised_' + name)
    ctx.check(everything(loaded) == before, what + ': the parameters changed by using the loaded model', 'used')
    # Saved again, it is the same
    path = os.path.join(ctx.dir, 'again%s' % index)
    loaded.save(path)
    with open(path + '/data.json') as f:
        ctx.check(json.loads(f.read()) == json.loads(files['data.json']), what + ': saved again, it is different', 'again')
    third = type(model).load(path)
    ctx.check(everything(third) == before, what + ': loaded again, it is different', 'again')
    # Fitted again, on something else
    if again and rng.random() < 0.4:
        other = line.series([{k: v * 2 + 7 + i % 3 for k, v in d.items()} for i, d in enumerate(rows)])
        fresh = type(model)()
        fresh.fit(other, **options)
        loaded.fit(other, **options)
        ctx.check(parameters(loaded) == parameters(fresh), lambda: '%s: once loaded, fitted differently than when new: %r instead of %r' % (what, parameters(loaded), parameters(fresh)), 'refit')
        ctx.check(everything(second) == before and everything(model) == before, what + ': fitting a loaded model changed another', 'shared')
        ctx.count('refits')
    ctx.sig(which, repr(options), line.describe(), repr(rows)[:300])
    ctx.sample({'model': what, 'asked': [name for name, _ in asked][:5]})


class Unwritable(Exception):
    pass


def failing(ctx, rng, index):
    """Saves which cannot succeed."""
    labels = gen.labels(rng, 2)
    which, model, options, _ = make(rng, labels, 3, rng.choice(['pa', 'custom', 'par', 'custom_detector', 'detector', 'custom_detector_r', 'parameters']))
    if which == 'par':
        labels = labels[:1]
    n = 18
    line = models.Line(rng, n + 2)
    rows = models.rows(rng, n, labels, 3, noise=2)
    series = line.series(rows)
    if options is not None:
        options.pop('dst_affected', None)
        model.fit(series, **options)
    root = os.path.join(ctx.dir, 'f%s' % index)
    os.makedirs(root)
    how = rng.choice(['parameters', 'parameters', 'inner', 'directory', 'file', 'under_file', 'empty'])
    if how == 'inner' and 'detector' not in which:
        how = 'parameters'
    target = os.path.join(root, 'model')
    types = ValueError
    culprit = None
    if how in ('parameters', 'inner'):
        culprit = model if how == 'parameters' else model.model
        culprit.data['culprit'] = rng.choice([{1, 2}, object(), series, {(1, 2): 3}, b'1'])
        types = TypeError
    elif how == 'directory':
        os.makedirs(target)
        if rng.random() < 0.5:
            open(target + '/data.json', 'w').write('precious')
    elif how == 'file':
        open(target, 'w').write('precious')
    elif how == 'under_file':
        open(target, 'w').write('precious')
        target += '/model'
        types = (OSError, ValueError)
    else:
        target = rng.choice(['', None])

    def tree():
        return sorted((os.path.relpath(os.path.join(base, name), root), open(os.path.join(base, name)).read() if name in names else None) for base, dirs, names in os.walk(root) for name in dirs + names)
    files, before = tree(), everything(model)
    error = ctx.raises(lambda: model.save(target), types)
    what = '%s saved when it cannot be (%s)' % (which, how)
    ctx.check(error is not None, what + ': accepted', 'failed-accepted')
    ctx.check(tree() == files, lambda: '%s: left %r instead of %r' % (what, tree(), files), 'failed-left')
    ctx.check(everything(model) == before, what + ': the model changed', 'failed-changed')
    ctx.count('failed_saves')
    # And it still can be, once the cause is removed
    if culprit is not None:
        culprit.data.pop('culprit')
    target = os.path.join(root, 'right')
    model.save(target)
    loaded = type(model).load(target)
    ctx.check(everything(loaded) == everything(model), what + ': and then loaded with other parameters', 'failed-then')
    ctx.sig(which, how, line.describe(), repr(rows)[:100])


def engines(ctx, rng, index):
    """Models whose parameters are held by an external library."""
    cls = [ProphetForecaster, ARIMAForecaster, AARIMAForecaster, ProphetReconstructor][index % 4]
    model = ARIMAForecaster(rng.choice([1, 2]), rng.choice([0, 1]), rng.choice([0, 1])) if cls is ARIMAForecaster else cls()
    n = 50
    line = models.Line(rng, n + 5, kind=rng.choice(['points', 'slots']), spacing=3600, unit='1h', zone=rng.choice(['UTC', 'Asia/Kolkata']))
    label = rng.choice(gen.LABELS)
    rows = models.rows(rng, n, [label], 6, noise=1)
    series = line.series(rows)
    model.fit(series)
    path = os.path.join(ctx.dir, 'e%s' % index)
    model.save(path)
    loaded = cls.load(path)
    ctx.check(everything(loaded) == everything(model), '%s: loaded with other parameters' % cls.__name__, 'parameters')
    lossy = line.series(rows, losses=[1 if i in (7, 8, 20) else 0 for i in range(n)])
    if cls is ProphetReconstructor:
        asked = [lambda m: m.predict(lossy, 7, 8), lambda m: m.apply(lossy)]
    else:
        asked = [lambda m: m.predict(series, steps=3), lambda m: m.apply(series, steps=4)]
    for function in asked:
        want, got = outcome(lambda: function(model)), outcome(lambda: function(loaded))
        ctx.check(want[0] != 'raised', lambda: '%s: %r' % (cls.__name__, want), 'engine')
        ctx.check(obs.diff(want, got) is None, lambda: '%s: the loaded model gives something else: %s' % (cls.__name__, obs.diff(want, got)), 'engine')
    if cls in (ARIMAForecaster, AARIMAForecaster):
        # Contiguity is enforced after loading as well
        short = line.series(rows[:-1])
        ctx.check(outcome(lambda: model.predict(short)) == outcome(lambda: loaded.predict(short)) and outcome(lambda: loaded.predict(short))[0] == 'raised', '%s: applied on a series which does not end as the fit one' % cls.__name__, 'contiguity')
    ctx.count('engines')
    ctx.sig(cls.__name__, line.describe(), repr(rows)[:100])


PROGRAM = '''
import json, sys
from timeseria.datastructures import TimeSeries
from timeseria.models.%(module)s import %(name)s as Class
model = Class.load(sys.argv[1])
series = TimeSeries.load(sys.argv[2])
if hasattr(model, 'mark_events') or %(reconstructor)r:
    got = model.apply(series)
else:
    got = model.apply(series, steps=5)
print(json.dumps([model.id, [[item.start.t if hasattr(item, 'start') else item.t, dict(item.data), dict(item.data_indexes)] for item in got]]))
'''


def process(ctx, rng, index):
    """Loaded in another process."""
    which, cls, module = [('pa', PeriodicAverageForecaster, 'forecasters'), ('par', PeriodicAverageReconstructor, 'reconstructors'), ('detector', PeriodicAverageAnomalyDetector, 'anomaly_detectors')][index % 3]
    label = 'a'
    n = 40
    line = models.Line(rng, n + 2)
    rows = models.rows(rng, n, [label], 4, noise=2)
    series = line.series(rows)
    _, model, options, _ = make(rng, [label], 4, which)
    options.pop('store_errors', None)
    options.pop('dst_affected', None)
    model.fit(series, **options)
    path = os.path.join(ctx.dir, 'p%s' % index)
    model.save(path)
    target = line.series(rows, losses=[1 if i in (7, 8, 20) else 0 for i in range(n)] if which == 'par' else None)
    target.save(path + '_series')
    target = TimeSeries.load(path + '_series')
    program = PROGRAM % {'module': module, 'name': cls.__name__, 'reconstructor': which == 'par'}
    done = subprocess.run([sys.executable, '-W', 'ignore', '-c', program, path, path + '_series'], capture_output=True, text=True, timeout=300)
    ctx.check(done.returncode == 0, lambda: '%s: cannot be loaded and applied in another process: %s' % (which, done.stderr[-500:]), 'process')
    got = json.loads(done.stdout.splitlines()[-1])
    result = model.apply(target) if which != 'pa' else model.apply(target, steps=5)
    want = [model.id, [[models.start_of(item), dict(item.data), dict(item.data_indexes)] for item in result]]
    ctx.check(got == json.loads(json.dumps(want)), lambda: '%s: in another process gives something else: %s' % (which, obs.diff(obs.freeze(json.loads(json.dumps(want))), obs.freeze(got))), 'process')
    ctx.count('processes')
    ctx.sig(which, line.describe())


def generic(ctx, rng, index):
    """A detector with its model class given when creating it."""
    line = models.Line(rng, 32)
    rows = models.rows(rng, 30, ['a'], 3, noise=2)
    model = ModelBasedAnomalyDetector(PeriodicAverageForecaster)
    model.fit(line.series(rows), periodicity=3, error_metric='E', error_distribution='norm')
    path = os.path.join(ctx.dir, 'g%s' % index)
    model.save(path)
    error = ctx.raises(lambda: ModelBasedAnomalyDetector.load(path))
    ctx.sig('generic', line.describe())
    if error is not None:
        ctx.fail('a ModelBasedAnomalyDetector created with a model_class is saved but cannot be loaded: %r' % error, 'generic-detector-load')


CASES = {'round_trip': {'run': round_trip, 'quick': 900, 'thorough': 12000},
         'failing': {'run': failing, 'quick': 500, 'thorough': 5000},
         'engines': {'run': engines, 'quick': 8, 'thorough': 48},
         'process': {'run': process, 'quick': 6, 'thorough': 36},
         'generic': {'run': generic, 'quick': 8, 'thorough': 8}}
SCALE = {'quick': 1, 'thorough': 2}
