import os

from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
from timeseria.models.forecasters import LSTMForecaster

from .. import gen, keras_stub, models, obs
from .p28 import ALL, metric

RULE = ('LSTM forecasters on a stand-in for the neural network which records what it is given, fitted (once or more) and used for predictions, forecasts, evaluations, cross validations, anomaly detection and after loading, on '
        'regular point and slot series with losses, any window, features, targets, context and normalization: every matrix given to the network and every value coming back compared with the reference; distinct by options and series')
FLOORS = {'fits': 500, 'fit_windows': 5000, 'predictions': 2000, 'lossy': 100, 'context': 150, 'refits': 100, 'evaluations': 100, 'loaded': 100, 'refused': 300, 'detectors_with_context': 40, 'detectors': 30, 'rounds': 50}


def setup(ctx):
    keras_stub.install()
    del keras_stub.CREATED[:]


def features_of(line, window, labels, features, hours):
    """window: list of dictionaries, where labels not known are missing. hours: one per element."""
    out = []
    for i, d in enumerate(window):
        row = []
        if 'values' in features:
            row += [d.get(label, 0.0) for label in labels]
        if 'diffs' in features:
            for label in labels:
                low, high = (0, 1) if i == 0 else (i - 1, i) if i == len(window) - 1 else (i - 1, i + 1)
                if label in window[low] and label in window[high]:
                    # A null difference is given as one
                    v = (window[high][label] - window[low][label]) / (2 if high - low == 2 else 1)
                    row.append(v if v != 0 else 1)
                else:
                    row.append(0.0)
        if 'hours' in features:
            row.append(hours[i] / 24)
        out.append(row)
    return out


def same(got, want):
    return len(got) == len(want) and all(obs.close(float(a), float(b), rel=1e-7, abs_=1e-9) if not hasattr(a, '__len__') else same(a, b) for a, b in zip(got, want))


class Setting:
    """A line of which a part is used for the fit, the options and the reference."""

    def __init__(self, ctx, rng, context=None, kind=None, plain=False):
        self.ctx = ctx
        self.window = rng.choice([1, 2, 3, 5])
        self.features = rng.choice([['values'], ['values'], ['values', 'hours'], ['values', 'diffs'], ['hours', 'diffs', 'values'], ['diffs'], ['hours']])
        self.context = rng.random() < 0.3 if context is None else context
        if self.window == 1 and 'diffs' in self.features and not self.context:
            self.window = 2
        self.labels = sorted(rng.sample(gen.LABELS, rng.choice([2, 3]) if self.context else rng.choice([1, 2, 3])))
        self.n = self.window + rng.choice([3, 6, 15])
        self.line = models.Line(rng, self.n + 8, kind=kind)
        self.rows = [{label: round(v + 0.001 * i, 5) for label, v in d.items()} for i, d in enumerate(models.rows(rng, self.n + 6, self.labels, noise=5))]
        if self.context:
            self.targets = rng.sample(self.labels, rng.randint(1, len(self.labels) - 1))
        else:
            self.targets = rng.choice([None, None, rng.sample(self.labels, rng.randint(1, len(self.labels)))])
        self.normalize = rng.random() < 0.7
        self.limit = rng.choice([1.0, 1.0, 0.5, None])
        self.losses = None if plain or rng.random() < 0.6 else [rng.choice([None, 0, 0.2, 0.2, 0, 0, 0.5, 1]) for _ in range(self.n)]
        self.metric = rng.choice(['MSE', 'MSE', 'MAE', 'MAPE', 'MSLE'])
        self.order = self.targets if self.targets is not None else self.labels
        self.options = {'epochs': rng.choice([30, 3])} if rng.random() < 0.5 else {}
        if not self.normalize or rng.random() < 0.3:
            self.options['normalize'] = self.normalize
        if self.targets is not None:
            self.options['target'] = list(self.targets) if len(self.targets) > 1 or rng.random() < 0.5 else self.targets[0]
        if self.context:
            self.options['with_context'] = True
        if self.metric != 'MSE' or rng.random() < 0.3:
            self.options['minimize_error_metric'] = self.metric
        if self.limit != 1.0 or rng.random() < 0.3:
            self.options['data_loss_limit'] = self.limit
        self.neurons = rng.choice([128, 16])

    def model(self, rng):
        kwargs = {'window': self.window} if self.window != 3 or rng.random() < 0.5 else {}
        if self.features != ['values'] or rng.random() < 0.5:
            kwargs['features'] = list(self.features)
        if self.neurons != 128:
            kwargs['neurons'] = self.neurons
        return LSTMForecaster(**kwargs)

    def series(self, first=0, last=None, losses=False):
        last = self.n if last is None else last
        return self.line.series(self.rows[first:last], first=first, losses=self.losses[first:last] if losses and self.losses else None)

    def describe(self):
        return 'window %s, features %s, labels %s, %r, on %s %s' % (self.window, self.features, self.labels, self.options, self.n, self.line.describe())

    def scale(self, label, v):
        if not self.normalize:
            return v
        column = [d[label] for d in self.rows[:self.n]]
        return (v - min(column)) / (max(column) - min(column))

    def unscale(self, label, v):
        if not self.normalize:
            return v
        column = [d[label] for d in self.rows[:self.n]]
        return v * (max(column) - min(column)) + min(column)

    def constant(self):
        return any(len(set(d[label] for d in self.rows[:self.n])) == 1 for label in self.labels)

    def hour(self, i):
        return gen.from_epoch(self.line.bounds[i], self.line.zone).hour

    def element(self, d):
        return {label: self.scale(label, v) for label, v in d.items()}

    def inputs(self, i, rows=None, context=None, leak=False):
        """The features to predict item i."""
        rows = self.rows if rows is None else rows
        window = [self.element(d) for d in rows[i - self.window:i]]
        hours = [self.hour(k) for k in range(i - self.window, i)]
        if self.context:
            d = self.element(context if context is not None else rows[i])
            window.append(d if leak else {label: v for label, v in d.items() if label not in self.targets})
            hours.append(self.hour(i))
        return features_of(self.line, window, self.labels, self.features, hours)

    def usable(self, i):
        lossy = lambda k: self.limit is not None and self.losses and self.losses[k] is not None and self.losses[k] >= self.limit
        return not any(lossy(k) for k in range(i - self.window, i + 1))

    def prediction(self, network, x):
        return {label: self.unscale(label, v) for label, v in zip(self.order, network(x))}

    def check_fit(self, network, what):
        ctx = self.ctx
        positions = [i for i in range(self.window, self.n) if self.usable(i)]
        x, y, kwargs = network.fits[-1]
        ctx.check(kwargs.get('epochs') == self.options.get('epochs', 30), lambda: '%s: fitted with %r' % (what, kwargs), 'epochs')
        ctx.check(len(x) == len(positions) == len(y), lambda: '%s: fitted on %s windows instead of %s' % (what, len(x), len(positions)), 'fit-windows')
        for k, i in enumerate(positions):
            ctx.count('fit_windows')
            want = self.inputs(i)
            ctx.check(same(x[k], want), lambda: '%s: the window before item %s is given as %s instead of %s' % (what, i, x[k].tolist(), want), 'fit-features')
            want = [self.scale(label, self.rows[i][label]) for label in self.order]
            ctx.check(same(y[k], want), lambda: '%s: the target for item %s is given as %s instead of %s' % (what, i, y[k].tolist(), want), 'fit-targets')
        ctx.count('fits')

    def check_default_network(self, network, what):
        ctx = self.ctx
        width = len(self.inputs(self.window)[0])
        ctx.check([type(layer).__name__ for layer in network.layers] == ['LSTM', 'Dense'], what + ': another network', 'network')
        first, last = network.layers
        ctx.check(first.args[0] == self.neurons and tuple(first.kwargs['input_shape']) == (self.window + (1 if self.context else 0), width), lambda: '%s: network with %r %r' % (what, first.args, first.kwargs), 'network')
        ctx.check(last.args[0] == len(self.order), what + ': network with %s outputs' % last.args[0], 'network')
        loss = {'MSE': 'mean_squared_error', 'MAE': 'mean_absolute_error', 'MAPE': 'mean_absolute_percentage_error', 'MSLE': 'mean_squared_logarithmic_error'}[self.metric]
        ctx.check(network.compiled['loss'] == loss, lambda: '%s: network compiled with %r' % (what, network.compiled), 'network')


def check_prediction(ctx, setting, model, network, i, rng, what):
    """Predict item i from the items before it."""
    rows = setting.rows
    first = rng.choice([i - setting.window, max(0, i - setting.window - rng.randint(0, 4)), 0])
    series = setting.line.series(rows[first:i], first=first)
    if rng.random() < 0.2 and i < setting.n:
        series = setting.series().view(first, i)
    kwargs = {}
    if setting.context:
        kwargs['context_data'] = {label: rows[i][label] for label in setting.labels if label not in setting.targets}
        given = dict(kwargs['context_data'])
    before = obs.snap(series)
    got = model.predict(series, **kwargs)
    ctx.check(obs.diff(before, obs.snap(series)) is None, what + ': predicting changed the series', 'source-changed')
    if setting.context:
        ctx.check(kwargs['context_data'] == given, what + ': predicting changed the context', 'source-changed')
        ctx.count('context')
    want = setting.inputs(i)
    x = network.predictions[-1]
    ctx.check(len(x) == 1 and same(x[0], want), lambda: '%s: to predict item %s the network is given %s instead of %s' % (what, i, x.tolist(), want), 'features')
    want = setting.prediction(network, want)
    ctx.check(sorted(got) == sorted(want) and all(obs.close(float(got[label]), want[label], rel=1e-6, abs_=1e-7) for label in want), lambda: '%s: predicted %r instead of %r' % (what, got, want), 'values')
    ctx.count('predictions')


def fit_and_predict(ctx, rng, index):
    setup(ctx)
    setting = Setting(ctx, rng)
    if setting.constant():
        return
    what = setting.describe()
    external = rng.random() < 0.3
    if external:
        network = keras_stub.Network()
        model = LSTMForecaster(window=setting.window, features=list(setting.features), keras_model=network)
    else:
        model = setting.model(rng)
    if rng.random() < 0.3:
        # Fitted already, on something else and with other options
        other = setting.line.series([{label: v * 3 - 1 for label, v in d.items()} for d in setting.rows[:setting.n]])
        options = dict(setting.options, normalize=rng.random() < 0.5)
        model.fit(other, **options)
        what += ', after another fit with %r' % options
        ctx.count('refits')
    series = setting.series(losses=True)
    if not any(setting.usable(i) for i in range(setting.window, setting.n)):
        error = ctx.raises(lambda: model.fit(series, **setting.options), ValueError)
        ctx.check(error is not None, what + ': fitted on lost data only', 'all-lost')
        ctx.count('refused')
        return
    before = obs.snap(series)
    model.fit(series, **setting.options)
    ctx.check(obs.diff(before, obs.snap(series)) is None, what + ': fitting changed the series', 'source-changed')
    if external:
        ctx.check(model.keras_model is network, what + ': another network than the one given', 'network')
    network = model.keras_model
    setting.check_fit(network, what)
    if not external and len(network.fits) == 1:
        setting.check_default_network(network, what)
    if setting.losses:
        ctx.count('lossy')
    ctx.check(model.window == setting.window, what + ': another window', 'window')
    for _ in range(3):
        check_prediction(ctx, setting, model, network, rng.randint(setting.window, setting.n), rng, what)
    if rng.random() < 0.4:
        # Saved and loaded
        path = os.path.join(ctx.dir, 'm%s' % index)
        if rng.random() < 0.3:
            network.fail_save = True
            error = ctx.raises(lambda: model.save(path), OSError)
            ctx.check(error is not None and not os.path.exists(path), what + ': something left of a model which could not be saved', 'failed-save')
            network.fail_save = False
            ctx.count('refused')
        model.save(path)
        loaded = LSTMForecaster.load(path)
        ctx.check({k: repr(v) for k, v in loaded.data.items() if k != 'resolution'} == {k: repr(v) for k, v in model.data.items() if k != 'resolution'} and str(loaded.data['resolution']) == str(model.data['resolution']),
                  what + ': loaded with other parameters', 'loaded')
        check_prediction(ctx, setting, loaded, loaded.keras_model, rng.randint(setting.window, setting.n), rng, what + ' (loaded)')
        ctx.count('loaded')
    # Forecasts
    i = setting.n
    target = setting.series()
    if setting.context:
        context = {label: setting.rows[i][label] for label in setting.labels if label not in setting.targets}
        got = model.apply(target, context_data=context)
        expected = [dict(setting.prediction(network, setting.inputs(i)), **context)]
        ctx.check(ctx.raises(lambda: model.predict(target), ValueError) is not None and ctx.raises(lambda: model.apply(target), ValueError) is not None, what + ': context not required', 'context-required')
        ctx.count('refused')
    elif sorted(setting.order) != sorted(setting.labels):
        ctx.check(ctx.raises(lambda: model.apply(target), ValueError) is not None, what + ': applied with no data for some of the labels', 'targets-only')
        ctx.check(ctx.raises(lambda: model.predict(target, context_data={'a': 1}), ValueError) is not None, what + ': context accepted', 'context-refused')
        ctx.count('refused')
        return
    else:
        steps = rng.choice([1, 2, 4])
        got = model.apply(target, steps=steps)
        rows = [dict(d) for d in setting.rows[:i]]
        for k in range(steps):
            rows.append(setting.prediction(network, setting.inputs(i + k, rows)))
        expected = rows[i:]
        ctx.check(ctx.raises(lambda: model.predict(target, context_data={'a': 1}), ValueError) is not None, what + ': context accepted', 'context-refused')
        ctx.count('refused')
    ctx.check(len(got) == i + len(expected), what + ': applied for %s steps' % (len(got) - i), 'steps')
    for k, d in enumerate(expected):
        item = got[i + k]
        ctx.check(models.start_of(item) == setting.line.bounds[i + k], what + ': forecast at %s' % models.start_of(item), 'times')
        ctx.check(sorted(item.data) == sorted(setting.labels) and all(obs.close(float(item.data[label]), d[label], rel=1e-5, abs_=1e-6) for label in d), lambda: '%s: forecast %r instead of %r' % (what, item.data, d), 'forecast')
        ctx.count('predictions')
    ctx.sig(what, repr(setting.rows)[:300])
    ctx.sample({'model': what, 'windows': len(network.fits[-1][0])})


def evaluate(ctx, rng, index, context=False):
    setup(ctx)
    setting = Setting(ctx, rng, context=context, plain=True)
    setting.rows = [{label: v + 100 for label, v in d.items()} for d in setting.rows]
    if setting.constant():
        return
    model = setting.model(rng)
    series = setting.series()
    model.fit(series, **setting.options)
    network = model.keras_model
    n_fit = len(network.predictions)
    metrics = rng.choice([None, None, ['RMSE', 'MAE'], list(ALL[:6])])
    what = 'evaluation, ' + setting.describe()
    got = models.aloud(rng, model.evaluate, series, **({'error_metrics': metrics} if metrics else {}))
    asked = network.predictions[n_fit:]
    names = metrics or ([setting.metric] if setting.metric in ALL else ['RMSE', 'MAE'])
    leaked = False
    positions = list(range(setting.window, setting.n))
    ctx.check(len(asked) in (len(positions), len(positions) * len(setting.order)), what + ': %s predictions' % len(asked), 'coverage')
    for k, x in enumerate(asked):
        i = positions[k % len(positions)]
        fine = same(x[0], setting.inputs(i))
        if not fine and context and same(x[0], setting.inputs(i, leak=True)):
            leaked = True
            continue
        ctx.check(fine, lambda: '%s: to predict item %s the network is given %s instead of %s' % (what, i, x.tolist(), setting.inputs(i)), 'features')
    want = {}
    for label in setting.order:
        predicted = [setting.prediction(network, setting.inputs(i, leak=leaked))[label] for i in positions]
        for name in names:
            want['%s_%s' % (label, name)] = metric(name, [setting.rows[i][label] for i in positions], predicted)
    ctx.check(sorted(got) == sorted(want), lambda: '%s: got %s instead of %s' % (what, sorted(got), sorted(want)), 'metrics')
    for name in want:
        ctx.check(obs.close(float(got[name]), want[name], rel=1e-5, abs_=1e-6), lambda: '%s: %s is %r instead of %r' % (what, name, got[name], want[name]), 'metrics')
    ctx.count('evaluations')
    ctx.sig(what, metrics, repr(setting.rows)[:300])
    if leaked:
        ctx.fail('%s: the actual value to be predicted is given to the network as part of the context' % what, 'context-leak')


def evaluate_context(ctx, rng, index):
    evaluate(ctx, rng, index, context=True)


def cross_validate(ctx, rng, index, known=False):
    setup(ctx)
    setting = Setting(ctx, rng, context=False, plain=True)
    rounds = rng.choice([2, 3, 4])
    size = setting.window + rng.randint(2, 4)
    n = rounds * size
    setting.n = n
    setting.line = models.Line(rng, n + 2)
    setting.rows = [{label: round(v + 100 + 0.001 * i, 5) for label, v in d.items()} for i, d in enumerate(models.rows(rng, n + 2, setting.labels, noise=5))]
    model = setting.model(rng)
    series = setting.series()
    options = {'fit_' + k: v for k, v in setting.options.items()}
    what = 'cross validation in %s rounds, %s' % (rounds, setting.describe())
    model.cross_validate(series, rounds=rounds, **options)
    fits = [(network, k, fit) for network in keras_stub.CREATED for k, fit in enumerate(network.fits)]
    ctx.check(len(fits) == rounds, what + ': %s fits' % len(fits), 'rounds')
    kept = False
    for r, (network, k, (x, y, kwargs)) in enumerate(fits):
        low, high = r * size, (r + 1) * size
        before, after = range(0, low), range(high, n)
        used = before if len(before) > len(after) else after
        ctx.check(len(y) == len(used) - setting.window, lambda: '%s: round %s fitted on %s windows' % (what, r, len(y)), 'windows')
        columns = {label: [setting.rows[i][label] for i in used] for label in setting.labels}
        for p, i in enumerate(used[setting.window:]):
            want = [(setting.rows[i][label] - min(columns[label])) / (max(columns[label]) - min(columns[label])) if setting.normalize else setting.rows[i][label] for label in setting.order]
            ctx.check(same(y[p], want), lambda: '%s: round %s fitted on other items' % (what, r), 'fit-targets')
        if k > 0:
            kept = True
        ctx.count('rounds')
    ctx.sig(what, repr(setting.rows)[:300])
    if kept:
        # Reported by the cases about it only
        ctx.count('networks_kept')
        if known:
            ctx.fail('%s: the network fitted in a round goes on from the previous ones, which were fitted on the items on which it is then evaluated' % what, 'network-kept')


def rounds(ctx, rng, index):
    cross_validate(ctx, rng, index, known=True)


def refuse(ctx, rng, index):
    setup(ctx)
    setting = Setting(ctx, rng, plain=True)
    if setting.constant():
        return
    model = setting.model(rng)
    series = setting.series()
    wrong = rng.choice(['metric', 'target', 'all', 'feature', 'type'])
    options = dict(setting.options)
    types = ValueError
    if wrong == 'metric':
        options['minimize_error_metric'] = 'XYZ'
    elif wrong == 'target':
        options['target'] = rng.choice(['zz', ['zz'], setting.labels + ['zz']])
    elif wrong == 'all':
        options.update(target='all', with_context=True)
    elif wrong == 'type':
        options['target'] = 5
        types = TypeError
    else:
        model = LSTMForecaster(window=setting.window, features=['values', 'unknown'])
    before = obs.snap(series)
    error = ctx.raises(lambda: model.fit(series, **options), types)
    ctx.check(error is not None, '%s: fitted with a wrong %s' % (setting.describe(), wrong), 'wrong-' + wrong)
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'the series changed', 'source-changed')
    ctx.check(not any(network.fits for network in keras_stub.CREATED), 'a network was fitted anyway', 'wrong-' + wrong)
    ctx.count('refused')
    model = setting.model(rng)
    model.fit(series, **setting.options)
    context = {'context_data': {label: 1.0 for label in setting.labels if label not in setting.targets}} if setting.context else {}
    error = ctx.raises(lambda: model.predict(setting.series(), steps=2, **context), NotImplementedError)
    ctx.check(error is not None, 'predicted more than one step', 'steps')
    ctx.count('refused')
    if setting.window > 1:
        short = setting.series(0, setting.window - 1)
        error = ctx.raises(lambda: model.predict(short, **context), ValueError)
        ctx.check(error is not None, 'predicted from less than a window', 'short')
        ctx.count('refused')
    ctx.sig(setting.describe(), wrong)


def detect(ctx, rng, index):
    """The anomaly detector on LSTM, without context: errors of the fit."""
    setup(ctx)
    setting = Setting(ctx, rng, context=False, plain=True)
    setting.targets, setting.order = None, setting.labels
    setting.options = {k: v for k, v in setting.options.items() if k in ('epochs', 'normalize')}
    setting.limit = 1.0
    setting.rows = [{label: v + 100 for label, v in d.items()} for d in setting.rows]
    if setting.constant() or setting.n - setting.window < 6:
        return
    detector = LSTMAnomalyDetector(window=setting.window, features=list(setting.features))
    series = setting.series()
    detector.fit(series, error_metric='E', error_distribution='norm', **setting.options)
    network = keras_stub.CREATED[-1]
    what = 'detector, ' + setting.describe()
    positions = list(range(setting.window + 1, setting.n))
    for label in setting.labels:
        want = [setting.rows[i][label] - setting.prediction(network, setting.inputs(i))[label] for i in positions]
        got = detector.data['prediction_errors'][label]
        ctx.check(len(got) == len(want) and all(obs.close(float(a), b, rel=1e-5, abs_=1e-5) for a, b in zip(got, want)), lambda: '%s: errors %r instead of %r' % (what, got, want), 'errors')
    if rng.random() < 0.5:
        path = os.path.join(ctx.dir, 'd%s' % index)
        before = obs.snap_content(detector.apply(series, index_bounds=['avg_err', 'max_err']))
        detector.save(path)
        loaded = LSTMAnomalyDetector.load(path)
        after = obs.snap_content(loaded.apply(series, index_bounds=['avg_err', 'max_err']))
        ctx.check(obs.diff(before, after) is None, lambda: '%s: something else once loaded: %s' % (what, obs.diff(before, after)), 'loaded')
    ctx.count('detectors')
    ctx.sig(what, repr(setting.rows)[:300])


def detect_context(ctx, rng, index):
    """The anomaly detector on LSTM with context: a model for each label, which is given the other ones."""
    setup(ctx)
    setting = Setting(ctx, rng, context=True, plain=True)
    setting.targets, setting.order = None, None
    setting.metric, setting.neurons = 'MSE', setting.neurons
    setting.options = {k: v for k, v in setting.options.items() if k in ('epochs', 'normalize')}
    setting.limit = 1.0
    setting.rows = [{label: v + 100 for label, v in d.items()} for d in setting.rows]
    if setting.constant() or setting.n - setting.window < 6:
        return
    kwargs = {'window': setting.window, 'features': list(setting.features)}
    if setting.neurons != 128:
        kwargs['neurons'] = setting.neurons
    detector = LSTMAnomalyDetector(**kwargs)
    series = setting.series()
    snap = obs.snap(series)
    detector.fit(series, with_context=True, error_metric='E', error_distribution='norm', **setting.options)
    ctx.check(obs.diff(snap, obs.snap(series)) is None, 'the series changed', 'source-changed')
    what = 'detector with context, ' + setting.describe()
    networks = [network for network in keras_stub.CREATED if network.fits]
    ctx.check(len(networks) == len(setting.labels), lambda: '%s: %s networks' % (what, len(networks)), 'networks')
    positions = list(range(setting.window + 1, setting.n))
    leaked = False
    for label, network in zip(series.data_labels(), networks):
        setting.targets = setting.order = [label]
        setting.check_fit(network, what + ', ' + label)
        setting.check_default_network(network, what + ', ' + label)
        errors = lambda leak: [setting.rows[i][label] - setting.prediction(network, setting.inputs(i, leak=leak))[label] for i in positions]
        got = [float(e) for e in detector.data['prediction_errors'][label]]
        agree = lambda want: len(got) == len(want) and all(obs.close(a, b, rel=1e-5, abs_=1e-5) for a, b in zip(got, want))
        if not agree(errors(False)) and agree(errors(True)):
            leaked = True
            continue
        ctx.check(agree(errors(False)), lambda: '%s: errors of %s are %r instead of %r' % (what, label, got, errors(False)), 'errors')
    if rng.random() < 0.5:
        path = os.path.join(ctx.dir, 'c%s' % index)
        options = {'index_bounds': ['avg_err', 'max_err'], 'details': True}
        before = obs.snap_content(detector.apply(series, **options))
        detector.save(path)
        loaded = LSTMAnomalyDetector.load(path)
        after = obs.snap_content(loaded.apply(series, **options))
        ctx.check(obs.diff(before, after) is None, lambda: '%s: something else once loaded: %s' % (what, obs.diff(before, after)), 'loaded')
        ctx.count('loaded')
    if len(setting.labels) > 1 and rng.random() < 0.3:
        label = setting.labels[0]
        error = ctx.raises(lambda: LSTMAnomalyDetector(window=setting.window).fit(setting.line.series([{label: d[label]} for d in setting.rows[:setting.n]]), with_context=True), ValueError)
        ctx.check(error is not None, 'fitted with context on one label', 'one-label')
        ctx.count('refused')
    ctx.count('detectors_with_context')
    ctx.sig(what, repr(setting.rows)[:300])
    if leaked:
        ctx.fail('%s: the actual value is given to the network as part of the context' % what, 'detector-context-leak')


CASES = {'fit_and_predict': {'run': fit_and_predict, 'quick': 1600, 'thorough': 24000},
         'evaluate': {'run': evaluate, 'quick': 400, 'thorough': 5000},
         'evaluate_context': {'run': evaluate_context, 'quick': 40, 'thorough': 40},
         'cross_validate': {'run': cross_validate, 'quick': 150, 'thorough': 2000},
         'rounds': {'run': rounds, 'quick': 40, 'thorough': 40},
         'refuse': {'run': refuse, 'quick': 300, 'thorough': 3000},
         'detect': {'run': detect, 'quick': 120, 'thorough': 1200},
         'detect_context': {'run': detect_context, 'quick': 120, 'thorough': 1200}}
SCALE = {'quick': 1, 'thorough': 2}
