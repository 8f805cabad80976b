import math

from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.utilities import detect_periodicity

from .. import gen, models, obs

RULE = ('periodic average forecasters fitted with given or automatic periodicities and windows, with or without daylight saving adjustment and lossy items, on parts of regular stretches of time '
        '(also before the epoch, over calendar units and DST changes), forecasting other parts: every value against the mean of its phase plus the mean deviation of the window; distinct by periodicity, window and stretch')
FLOORS = {'values': 3000, 'lossy': 200, 'dst': 100, 'auto_periodicity': 100, 'calendar': 100}


def fit_and_compare(ctx, rng, index, known=False):
    period = rng.choice([1, 2, 3, 4, 5, 7, 12, 24, 31])
    window = rng.choice(['auto', 'auto', 1, 2, 3, 5, period + 1])
    size = period if window == 'auto' else window
    dst = rng.random() < 0.35
    kwargs = {}
    if dst:
        kind = rng.choice(['points', 'slots'])
        kwargs = {'kind': kind, 'unit': rng.choice(['15m', '1h', '30s']), 'spacing': rng.choice([600, 900, 1800, 3600])}
    n = period * rng.randint(2, 6) + rng.randint(0, period) + size
    m = n + rng.randint(0, 3 * period) + size + 1
    steps = rng.choice([1, 1, 2, period + 1, 2 * period])
    line = models.Line(rng, m + steps + 3, **kwargs)
    if dst:
        # Close to a change of the time
        zone = rng.choice(['Europe/Rome', 'America/New_York', 'Australia/Lord_Howe'])
        step = line.bounds[1] - line.bounds[0]
        change = rng.choice(gen.transitions(zone, 2000, 2026))
        begin = change // step * step - rng.randint(0, m) * step
        line.zone = zone
        line.bounds = [begin + i * step for i in range(m + steps + 4)]
    labels = gen.labels(rng)
    rows = models.rows(rng, m, labels, period)
    limit = rng.choice([1.0, 1.0, 0.5, None])
    losses = [rng.choice([None, 0, 0, 0.2, 0.5, 0.75, 1]) for _ in range(m)] if rng.random() < 0.4 else None
    a = rng.randint(0, 3) if n > 5 else 0
    fit_items = [(i, rows[i], losses[i] if losses else None) for i in range(a, n)]
    series = line.series(rows[a:n], first=a, losses=losses[a:n] if losses else None)
    model = PeriodicAverageForecaster(window=window) if window != 'auto' or rng.random() < 0.5 else PeriodicAverageForecaster()
    options = {'periodicity': period}
    if dst:
        options['dst_affected'] = True
    if limit != 1.0 or rng.random() < 0.3:
        options['data_loss_limit'] = limit
    usable = [i for i, d, loss in fit_items if limit is None or loss is None or loss < limit]
    if not usable:
        ctx.check(ctx.raises(lambda: model.fit(series, **options), ValueError) is not None, 'fitted on no data', 'no-data')
        return
    model.fit(series, **options)
    # Where it is asked to forecast from
    first = rng.randint(0, m - size - 1)
    last = rng.randint(first + size, m)
    if last - first < 2:
        last = first + 2 if first + 2 <= m else last
    target = line.series(rows[first:last], first=first)
    items = [(i, rows[i], None) for i in range(first, last)]
    phases = set(line.phase(i, period, dst) for i in usable)
    needed = set(line.phase(i, period, dst) for i in list(range(last - min(size + 1, last - first), last)) + list(range(last, last + steps)))
    if not needed <= phases:
        # Nothing is known about some of the phases
        if not set(line.phase(i, period, dst) for i in range(last, last + steps)) <= phases:
            ctx.check(ctx.raises(lambda: model.predict(target, steps=steps)) is not None, 'forecasted phases never seen', 'unseen-phase')
        ctx.count('unseen')
        return
    got = model.predict(target, steps=steps)
    what = 'periodicity %s window %s fit %s:%s target %s:%s dst %s limit %s' % (period, window, a, n, first, last, dst, limit)
    ctx.check(isinstance(got, list) and len(got) == steps, lambda: 'expected %s steps' % steps, 'steps')
    shifted_only = False
    for label in labels:
        want = models.pa_forecast(line, fit_items, items, label, period, size, steps, dst, limit)
        old = models.pa_forecast(line, fit_items, items, label, period, size, steps, dst, limit, shifted=True)
        for k in range(steps):
            ctx.count('values')
            ok = obs.close(got[k][label], want[k], rel=1e-7, abs_=1e-6)
            if not ok and obs.close(got[k][label], old[k], rel=1e-7, abs_=1e-6):
                shifted_only = True
                continue
            ctx.check(ok, lambda: '%s: step %s of "%s" is %r instead of %r' % (what, k + 1, label, got[k][label], want[k]), 'values')
    if losses:
        ctx.count('lossy')
    if dst:
        ctx.count('dst')
    if line.unit in ('1D', '1W', '1M', '1Y'):
        ctx.count('calendar')
    ctx.sig(period, window, dst, limit, line.describe(), a, n, first, last, repr(rows)[:500])
    ctx.sample({'model': what, 'line': line.describe(), 'forecast': got[:2]})
    if shifted_only:
        # Reported by the cases about it only
        ctx.count('offset_without_last_item')
    if shifted_only and known:
        ctx.fail('%s: the window which is compared with the averages leaves out the last item' % what, 'offset-window')


def offset(ctx, rng, index):
    fit_and_compare(ctx, rng, index, known=True)


def auto(ctx, rng, index):
    """A signal which is exactly periodic: the periodicity is found for each label, and the signal goes on."""
    periods = rng.sample([4, 5, 6, 8, 10, 12, 16, 20, 24], rng.choice([1, 1, 2]))
    cycles = rng.randint(6, 10)
    n = 1
    for p in periods:
        n = n * p // math.gcd(n, p)
    n = n * max(1, -(-cycles * max(periods) // n))
    if n > 480:
        periods = periods[:1]
        n = periods[0] * cycles
    steps = rng.choice([1, 3, max(periods)])
    line = models.Line(rng, n + steps + 3, unit=rng.choice(['1s', '1m', '15m', '1h', '1D']), spacing=rng.choice([0.5, 1, 60, 600, 3600]))
    labels = ['a', 'b'][:len(periods)]
    shape = {label: (rng.uniform(5, 30), rng.uniform(1, 4), rng.random() * 6) for label in labels}

    def value(label, i):
        base, amplitude, shift = shape[label]
        return base + amplitude * math.sin(2 * math.pi * i / periods[labels.index(label)] + shift)
    rows = [{label: value(label, i) for label in labels} for i in range(n)]
    series = line.series(rows)
    model = PeriodicAverageForecaster()
    model.fit(series)
    for label, p in zip(labels, periods):
        found = detect_periodicity(series[label])
        ctx.check(model.data['periodicities'][label] == found, 'periodicity of "%s" %s instead of the detected %s' % (label, model.data['periodicities'][label], found), 'auto-periodicity')
        ctx.check(found == p, lambda: 'periodicity %s instead of %s on %s items of a sine' % (found, p, n), 'periodicity')
        ctx.count('auto_periodicity')
    # The longest of the periods is what the model needs to see
    ctx.check(model.window == max(periods) and model.data['window'] == max(periods), lambda: 'window %s with periods %s' % (model.window, periods), 'auto-window')
    first = n - max(periods) - rng.choice([0, 0, 1, 2])
    short = line.series(rows[n - max(periods) + 1:], first=n - max(periods) + 1)
    ctx.check(ctx.raises(lambda: model.predict(short), ValueError) is not None, lambda: 'forecasted from %s items with periods %s' % (len(short), periods), 'auto-window')
    got = model.predict(rng.choice([series, line.series(rows[first:], first=first)]), steps=steps)
    for k in range(steps):
        for label in labels:
            ctx.check(obs.close(got[k][label], value(label, n + k), rel=1e-6, abs_=1e-6), lambda: 'the signal does not go on: %r instead of %r' % (got[k][label], value(label, n + k)), 'signal')
    ctx.sig(periods, n, line.describe())


CASES = {'fit_and_compare': {'run': fit_and_compare, 'quick': 3000, 'thorough': 40000},
         'offset': {'run': offset, 'quick': 80, 'thorough': 80},
         'auto': {'run': auto, 'quick': 300, 'thorough': 4000}}
SCALE = {'quick': 1, 'thorough': 2}
