import math

from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor, ProphetReconstructor, Reconstructor

from .. import gen, models, obs

RULE = ('linear, periodic average, Prophet and user-written (with a call log) reconstructors applied, in place and not, on regular point and slot series with random gaps (at the edges as well), '
        'data losses and thresholds; every item compared with the reference; distinct by model, gaps and stretch')
FLOORS = {'reconstructed': 3000, 'untouched': 5000, 'gaps': 1500, 'edge_gaps': 100, 'unfittable': 10, 'prophet': 2}


def lossy(rng, n, threshold, edges=False):
    """Random losses, and the maximal gaps made of the ones reaching the threshold."""
    losses = [rng.choice([None, 0, 0, threshold / 2, threshold * 0.99]) for _ in range(n)]
    for _ in range(rng.randint(1, 4)):
        size = rng.choice([1, 1, 2, 3, 6])
        first = rng.randint(0 if edges else 1, max(1, n - 2))
        for i in range(first, min(first + size, n if edges else n - 1)):
            losses[i] = rng.choice([threshold, threshold, min(1, threshold * 1.2), 1])
    return losses, gaps_of(losses, threshold)


def gaps_of(losses, threshold):
    gaps = []
    for i, loss in enumerate(losses):
        if loss is not None and loss >= threshold:
            if gaps and gaps[-1][1] == i - 1:
                gaps[-1][1] = i
            else:
                gaps.append([i, i])
    return [tuple(g) for g in gaps]


def check_result(ctx, before, got, gaps, expected, what):
    """expected: the values of the items in the gaps, by position."""
    inside = set(i for a, b in gaps for i in range(a, b + 1))
    ctx.check(len(got) == len(before['items']), '%s: items lost or added' % what, 'length')
    ctx.check(str(got.resolution) == before['resolution'] and str(got.tz) == before['tz'], '%s: resolution or time zone changed' % what, 'series')
    for i, (item, old) in enumerate(zip(got, before['items'])):
        new = obs.snap_item(item)
        indexes = dict(old['indexes'][1])
        indexes['data_reconstructed'] = 1 if i in inside else 0
        ctx.check(dict(new['indexes'][1]) == indexes, lambda: '%s: item %s has indexes %r instead of %r' % (what, i, new['indexes'], indexes), 'indexes')
        for key in ('class', 't', 'end', 'unit', 'tz', 'start_tz', 'end_tz'):
            ctx.check(new[key] == old[key], lambda: '%s: item %s changed its %s' % (what, i, key), 'frame')
        if i in inside:
            ctx.count('reconstructed')
            ctx.check(sorted(item.data) == sorted(expected[i]), lambda: '%s: item %s has labels %s' % (what, i, sorted(item.data)), 'labels')
            for label, v in expected[i].items():
                ctx.check(obs.close(item.data[label], v, rel=1e-7, abs_=1e-6), lambda: '%s: item %s reconstructed as %r instead of %r for "%s"' % (what, i, item.data[label], v, label), 'values')
        else:
            ctx.count('untouched')
            ctx.check(new['data'] == old['data'], lambda: '%s: item %s, not to be reconstructed, changed from %r to %r' % (what, i, old['data'], new['data']), 'untouched')


def run(ctx, rng, model, series, gaps, threshold, expected, what):
    kwargs = {} if threshold == 1.0 and rng.random() < 0.5 else {'data_loss_threshold': threshold}
    before = obs.snap(series)
    got = model.apply(series, **kwargs)
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: '%s: the source changed: %s' % (what, obs.diff(before, obs.snap(series))), 'source-changed')
    check_result(ctx, before, got, gaps, expected, what)
    for a, b in zip(series, got):
        ctx.check(a is not b and a.data is not b.data and a.data_indexes is not b.data_indexes, '%s: state shared with the source' % what, 'shared')
    other = series.duplicate()
    answer = model.apply(other, inplace=True, **kwargs)
    ctx.check(answer is None, '%s: in-place apply returned something' % what, 'inplace')
    check_result(ctx, before, other, gaps, expected, what + ' (in place)')
    ctx.count('gaps', len(gaps))


def edge(ctx, model, series, threshold, what):
    before = obs.snap(series)
    error = ctx.raises(lambda: model.apply(series, data_loss_threshold=threshold), ValueError)
    ctx.check(error is not None, '%s: reconstructed a gap at the edge, of which one side is not known' % what, 'edge')
    ctx.check(obs.diff(before, obs.snap(series)) is None, '%s: the source changed' % what, 'source-changed')
    ctx.count('edge_gaps')


def linear(ctx, rng, index):
    n = rng.choice([3, 4, 6, 10, 25])
    line = models.Line(rng, n + 1)
    labels = gen.labels(rng)
    model = LinearInterpolationReconstructor()
    # One model on more than one series
    for _ in range(rng.choice([1, 1, 2, 3])):
        rows = models.rows(rng, n, labels)
        threshold = rng.choice([1.0, 1.0, 0.5, 0.8])
        losses, gaps = lossy(rng, n, threshold, edges=rng.random() < 0.1)
        series = line.series(rows, losses=losses)
        what = 'linear reconstructor on %s %s, losses %s, threshold %s' % (n, line.kind, losses, threshold)
        if any(a == 0 or b == n - 1 for a, b in gaps):
            edge(ctx, model, series, threshold, what)
            continue
        expected = {}
        for a, b in gaps:
            t0, t1 = line.bounds[a - 1], line.bounds[b + 1]
            for i in range(a, b + 1):
                w = (line.bounds[i] - t0) / (t1 - t0)
                expected[i] = {label: rows[a - 1][label] * (1 - w) + rows[b + 1][label] * w for label in labels}
        run(ctx, rng, model, series, gaps, threshold, expected, what)
        ctx.sig('linear', n, losses, threshold, line.describe(), repr(rows)[:300])
        ctx.sample({'model': what, 'gaps': gaps})


def periodic(ctx, rng, index):
    period = rng.choice([2, 3, 4, 7, 12, 24])
    n = period * rng.randint(2, 5) + rng.randint(1, 4)
    m = n + rng.choice([0, 0, period, 2 * period + 1])
    dst = rng.random() < 0.25
    line = models.Line(rng, m + 2, **({'unit': rng.choice(['15m', '1h']), 'spacing': rng.choice([600, 3600])} if dst else {}))
    label = rng.choice(gen.LABELS)
    rows = models.rows(rng, m, [label], period)
    threshold = rng.choice([1.0, 1.0, 0.5, 0.8])
    losses, gaps = lossy(rng, m, threshold, edges=rng.random() < 0.1)
    series = line.series(rows, losses=losses)
    limit = rng.choice([1.0, 1.0, threshold, None])
    fit_rows = rows[:n]
    options = {'periodicity': period}
    if dst:
        options['dst_affected'] = True
    if limit != 1.0 or rng.random() < 0.5:
        options['data_loss_limit'] = limit
    usable = [i for i in range(n) if limit is None or losses[i] is None or losses[i] < limit]
    model = PeriodicAverageReconstructor()
    fit_series = series if n == m else line.series(fit_rows, losses=losses[:n])
    before = obs.snap(fit_series)
    if not usable or (limit is not None and rng.random() < 0.05):
        # Nothing to learn from
        lost = line.series(fit_rows, losses=[rng.choice([limit, 1.0]) for _ in range(n)])
        error = ctx.raises(lambda: model.fit(lost, **options))
        ctx.check(error is not None and not model.fitted, 'periodic average reconstructor (limit %s) fitted on a series with no item below the limit' % limit, 'nothing-to-fit')
        error = ctx.raises(lambda: model.apply(series))
        ctx.check(error is not None, 'a reconstructor whose fit was refused is applied', 'nothing-to-fit')
        ctx.count('unfittable')
        return
    model.fit(fit_series, **options)
    ctx.check(obs.diff(before, obs.snap(fit_series)) is None, 'fitting changed the series', 'source-changed')
    means = models.averages([(line.phase(i, period, dst), rows[i][label]) for i in usable])
    what = 'periodic average reconstructor (periodicity %s, dst %s, limit %s) on %s %s, losses %s, threshold %s' % (period, dst, limit, m, line.kind, losses, threshold)
    if any(a == 0 or b == m - 1 for a, b in gaps):
        first = [g for g in gaps if g[0] == 0 or g[1] == m - 1][0]
        if gaps[0] == first:
            edge(ctx, model, series, threshold, what)
        return
    expected = {}
    for a, b in gaps:
        for i in range(a - 1, b + 2):
            if line.phase(i, period, dst) not in means:
                return
        offset = ((rows[a - 1][label] - means[line.phase(a - 1, period, dst)]) + (rows[b + 1][label] - means[line.phase(b + 1, period, dst)])) / 2
        for i in range(a, b + 1):
            expected[i] = {label: means[line.phase(i, period, dst)] + offset}
    run(ctx, rng, model, series, gaps, threshold, expected, what)
    if dst:
        ctx.count('dst')
    ctx.sig('periodic', period, losses, threshold, limit, line.describe(), repr(rows)[:300])


def custom(ctx, rng, index):
    """What a model is asked: each maximal gap, once, in order, on the series being reconstructed."""
    n = rng.choice([1, 2, 5, 12, 25])
    line = models.Line(rng, n + 1)
    labels = gen.labels(rng)
    rows = models.rows(rng, n, labels)
    threshold = rng.choice([1.0, 0.5, 0.8])
    losses, gaps = lossy(rng, n, threshold, edges=True)
    series = line.series(rows, losses=losses)
    style = rng.choice(['dict', 'list'])
    calls = []

    class Custom(Reconstructor):
        window = 0

        def predict(self, series, from_i, to_i):
            calls.append((from_i, to_i, len(series)))
            values = {label: [i * 1.5 + len(label) for i in range(from_i, to_i + 1)] for label in series.data_labels()}
            if style == 'dict':
                return values
            return [{label: values[label][k] for label in values} for k in range(to_i - from_i + 1)]
    if rng.random() < 0.7:
        Custom.predict = Reconstructor.predict_function(Custom.predict)
    what = 'custom reconstructor on %s %s, losses %s, threshold %s' % (n, line.kind, losses, threshold)
    expected = {i: {label: i * 1.5 + len(label) for label in labels} for a, b in gaps for i in range(a, b + 1)}
    run(ctx, rng, Custom(), series, gaps, threshold, expected, what)
    ctx.check([c[:2] for c in calls] == gaps + gaps, lambda: '%s: asked for %s instead of %s (twice)' % (what, calls, gaps), 'gaps')
    ctx.check(all(c[2] == n for c in calls), '%s: asked on another series' % what, 'gaps')
    ctx.sig('custom', n, losses, threshold, style, line.describe())


def prophet(ctx, rng, index):
    """Prophet works on the local time: same local times, same values, whatever the zone and the gaps."""
    n = 60
    zone = rng.choice(['Europe/Rome', 'America/New_York', 'Asia/Kolkata'])
    label = rng.choice(gen.LABELS)
    rows = models.rows(rng, n, [label], 12, noise=1)
    losses, gaps = lossy(rng, n, 1.0)
    got = []
    # Far from the changes of the time
    start = gen.epoch(gen.pytz.UTC.localize(gen._dt.datetime(2019, 6, rng.randint(1, 20))))
    for z in ('UTC', zone):
        line = models.Line(rng, n + 1, kind=rng.choice(['points', 'slots']), spacing=3600, unit='1h', zone=z)
        offset = gen.from_epoch(start, z).utcoffset().total_seconds()
        line.bounds = [start - offset + i * 3600 for i in range(n + 2)]
        model = ProphetReconstructor()
        model.fit(line.series(rows))
        series = line.series(rows, losses=losses)
        data = {}
        predicted = model.predict(series, 0, n - 1)
        expected = {i: {label: predicted[label][i]} for a, b in gaps for i in range(a, b + 1)}
        run(ctx, rng, model, series, gaps, 1.0, expected, 'Prophet reconstructor on %s' % z)
        got.append([predicted[label][i] for i in range(n)])
        # Something like the signal
        error = sum(abs(a - r[label]) for a, r in zip(got[-1], rows)) / n
        spread = max(r[label] for r in rows) - min(r[label] for r in rows)
        ctx.check(error <= spread, 'Prophet is out of range', 'prophet-values')
    ctx.check(all(obs.close(a, b, rel=1e-4, abs_=1e-4) for a, b in zip(*got)), 'Prophet depends on the time zone', 'prophet-zone')
    ctx.count('prophet')
    ctx.sig('prophet', zone, losses)


CASES = {'linear': {'run': linear, 'quick': 1500, 'thorough': 20000},
         'periodic': {'run': periodic, 'quick': 1200, 'thorough': 16000},
         'custom': {'run': custom, 'quick': 1200, 'thorough': 16000},
         'prophet': {'run': prophet, 'quick': 8, 'thorough': 64}}
SCALE = {'quick': 1, 'thorough': 2}
