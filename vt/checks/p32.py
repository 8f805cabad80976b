from timeseria.interpolators import LinearInterpolator, UniformInterpolator

from .. import gen, obs

RULE = ('interpolations at random instants, on the points and in between, with the neighbours given or to be found, over regular and irregular series with dict and list data, '
        'with every interpolated value compared with exact arithmetic and every instant outside the series, or the given neighbours, required to be refused; distinct by series and instants')
FLOORS = {'interpolations': 5000, 'between_given': 1500, 'searched': 1500, 'refused': 1500, 'list_data': 100, 'views': 100}


def wanted(kind, p, q, label, t):
    a, b = obs.value(p, label), obs.value(q, label)
    if kind is UniformInterpolator:
        return (a + b) / 2
    return a + (b - a) * (t - p.t) / (q.t - p.t)


def interpolate(ctx, rng, index):
    as_list = rng.random() < 0.25
    series = gen.point_series(rng, n=rng.choice([2, 3, 4, 8, 20]), as_list=as_list)
    kind = rng.choice([LinearInterpolator, UniformInterpolator])
    if len(series) > 3 and rng.random() < 0.25:
        lo = rng.randint(0, len(series) - 3)
        series = series[lo:rng.randint(lo + 2, len(series))]
        ctx.count('views')
    if as_list:
        ctx.count('list_data')
    before = obs.snap(series)
    interpolator = kind(series)
    items = [item for item in series]
    ts = [item.t for item in items]
    scale = max(abs(obs.value(item, label)) for item in items for label in obs.labels_of(item))
    instants = []
    for _ in range(8):
        i = rng.randint(0, len(items) - 2)
        how = rng.random()
        t = ts[i] if how < 0.2 else ts[i] + (ts[i + 1] - ts[i]) * rng.choice([0.5, 0.25, 0.125, 0.9375, rng.random()])
        given = rng.random() < 0.5
        j = i + 1
        if given and rng.random() < 0.3:
            # The neighbours do not need to be adjacent
            i = rng.randint(0, i)
            j = rng.randint(j, len(items) - 1)
        if given and ts[i] < t < ts[j]:
            got = interpolator.evaluate(t, prev_i=i, next_i=j)
            ctx.count('between_given')
        elif given:
            error = ctx.raises(lambda: interpolator.evaluate(t, prev_i=i, next_i=j), ValueError)
            if t == ts[i] and error is None:
                # On the point itself there is just one sensible answer
                continue
            ctx.check(error is not None, lambda: 'interpolated at %s between %s and %s' % (t, ts[i], ts[j]), 'refused')
            ctx.count('refused')
            continue
        else:
            got = interpolator.evaluate(t)
            ctx.count('searched')
            i = max(k for k in range(len(ts)) if ts[k] <= t)
            j = i + 1
        ctx.count('interpolations')
        instants.append(t)
        ctx.check(type(got) is type(items[0].data) and len(got) == len(items[0].data), lambda: 'interpolated data %r for items with data %r' % (got, items[0].data), 'format')
        for label in obs.labels_of(items[0]):
            value = got[label] if isinstance(got, dict) else got[int(label)]
            if t == ts[i] and kind is UniformInterpolator:
                ctx.check(min(obs.value(items[i], label), obs.value(items[j], label)) <= value <= max(obs.value(items[i], label), obs.value(items[j], label)), 'value out of the range of the neighbours', 'values')
                continue
            x = wanted(kind, items[i], items[j], label, t)
            ctx.check(obs.close(value, x, abs_=1e-9 + 1e-12 * scale), lambda: '%r instead of %r at %s between %s and %s' % (value, x, t, items[i], items[j]), 'values')
    for _ in range(3):
        span = ts[-1] - ts[0]
        t = rng.choice([ts[0] - rng.choice([0.25, 1, span, 1e6]), ts[-1] + rng.choice([0, 0.25, 1, span, 1e6])])
        if t == ts[-1]:
            error = ctx.raises(lambda: interpolator.evaluate(t), ValueError)
            if error is None:
                continue
        else:
            error = ctx.raises(lambda: interpolator.evaluate(t), ValueError)
        ctx.check(error is not None, lambda: 'interpolated at %s out of the series, from %s to %s' % (t, ts[0], ts[-1]), 'outside')
        ctx.count('refused')
        i = rng.randint(0, len(items) - 2)
        ctx.check(ctx.raises(lambda: interpolator.evaluate(t, prev_i=i, next_i=i + 1), ValueError) is not None, 'interpolated out of the given neighbours', 'outside')
        ctx.check(ctx.raises(lambda: interpolator.evaluate(t, prev_i=i), ValueError) is not None and ctx.raises(lambda: interpolator.evaluate(t, next_i=i), ValueError) is not None,
                  'interpolated with only one neighbour', 'one-neighbour')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'interpolating changed the series', 'pure')
    ctx.sig(kind.__name__, repr(before)[:2000], instants)
    ctx.sample({'interpolator': kind.__name__, 'points': ts[:10], 'instants': instants})


CASES = {'interpolate': {'run': interpolate, 'quick': 1500, 'thorough': 20000}}
