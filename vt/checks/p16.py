from timeseria.datastructures import DataTimePoint
from timeseria.interpolators import LinearInterpolator, UniformInterpolator
from timeseria.transformations import Resampler
from timeseria.units import TimeUnit

from .. import gen, obs, transform

RULE = ('resamplings (down, up, on the same and on non-multiple units, linear and uniform interpolators, given and detected validity) of point series with gaps, jitter, losses, indexes, any start and time zone, '
        'with every resampled point judged against a reference model which integrates validity regions and interpolated gaps; distinct by series and unit')
FLOORS = {'resamplings': 1000, 'points': 5000, 'with_gaps': 200, 'upsampling': 100, 'indexes': 300, 'lossy': 100, 'empty_results': 20}
UNITS = ['1s', '10s', '30s', '1m', '5m', '10m', '15m', '30m', '1h', '2h', '6h', '7m', '90s']


def resample(ctx, rng, index):
    unit = rng.choice(UNITS)
    u = transform.unit_seconds(unit)
    zone = rng.choice(gen.ZONES)
    spacing = u / rng.choice([1, 1, 2, 3, 4, 5, 8, 10, 0.75, 1.5]) if rng.random() < 0.85 else u * rng.choice([2, 3, 10, 1.5])
    spacing = max(round(spacing * 16) / 16, 1 / 16)
    jitter = rng.random() < 0.2
    work = transform.Workload(rng, spacing, rng.choice([2, 3, 5, 12, 30, 60]), zone, jitter=jitter, align=u)
    mode = work.mode_spacing()
    kwargs = {}
    if mode is None or rng.random() < 0.2:
        validity = spacing * rng.choice([1, 1, 2, 0.5])
        kwargs['validity'] = validity
    else:
        validity = mode
    uniform = rng.random() < 0.2
    if rng.random() < 0.1:
        kwargs['force_data_loss'] = rng.choice([0, 0.5, 1])
    series = work.series()
    before = obs.snap(series)
    resampler = Resampler(unit, interpolator_class=UniformInterpolator if uniform else LinearInterpolator)
    if not kwargs and not uniform and rng.random() < 0.5:
        got = series.resample(unit)
    else:
        got = resampler.process(series, **kwargs)
    ctx.count('resamplings')
    if validity > u * 1.1:
        ctx.count('upsampling')
    if work.gaps:
        ctx.count('with_gaps')
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: 'resampling changed the source: %s' % obs.diff(before, obs.snap(series)), 'pure')
    ts = [p[0] for p in work.points]
    start = transform.first_slot(ts[0] - u / 2, unit, 'UTC') + u / 2
    if start - u / 2 == ts[0] - u / 2:
        pass
    if not transform.grid_safe(zone, unit):
        # The alignment of these units follows the (local) rounding of the time units
        if len(got):
            start = got[0].t - u / 2
            ctx.check(ts[0] <= start <= ts[0] + u, lambda: 'first resampled point at %s with the series starting at %s' % (got[0].t, ts[0]), 'start')
            ctx.count('unaligned_zones')
        elif ts[-1] - ts[0] < 2 * u + 3600:
            return
    bounds = transform.bounds_until(start, unit, 'UTC', ts[-1])
    want = list(zip(bounds, bounds[1:]))
    # With a first point exactly at the beginning of an interval, the latter might be left out
    if len(got) == len(want) - 1 and want and want[0][0] == ts[0] and (not len(got) or got[0].t == want[1][0] + u / 2):
        want = want[1:]
        ctx.count('aligned_start_left_out')
    ctx.check(len(got) == len(want), lambda: '%s points instead of %s resampling at %s from %s to %s' % (len(got), len(want), unit, ts[0], ts[-1]), 'length')
    if not want:
        ctx.count('empty_results')
    valid = transform.regions(ts, validity)
    for (a, b), item in zip(want, got):
        ctx.count('points')
        ctx.check(type(item) is DataTimePoint and item.t == a + u / 2, lambda: 'point at %s instead of %s' % (item.t, a + u / 2), 'times')
        ctx.check(str(item.tz) == zone, 'wrong time zone', 'tz')
        ctx.check(obs.labels_of(item) == sorted(work.labels), 'wrong labels', 'labels')
        interval = transform.Interval(work.points, valid, a, b, uniform)
        for label in work.labels:
            x = interval.average(label)
            ctx.check(obs.close(obs.value(item, label), x, rel=1e-7, abs_=1e-7 + 1e-13 * work.scale()), lambda: 'value %r instead of %r at %s (%s, unit %s, validity %s)' % (obs.value(item, label), x, item.t, label, unit, validity), 'values')
        x = kwargs['force_data_loss'] if 'force_data_loss' in kwargs else interval.loss()
        if work.losses:
            ctx.count('lossy')
        ctx.check(item.data_loss is not None and obs.close(item.data_loss, x, abs_=1e-6), lambda: 'data loss %r instead of %r at %s' % (item.data_loss, x, item.t), 'loss')
        for name in work.index_names:
            if not any(name in p[3] for p in work.points):
                continue
            x = interval.index(name)
            ctx.count('indexes')
            ctx.check(name in item.data_indexes and obs.close(item.data_indexes[name], x, abs_=1e-6), lambda: 'index %r instead of %r at %s' % (item.data_indexes.get(name), x, item.t), 'indexes')
    ctx.sig(unit, zone, validity, uniform, repr(before)[:2500])
    ctx.sample({'unit': unit, 'zone': zone, 'validity': validity, 'points': len(ts), 'resampled': len(got)})


def refused(ctx, rng, index):
    unit = rng.choice(['1D', '2D', '1W', '1M', '1Y', '3M', '1D_3h', '1M_1h', '1Y_1D', '1W_1h'])
    series = gen.point_series(rng, n=rng.choice([3, 30]), spacing=rng.choice([60, 3600, 86400]))
    before = obs.snap(series)
    given = TimeUnit(unit) if rng.random() < 0.5 else unit
    error = ctx.raises(lambda: series.resample(given) if rng.random() < 0.5 else Resampler(given).process(series))
    ctx.count('refused')
    ctx.check(error is not None and obs.diff(before, obs.snap(series)) is None, lambda: 'resampling on the calendar unit %s gave %r' % (unit, error), 'calendar-unit')
    if unit in ('1D', '1M', '1Y'):
        error = ctx.raises(lambda: Resampler(given))
        ctx.check(isinstance(error, ValueError), lambda: 'a resampler for the calendar unit %s gave %r' % (unit, error), 'calendar-unit')
    ctx.sig('refused', unit, repr(before)[:200])


CASES = {'resample': {'run': resample, 'quick': 2000, 'thorough': 30000},
         'refused': {'run': refused, 'quick': 300, 'thorough': 2000}}
