import datetime as _dt

import pytz

from timeseria import operations
from timeseria.datastructures import DataTimeSlot
from timeseria.interpolators import LinearInterpolator, UniformInterpolator
from timeseria.transformations import Aggregator
from timeseria.units import TimeUnit

from .. import gen, obs, transform

RULE = ('aggregations of point series with gaps, losses and indexes, on any start and time zone, in physical and calendar slots (hours to years, across DST changes), with built-in, weighted and user-defined '
        'operations, explicit starts and ends, filling and forced losses, with every slot judged against calendar arithmetic and a reference model; distinct by series, unit and arguments')
FLOORS = {'aggregations': 1000, 'slots': 5000, 'calendar': 300, 'dst': 30, 'with_gaps': 200, 'empty_slots': 50, 'explicit_start': 100, 'explicit_end': 100, 'user_operations': 100, 'filled': 20, 'not_aligned': 50}
UNITS = ['1m', '10m', '15m', '30m', '1h', '2h', '6h', '1D', '1D', '1D', '1W', '1M', '1Y']


def spread(series):
    """A user-defined operation."""
    out = {}
    for label in series.data_labels():
        column = [obs.value(x, label) for x in series]
        out[label] = max(column) - min(column)
    return out


def howmany(series):
    """A user-defined operation."""
    return {label: len([x for x in series]) for label in series.data_labels()}


REFERENCE = {'min': min, 'max': max, 'sum': sum, 'spread': lambda x: max(x) - min(x), 'howmany': len}


def approx_seconds(unit):
    kinds = {'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 604800, 'M': 86400 * 30, 'Y': 86400 * 365}
    return int(unit[:-1]) * kinds[unit[-1]]


def near_dst(rng, zone):
    tz = pytz.timezone(zone)
    transitions = getattr(tz, '_utc_transition_times', None)
    if not transitions or len(transitions) < 3:
        return None
    recent = [x for x in transitions if 1988 < x.year < 2030]
    if not recent:
        return None
    return gen.epoch(rng.choice(recent).replace(tzinfo=pytz.UTC))


def aggregate(ctx, rng, index):
    unit = rng.choice(UNITS)
    zone = rng.choice(gen.ZONES)
    calendar = unit[-1] in 'DWMY'
    u = approx_seconds(unit)
    if not calendar and not transform.grid_safe(zone, unit):
        zone = 'UTC'
    spacing = u / rng.choice([1, 2, 3, 4, 6, 12, 24]) if rng.random() < 0.85 else u * rng.choice([2, 3, 1.5])
    if calendar:
        spacing = max(round(spacing / 3600), 1) * 3600
    spacing = max(round(spacing * 16) / 16, 1 / 16)
    n = rng.choice([2, 3, 5, 12, 30, 80])
    start = None
    if rng.random() < 0.35:
        start = near_dst(rng, zone)
        if start is not None:
            start -= int(spacing * rng.randint(0, n))
    if calendar and zone != 'UTC' and start is None:
        # Avoid the DST changes at midnight of the past, where slots cannot be built
        start = rng.randint(600000000, 1600000000)
    work = transform.Workload(rng, spacing, n, zone, start=start, align=rng.choice([None, 60, 3600, 86400]), jitter=not calendar and rng.random() < 0.1)
    if rng.random() < 0.3:
        # Start exactly on a slot
        shift = transform.first_slot(work.points[0][0], unit, zone) - work.points[0][0]
        work.points = [(t + shift, d, loss, indexes) for t, d, loss, indexes in work.points]
    ts = [p[0] for p in work.points]
    mode = work.mode_spacing()
    kwargs = {}
    if mode is None or rng.random() < 0.2:
        kwargs['validity'] = validity = spacing * rng.choice([1, 1, 2, 0.5])
    else:
        validity = mode
    uniform = rng.random() < 0.15
    names = rng.sample(['avg', 'min', 'max', 'sum', 'spread', 'howmany'], rng.randint(1, 4)) if rng.random() < 0.7 else ['avg']
    functions = {'spread': spread, 'howmany': howmany}
    ops = [functions.get(name) or (name if rng.random() < 0.5 else getattr(operations, name)) for name in names]
    if rng.random() < 0.1:
        kwargs['force_data_loss'] = rng.choice([0, 0.5, 1])
    if rng.random() < 0.2:
        kwargs['fill_with'] = rng.choice([0, -1, 3.5])

    first = transform.first_slot(ts[0], unit, zone)
    last = ts[-1]
    if rng.random() < 0.2:
        # Explicit start, also before the first point or way after
        t = rng.choice([transform.first_slot(rng.choice(ts), unit, zone), transform.first_slot(ts[len(ts) // 2], unit, zone)])
        first = t
        kwargs['start'] = rng.choice([t, gen.from_epoch(t, zone), gen.from_epoch(t, rng.choice(gen.ZONES)), float(t)])
        ctx.count('explicit_start')
    if rng.random() < 0.2:
        t = transform.first_slot(rng.choice(ts), unit, zone)
        kwargs['end'] = rng.choice([t, gen.from_epoch(t, zone), gen.from_epoch(t, rng.choice(gen.ZONES)), float(t)])
        last = min(last, t)
        ctx.count('explicit_end')

    series = work.series()
    before = obs.snap(series)
    aggregator = Aggregator(unit if rng.random() < 0.7 else TimeUnit(unit), operations=ops, interpolator_class=UniformInterpolator if uniform else LinearInterpolator)
    if not kwargs and not uniform and rng.random() < 0.5:
        got = series.aggregate(unit, operations=ops) if names != ['avg'] or rng.random() < 0.5 else series.aggregate(unit)
    else:
        got = aggregator.process(series, **kwargs)
    if rng.random() < 0.1:
        # Slots have to be aligned, in the time zone of the series
        t = rng.choice([rng.choice(ts), transform.first_slot(rng.choice(ts), unit, rng.choice(gen.ZONES))]) + rng.choice([0, 0, 1, 3600, 0.5])
        if transform.first_slot(t, unit, zone) != t:
            where = rng.choice(['start', 'end'])
            value = rng.choice([t, gen.from_epoch(t, zone), gen.from_epoch(t, rng.choice(gen.ZONES))])
            ctx.check(ctx.raises(lambda: aggregator.process(series, **dict(kwargs, **{where: value})), ValueError) is not None, lambda: 'slots of %s (%s) with the not aligned %s %s' % (unit, zone, where, value), 'alignment')
            ctx.count('not_aligned')
    ctx.count('aggregations')
    if calendar:
        ctx.count('calendar')
    if work.gaps:
        ctx.count('with_gaps')
    what = 'aggregating at %s (%s, %s) from %s to %s' % (unit, zone, kwargs, gen.from_epoch(ts[0], zone), gen.from_epoch(ts[-1], zone))
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: 'aggregating changed the source: %s' % obs.diff(before, obs.snap(series)), 'pure')
    bounds = transform.bounds_until(first, unit, zone, last)
    want = list(zip(bounds, bounds[1:]))
    ctx.check(len(got) == len(want), lambda: '%s slots (%s) instead of %s (%s) %s' % (len(got), repr(got), len(want), [str(gen.from_epoch(x, zone)) for x in bounds], what), 'length')
    valid = transform.regions(ts, validity)
    for (a, b), item in zip(want, got):
        ctx.count('slots')
        ctx.check(type(item) is DataTimeSlot and item.start.t == a and item.end.t == b, lambda: 'slot %s instead of [%s,%s) %s' % (item, gen.from_epoch(a, zone), gen.from_epoch(b, zone), what), 'bounds')
        ctx.check(str(item.tz) == zone and str(item.start.tz) == zone and str(item.end.tz) == zone and item.unit == TimeUnit(unit), 'wrong time zone or unit', 'tz')
        if calendar and b - a not in (86400, 604800) and unit in ('1D', '1W'):
            ctx.count('dst')
        interval = transform.Interval(work.points, valid, a, b, uniform)
        expected_loss = interval.loss()
        sequence = interval.sequence()
        if not interval.inside:
            ctx.count('empty_slots')
        want_labels = sorted('%s_%s' % (label, name) for label in work.labels for name in names)
        ctx.check(obs.labels_of(item) == want_labels, lambda: 'labels %s instead of %s' % (obs.labels_of(item), want_labels), 'labels')
        for label in work.labels:
            for name in names:
                if name in ('spread', 'howmany'):
                    ctx.count('user_operations')
                value = obs.value(item, '%s_%s' % (label, name))
                if 'fill_with' in kwargs and expected_loss > 1 - 1e-9:
                    ctx.count('filled')
                    # Exactly at the border of the full loss it depends on rounding
                    if value == kwargs['fill_with']:
                        continue
                    ctx.check(sum(w for w, _, i in interval.parts if i is not None and (work.points[i][2] or 0) < 1) > 0 or work.losses, lambda: 'slot with no data not filled, %s' % what, 'fill')
                if name == 'avg':
                    x = interval.average(label)
                else:
                    x = REFERENCE[name]([d[label] for d in sequence])
                ctx.check(obs.close(value, x, rel=1e-7, abs_=1e-7 + 1e-13 * work.scale()), lambda: '%s_%s is %r instead of %r in [%s,%s) %s' % (label, name, value, x, a, b, what), 'values-%s' % name)
        x = kwargs['force_data_loss'] if 'force_data_loss' in kwargs else expected_loss
        ctx.check(item.data_loss is not None and obs.close(item.data_loss, x, abs_=1e-6), lambda: 'data loss %r instead of %r in [%s,%s) %s' % (item.data_loss, x, a, b, what), 'loss')
        for name in work.index_names:
            if not any(name in p[3] for p in work.points):
                continue
            x = interval.index(name)
            ctx.check(name in item.data_indexes and obs.close(item.data_indexes[name], x, abs_=1e-6), lambda: 'index %r instead of %r in [%s,%s)' % (item.data_indexes.get(name), x, a, b), 'indexes')
    ctx.sig(unit, zone, repr(kwargs), names, repr(before)[:2500])
    ctx.sample({'unit': unit, 'zone': zone, 'arguments': repr(kwargs), 'operations': names, 'points': len(ts), 'slots': len(got)})


CASES = {'aggregate': {'run': aggregate, 'quick': 2000, 'thorough': 30000}}
