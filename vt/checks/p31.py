import datetime

import pytz

from timeseria.datastructures import DataPoint, DataSlot, DataTimePoint, DataTimeSlot, Point, Slot, TimePoint, TimeSlot
from timeseria.units import TimeUnit, Unit

from .. import gen, obs

RULE = ('points and slots of any kind (in time or not, with data or not) built in all the equivalent ways, over time zones, DST changes and sub-second timestamps, compared with an independent calendar and with each other; '
        'their equalities, order, labels, losses, indexes and time zone changes; and wrong ones, to be refused; distinct by type and content')
FLOORS = {'time_points': 2000, 'time_slots': 1500, 'generic': 800, 'comparisons': 4000, 'items_with_data': 1500, 'refused': 1000, 'dst': 150}


def some_t(rng, zone):
    kind = rng.random()
    if kind < 0.3 and zone != 'UTC':
        return rng.choice(gen.transitions(zone) or [0]) + rng.choice([-3600, -1800, -1, 0, 1, 1800, 3600, 7200])
    if kind < 0.5:
        return rng.randint(-10 ** 9, 4 * 10 ** 9) + rng.randint(0, 999999) / 1e6
    if kind < 0.6:
        return float(rng.randint(0, 10 ** 9))
    return gen.t0(rng)


def time_points(ctx, rng, index):
    zone, other = rng.choice(gen.ZONES), rng.choice(gen.ZONES)
    t = some_t(rng, zone)
    dt = gen.from_epoch(t, zone)
    if dt.dst():
        ctx.count('dst')
    tz = pytz.timezone(zone)
    with_data = rng.random() < 0.5
    cls, extra = (DataTimePoint, {'data': {'a': 1}}) if with_data else (TimePoint, {})
    built = [cls(t=t, tz=zone, **extra), cls(t=t, tz=tz, **extra), cls(dt=dt, **extra), cls(dt=gen.from_epoch(t, other), tz=zone, **extra), cls(t, tz=zone, **extra)]
    if not with_data:
        built.append(TimePoint(built[0]))
    moved = cls(t=t, tz=other, **extra)
    moved.change_tz(zone)
    built.append(moved)
    ctx.count('time_points', len(built))
    for i, p in enumerate(built):
        # Datetimes have microseconds
        ctx.check(abs(p.t - t) < 1e-6 and p.coordinates == (p.t,) and p[0] == p.t, lambda: '%s: built in way %s from %s the epoch is %s' % (cls.__name__, i, t, p.t), 'point-t')
        ctx.check(p.dt == dt and p.dt.utcoffset() == dt.utcoffset() and p.dt.replace(tzinfo=None) == dt.replace(tzinfo=None), lambda: '%s: built in way %s from %s on %s the datetime is %s' % (cls.__name__, i, t, zone, p.dt), 'point-dt')
        ctx.check(str(p.tz) == zone, lambda: '%s: built in way %s the time zone is %s instead of %s' % (cls.__name__, i, p.tz, zone), 'point-tz')
        # and back
        q = cls(dt=p.dt, **extra)
        ctx.check(abs(q.t - t) < 1e-6 and q.dt == p.dt, 'not the same point if built again from its datetime', 'point-back')
        text = (repr(p), str(p))
        ctx.check(all(str(p.dt) in x and str(p.t) in x for x in text), lambda: 'wrong representation %s' % (text,), 'point-repr')
    plain = cls(t=t, **extra)
    ctx.check(plain.dt == dt and plain.dt.utcoffset() == datetime.timedelta(0) and str(plain.tz) == 'UTC', lambda: 'without a time zone it is %s' % plain.dt, 'point-utc')
    later = cls(t=t + rng.choice([1e-3, 1, 86400]), tz=other, **extra)
    ctx.check(later > plain and not plain > later and plain < later and not later < plain and not plain > cls(t=t, **extra), 'wrong order', 'point-order')
    ctx.check(built[0] == plain and not built[0] != plain and plain != later and not plain == later, 'wrong equality', 'point-equality')
    for target in gen.ZONES:
        moved.change_tz(target if rng.random() < 0.5 else pytz.timezone(target))
        want = gen.from_epoch(t, target)
        ctx.check(moved.t == t and moved.dt == want and moved.dt.utcoffset() == want.utcoffset() and moved == plain, lambda: 'moved to %s it is at %s' % (target, moved.dt), 'point-change-tz')
    ctx.sig('time_points', t, zone, other, with_data)


UNITS = ['1s', '30s', '15m', '1h', '6h', '1D', '1W', '1M', '1Y']


def time_slots(ctx, rng, index):
    zone = rng.choice(gen.ZONES)
    unit = rng.choice(UNITS)
    first, last = gen.slot_bounds(rng, 1, unit, zone)
    start, end = gen.from_epoch(first, zone), gen.from_epoch(last, zone)
    if start.utcoffset() != end.utcoffset():
        ctx.count('dst')
    with_data = rng.random() < 0.6
    cls, extra = (DataTimeSlot, {'data': [1, 2]}) if with_data else (TimeSlot, {})
    u = TimeUnit(unit)
    built = [cls(start=TimePoint(t=first, tz=zone), end=TimePoint(t=last, tz=zone), unit=u, **extra), cls(start=TimePoint(t=first, tz=zone), unit=u, **extra), cls(dt=start, unit=u, **extra), cls(t=first, tz=zone, unit=u, **extra),
             cls(start=TimePoint(dt=start), end=TimePoint(dt=end), unit=u, **extra)]
    no_unit = cls(start=TimePoint(t=first, tz=zone), end=TimePoint(t=last, tz=zone), **extra)
    ctx.count('time_slots', len(built))
    for i, s in enumerate(built + [no_unit]):
        ctx.check(s.start.t == first and s.end.t == last and s.t == first, lambda: '%s of %s from %s: built in way %s it goes from %s to %s instead of %s' % (cls.__name__, unit, start, i, s.start.dt, s.end.dt, end), 'slot-bounds')
        ctx.check(s.dt == start and s.dt.utcoffset() == start.utcoffset() and s.end.dt.utcoffset() == end.utcoffset(), lambda: 'built in way %s it goes from %s to %s' % (i, s.start.dt, s.end.dt), 'slot-dt')
        ctx.check(str(s.tz) == zone and str(s.start.tz) == zone and str(s.end.tz) == zone, lambda: 'built in way %s the time zones are %s, %s and %s instead of %s' % (i, s.tz, s.start.tz, s.end.tz, zone), 'slot-tz')
        ctx.check(obs.close(s.length, last - first), lambda: 'the length of %s is %s' % (s, s.length), 'slot-length')
        ctx.check(s == built[0] and not s != built[0], 'not equal if built in another way', 'slot-equality')
    for s in built:
        ctx.check(s.unit == u and str(s.unit) == str(u), lambda: 'the unit is %s instead of %s' % (s.unit, unit), 'slot-unit')
    ctx.check(no_unit.unit == TimeUnit('%ss' % (last - first)), lambda: 'the unit is %s for %s seconds' % (no_unit.unit, last - first), 'slot-unit')
    # Any length, also of fractions of seconds
    decimals = round(rng.uniform(0, 10), rng.choice([1, 2, 3, 4])) + rng.choice([0, 1, 60, 3600]) or 1
    decimal = cls(start=TimePoint(t=first % 1000, tz=zone), end=TimePoint(t=first % 1000 + decimals, tz=zone), **extra)
    ctx.check(obs.close(decimal.length, decimals, abs_=1e-6), lambda: 'the length of %s is %s' % (decimal, decimal.length), 'slot-length')
    ctx.check(isinstance(decimal.unit, TimeUnit) and obs.close(float(decimal.unit.as_seconds()), decimals, rel=0, abs_=2e-6), lambda: 'the unit is %s for %s seconds' % (decimal.unit, decimals), 'slot-unit')
    near = cls(start=TimePoint(t=last + rng.choice([-1, 1]) * rng.choice([1, 0.01, 0.0005, 0.00002]), tz=zone), end=TimePoint(t=last + 7 + last - first, tz=zone), **extra)
    ctx.check(not near.__succedes__(built[0]), lambda: '%s is in succession with %s' % (near, built[0]), 'slot-succession')
    # The next one
    after = cls(start=built[0].end, unit=u, **extra)
    ctx.check(after.__succedes__(built[1]) and not built[1].__succedes__(after) and not after.__succedes__(after), 'wrong succession', 'slot-succession')
    ctx.check(after != built[0] and not after == built[0], 'equal to the next one', 'slot-equality')
    # Time zone changes do not alter the time, nor other slots which start or end there
    target = rng.choice(gen.ZONES)
    built[0].change_tz(target)
    ctx.check(built[0].start.t == first and built[0].end.t == last and str(built[0].tz) == target and built[0].dt == start and str(built[0].dt.tzinfo) == str(gen.from_epoch(first, target).tzinfo),
              lambda: 'moved to %s it is %s' % (target, built[0]), 'slot-change-tz')
    ctx.check(str(after.start.tz) == zone and str(after.tz) == zone, 'moving a slot moved the next one as well', 'slot-change-tz')
    ctx.sig('time_slots', first, unit, zone, with_data)


def generic(ctx, rng, index):
    """Also not in time."""
    dimensions = rng.choice([1, 1, 2, 3])
    numbers = lambda: [rng.choice([rng.randint(-10, 10), round(rng.uniform(-10, 10), 3)]) for _ in range(dimensions)]
    a = numbers()
    b = [x + rng.choice([0.5, 1, 7]) for x in a]
    ctx.count('generic')
    for p, c in ((Point(*a), a), (DataPoint(*a, data={'x': 1}), a)):
        ctx.check(p.coordinates == tuple(c) and [p[i] for i in range(dimensions)] == c, lambda: 'coordinates %s instead of %s' % (p.coordinates, c), 'generic-coordinates')
    ctx.check(Point(*a) == Point(*a) and Point(*a) != Point(*b) and Point(*a) != Point(*(a + [1])) and not Point(*a) == Point(*(a + [1])), 'wrong equality', 'generic-equality')
    ctx.check(DataPoint(*a, data=1) == DataPoint(*a, data=1) and DataPoint(*a, data=1) != DataPoint(*a, data=2) and DataPoint(*a, data=1) != DataPoint(*b, data=1), 'wrong equality', 'generic-equality')
    with_data = rng.random() < 0.5
    cls, extra = (DataSlot, {'data': {'x': 1}}) if with_data else (Slot, {})
    s = cls(start=Point(*a), end=Point(*b), **extra)
    lengths = [y - x for x, y in zip(a, b)]
    ctx.check(s.start == Point(*a) and s.end == Point(*b) and obs.close(s.length, sum(lengths) / len(lengths)), lambda: 'wrong slot %s' % s, 'generic-slot')
    value = s.unit.value if hasattr(s.unit, 'value') else s.unit
    ctx.check(all(obs.close(x, y) for x, y in zip(value if isinstance(value, (list, tuple)) else [value], lengths)), lambda: 'unit %s for lengths %s' % (s.unit, lengths), 'generic-unit')
    ctx.check(cls(start=Point(*b), end=Point(*[x + 1 for x in b]), **extra).__succedes__(s) and not s.__succedes__(s), 'wrong succession', 'generic-succession')
    if dimensions == 1:
        ctx.check(Point(*b) > Point(*a) and not Point(*a) > Point(*b) and Point(*a) < Point(*b), 'wrong order', 'generic-order')
        t = cls(start=Point(a[0]), unit=Unit(lengths[0]), **extra)
        ctx.check(obs.close(t.end[0], b[0]) and obs.close(t.length, lengths[0]), lambda: 'wrong slot %s' % t, 'generic-slot')
    else:
        ctx.check(ctx.raises(lambda: Point(*b) > Point(*a)) is not None and ctx.raises(lambda: cls(start=Point(*a), unit=Unit(1), **extra)) is not None, 'not refused in more dimensions', 'generic-dimensions')
        ctx.check(ctx.raises(lambda: Point(a[0]) > Point(*b)) is not None and ctx.raises(lambda: Point(*b) > Point(a[0])) is not None, 'points with different dimensions compared', 'generic-dimensions')
    ctx.check(ctx.raises(lambda: cls(start=Point(*a), end=Point(*(a + [1])), **extra)) is not None, 'not refused with different dimensions', 'generic-dimensions')
    ctx.sig('generic', a, b, with_data)


def comparisons(ctx, rng, index):
    """Equality is by position and by data, if both have it, whatever is compared, in any order."""
    zone = rng.choice(gen.ZONES)
    t = rng.choice([0, 3600, 1445734800])

    def make():
        kind = rng.randrange(9)
        at = t + rng.choice([0, 0, 3600])
        data = rng.choice([{'a': 1}, {'a': 1}, {'a': 2}, {'b': 1}, [1], [2]])
        point = TimePoint(t=at, tz=rng.choice([zone, 'UTC']))
        end = TimePoint(t=at + rng.choice([3600, 3600, 7200]), tz=str(point.tz))
        indexes = rng.choice([{}, {'data_loss': 0.5}])
        if kind == 0:
            return point, ('point', at, None)
        if kind == 1:
            return DataTimePoint(t=at, tz=zone, data=data, **indexes), ('point', at, data)
        if kind == 2:
            return Point(at), ('point', at, None)
        if kind == 3:
            return DataPoint(at, data=data, **indexes), ('point', at, data)
        if kind == 4:
            return TimeSlot(start=point, end=end), ('slot', (at, end.t), None)
        if kind == 5:
            return DataTimeSlot(start=point, end=end, data=data, **indexes), ('slot', (at, end.t), data)
        if kind == 6:
            return Slot(start=Point(at), end=Point(end.t)), ('slot', (at, end.t), None)
        if kind == 7:
            return DataSlot(start=Point(at), end=Point(end.t), data=data, **indexes), ('slot', (at, end.t), data)
        return rng.choice([(None, ('other',)), (5, ('other',)), ('x', ('other',)), ({'a': 1}, ('other',)), ([1], ('other',)), (at, ('other',))])
    x, sx = make()
    y, sy = make()
    if 'other' in (sx[0], sy[0]):
        want = None if sx[0] == sy[0] else False
    else:
        want = sx[0] == sy[0] and sx[1] == sy[1] and (sx[2] is None or sy[2] is None or sx[2] == sy[2])
    if want is None:
        return
    ctx.count('comparisons')
    for a, b in ((x, y), (y, x)):
        ctx.check((a == b) is want and (a != b) is (not want), lambda: '%r == %r gives %s and != gives %s' % (a, b, a == b, a != b), 'equality')
    ctx.check((x in [y]) is want, 'not found in a list', 'equality')
    ctx.sig('comparisons', repr(x), repr(y))


def with_data(ctx, rng, index):
    labels = gen.labels(rng)
    as_list = rng.random() < 0.3
    data = gen.data(rng, labels, as_list)
    names = rng.choice([(), ('data_loss',), ('anomaly',), ('anomaly', 'data_loss')])
    indexes = gen.indexes(rng, names)
    loss = rng.choice([None, None, 0, 0.25, 1])
    kwargs = {'data': data}
    given = rng.choice(['no', 'indexes', 'loss', 'both', 'none'])
    want = {}
    if given in ('indexes', 'both'):
        kwargs['data_indexes'] = indexes
        want.update(indexes)
    elif given == 'none':
        kwargs['data_indexes'] = None
    if given in ('loss', 'both'):
        kwargs['data_loss'] = loss
        want['data_loss'] = loss
    t = gen.t0(rng)

    def make():
        kind = index % 4
        if kind == 0:
            return DataTimePoint(t=t, **kwargs)
        if kind == 1:
            return DataTimeSlot(start=TimePoint(t=t), end=TimePoint(t=t + 60), **kwargs)
        if kind == 2:
            return DataPoint(t, **kwargs)
        return DataSlot(start=Point(t), end=Point(t + 60), **kwargs)
    given_indexes = dict(indexes)
    x, y = make(), make()
    ctx.count('items_with_data')
    ctx.check(x.data == data and type(x.data) is type(data), 'wrong data', 'data')
    ctx.check(x.data_labels() == ([str(i) for i in range(len(labels))] if as_list else sorted(labels)), lambda: 'labels %s for %s' % (x.data_labels(), data), 'data-labels')
    for i, label in enumerate(x.data_labels()):
        ctx.check(not hasattr(x, '_data_by_label') or x._data_by_label(label) == (data[int(label)] if as_list else data[label]), 'wrong data by label', 'data-label')
    ctx.check(not hasattr(x, '_data_by_label') or ctx.raises(lambda: x._data_by_label('not there' if not as_list else str(len(labels)))) is not None, 'data for a label which is not there', 'data-label')
    ctx.check(x.data_indexes == want, lambda: 'indexes %s instead of %s' % (x.data_indexes, want), 'data-indexes')
    ctx.check(x.data_loss == want.get('data_loss'), lambda: 'data loss %s instead of %s' % (x.data_loss, want.get('data_loss')), 'data-loss')
    text = repr(y)
    ctx.check(str(y) == text and str(data) in text and ('data_loss' in text.replace(str(data), '')) == (want.get('data_loss') is not None) and str(want.get('data_loss') if want.get('data_loss') is not None else '') in text.rsplit('data_loss', 1)[-1],
              lambda: 'the item with data %s and indexes %s is shown as %s' % (data, want, text), 'data-repr')
    # The indexes are of that item only, and the data loss is one of them
    x.data_indexes['data_loss'] = 0.75
    x.data_indexes['mine'] = 1
    z = make()
    z.data_indexes = {'other': 0.5}
    ctx.check(z.data_indexes == {'other': 0.5} and z.data_loss is None, lambda: 'setting the indexes of an item to others gave %s' % z.data_indexes, 'data-indexes')
    ctx.check(x.data_loss == 0.75 and y.data_indexes == want and indexes == given_indexes and y.data_loss == want.get('data_loss'), lambda: 'setting an index of an item altered something else: %s, %s' % (y.data_indexes, indexes), 'data-indexes')
    ctx.check(make().data_indexes == want, 'setting an index of an item altered the following ones', 'data-indexes')
    ctx.check(x == y, 'indexes should not count for the equality', 'data-equality')
    ctx.sig('with_data', index % 4, repr(data), given, repr(want), t)


def refuse(ctx, rng, index):
    """Items which make no sense are refused."""
    p, q, utc = TimePoint(t=0), TimePoint(t=3600), TimeUnit('1h')
    wrong = [('a point with no coordinates', lambda: Point()), ('a point on a string', lambda: Point('x')), ('a point on a numeric string', lambda: Point('12')), ('a point on nothing', lambda: Point(None)),
             ('a time point with no time', lambda: TimePoint()), ('a time point in two dimensions', lambda: TimePoint(1, 2)), ('a time point at no time', lambda: TimePoint(t=None)), ('a time point on a string', lambda: TimePoint(t='12')),
             ('a time point on a NaN', lambda: TimePoint(t=float('nan'))), ('a time point on a naive datetime', lambda: TimePoint(dt=datetime.datetime(2019, 1, 1))),
             ('a time point on a naive datetime with time zone', lambda: TimePoint(dt=datetime.datetime(2019, 1, 1), tz='Europe/Rome').dt and 1 / 0),
             ('a time point on a time zone which does not exist', lambda: TimePoint(t=0, tz='Europe/Nowhere')), ('a point without data', lambda: DataTimePoint(t=0)), ('a slot without data', lambda: DataTimeSlot(start=p, end=q)),
             ('indexes which are not a dictionary', lambda: DataTimePoint(t=0, data=1, data_indexes=[1])), ('indexes which are not a dictionary', lambda: DataTimeSlot(start=p, end=q, data=1, data_indexes=[1])),
             ('a slot with no end', lambda: Slot(Point(1))), ('a time slot with no end', lambda: TimeSlot(start=p)), ('a slot with no length', lambda: Slot(Point(1), Point(1))), ('a slot with no length', lambda: TimeSlot(start=p, end=TimePoint(t=0))),
             ('a slot which ends before starting', lambda: TimeSlot(start=q, end=p)), ('a slot which ends before starting', lambda: DataTimeSlot(start=q, end=p, data={'a': 1}, unit=utc)),
             ('a slot which ends before starting', lambda: Slot(Point(2), Point(1))), ('a slot which starts with a number', lambda: TimeSlot(start=0, end=q)), ('a slot which ends with a number', lambda: TimeSlot(start=p, end=5)),
             ('a time slot of points not in time', lambda: TimeSlot(start=Point(0), end=Point(1))), ('a slot with a string as unit', lambda: TimeSlot(start=p, unit='1h')), ('a time slot with a unit not of time', lambda: TimeSlot(start=p, unit=Unit(1))),
             ('a slot on two time zones', lambda: TimeSlot(start=p, end=TimePoint(t=3600, tz='Europe/Rome')))]
    what, function = wrong[index % len(wrong)]
    ctx.count('refused')
    ctx.check(ctx.raises(function) is not None, lambda: '%s (%s) is not refused' % (what, index % len(wrong)), 'refuse')
    ctx.sig('refuse', index % len(wrong))


CASES = {'time_points': {'run': time_points, 'quick': 1500, 'thorough': 30000},
         'time_slots': {'run': time_slots, 'quick': 1500, 'thorough': 30000},
         'generic': {'run': generic, 'quick': 1000, 'thorough': 10000},
         'comparisons': {'run': comparisons, 'quick': 3000, 'thorough': 30000},
         'with_data': {'run': with_data, 'quick': 2000, 'thorough': 20000},
         'refuse': {'run': refuse, 'quick': 1200, 'thorough': 1200}}
