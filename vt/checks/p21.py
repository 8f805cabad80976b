import datetime as _dt

import pytz

from timeseria.datastructures import DataTimeSlot, Point, Slot, TimePoint, TimeSlot
from timeseria.units import TimeUnit, Unit

from .. import gen, obs

RULE = ('time units of any kind added to, subtracted from and applied on datetimes, points and slots over several time zones, around DST changes, leap days and year ends, against independent calendar arithmetic; '
        'their string representations, sums, equalities and roundings; and arithmetic of generic units; distinct by unit, time and zone')
FLOORS = {'shifts': 2000, 'slots': 1500, 'calendar': 500, 'dst': 100, 'roundings': 1000, 'strings': 500, 'units': 300}
UNITS = ['1s', '30s', '90s', '1m', '15m', '1h', '6h', '24h', '1D', '1D', '2D', '7D', '1W', '1M', '3M', '1Y', '2Y', '0.5s', '0.25s']


def approx(unit):
    return float(unit[:-1]) * {'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 7 * 86400, 'M': 30 * 86400, 'Y': 365 * 86400}[unit[-1]]


def expected(dt, unit, zone):
    """None if it would end up on a time not existing, ambiguous or on a day not existing."""
    if unit[-1] in 'smh':
        seconds = float(unit[:-1]) * {'s': 1, 'm': 60, 'h': 3600}[unit[-1]]
        return (dt.astimezone(pytz.UTC) + _dt.timedelta(seconds=seconds)).astimezone(pytz.timezone(zone))
    try:
        return gen.next_local(dt, unit)
    except (ValueError, pytz.InvalidTimeError):
        return None


def some_dt(rng, zone):
    tz = pytz.timezone(zone)
    kind = rng.random()
    if kind < 0.4 and getattr(tz, '_utc_transition_times', None):
        transition = rng.choice([x for x in tz._utc_transition_times if 1990 < x.year < 2030] or [_dt.datetime(2000, 3, 1)])
        t = gen.epoch(transition.replace(tzinfo=pytz.UTC)) - rng.choice([0, 86400, 7 * 86400, 30 * 86400, 3600, 7200, 43200]) + rng.choice([0, 0, -1, 1, 1800, -1800])
    elif kind < 0.7:
        year = rng.choice([1996, 1999, 2000, 2015, 2016, 2020])
        naive = _dt.datetime(year, rng.choice([1, 2, 12]), rng.choice([1, 28, 28]), rng.choice([0, 12, 23]), rng.choice([0, 30, 59]))
        t = gen.epoch(tz.localize(naive) if zone != 'UTC' else naive.replace(tzinfo=pytz.UTC))
    else:
        t = rng.randint(600000000, 1700000000)
    return gen.from_epoch(t, zone)


def shift(ctx, rng, index):
    zone = rng.choice(gen.ZONES + ['Pacific/Auckland', 'America/Sao_Paulo'])
    unit = rng.choice(UNITS)
    if zone == 'Australia/Lord_Howe' and unit[-1] in 'DWMY':
        # Half an hour DST changes are not properly checked for ambiguity by the underlying library
        zone = 'America/New_York'
    dt = some_dt(rng, zone)
    u = TimeUnit(unit)
    want = expected(dt, unit, zone)
    ctx.count('shifts')
    if want is None:
        ctx.count('impossible')
        return
    if unit[-1] in 'DWMY':
        ctx.count('calendar')
    if want.utcoffset() != dt.utcoffset():
        ctx.count('dst')
    what = '%s plus %s' % (dt, unit)
    for name, got in (('datetime', dt + u), ('shift', u.shift(dt)), ('shift', u.shift(dt, 1))):
        ctx.check(got == want and got.utcoffset() == want.utcoffset(), lambda: '%s is %s instead of %s' % (what, got, want), name)
    p = TimePoint(dt=dt)
    got = p + u
    ctx.check(type(got) is TimePoint and got.t == gen.epoch(want) and str(got.tz) == str(p.tz), lambda: '%s is %s instead of %s' % (what, got, want), 'point')
    ctx.check(p.t == gen.epoch(dt), 'the point was altered', 'point')
    duration = gen.epoch(want) - gen.epoch(dt)
    ctx.check(obs.close(u.as_seconds(dt), duration, abs_=1e-6), lambda: '%s last %s seconds instead of %s at %s' % (unit, u.as_seconds(dt), duration, dt), 'duration')
    if unit[-1] in 'smh':
        back = dt - u
        ctx.check(gen.epoch(back) == gen.epoch(dt) - duration and (p - u).t == p.t - duration, lambda: '%s minus %s is %s' % (dt, unit, back), 'minus')
        times = rng.randint(2, 50)
        ctx.check(gen.epoch(u.shift(dt, times)) == gen.epoch(dt) + times * duration, 'wrong repeated shift', 'times')
        ctx.check(obs.close(u.as_seconds(), duration), 'wrong duration of a fixed unit', 'duration')
        ctx.check(TimeUnit(duration) == u and TimeUnit(value=duration) == u and u == TimeUnit(seconds=duration), 'units created in different ways are not equal', 'equality')
    # Slots
    data = {'a': 1}
    for k, make in enumerate((lambda: DataTimeSlot(start=p, unit=u, data=data), lambda: DataTimeSlot(dt=dt, unit=u, data=data), lambda: TimeSlot(start=p, unit=u), lambda: DataTimeSlot(t=p.t, tz=zone, unit=u, data=data))):
        slot = make()
        ctx.count('slots')
        ctx.check(slot.start.t == p.t and slot.end.t == gen.epoch(want) and str(slot.tz) == zone and str(slot.end.tz) == zone,
                  lambda: 'slot of %s from %s is %s' % (unit, dt, slot), 'slot')
        ctx.check(slot.unit == u and obs.close(slot.length, duration, abs_=1e-6) and slot.t == p.t and slot.dt == dt, lambda: 'wrong unit or length of %s' % slot, 'slot-length')
        following = TimeSlot(start=slot.end, unit=u) if expected(want, unit, zone) else None
        if following is not None and k == 2:
            ctx.check(following.__succedes__(slot) and not slot.__succedes__(following) and not slot.__succedes__(slot), 'wrong succession', 'succession')
    if expected(want, unit, zone) is not None and unit[-1] in 'DWMY':
        ctx.check(dt + u + u == expected(want, unit, zone), 'wrong double shift', 'datetime')
    ctx.sig(unit, str(dt), zone)
    ctx.sample({'time': str(dt), 'unit': unit, 'shifted': str(want)})


def rounding(ctx, rng, index):
    zone = rng.choice(gen.ZONES)
    unit = rng.choice(['1s', '10s', '30s', '1m', '15m', '30m', '1h', '2h', '6h', '1D', '1M', '1Y', '1W'])
    if unit[-1] == 'h':
        zone = 'UTC'
    u = TimeUnit(unit)
    dt = some_dt(rng, zone)
    if unit[-1] in 'DWMY':
        naive = _dt.datetime(dt.year, 1 if unit == '1Y' else dt.month, 1 if unit in ('1Y', '1M') else dt.day)
        if unit == '1W':
            naive -= _dt.timedelta(days=naive.weekday())
        try:
            low = pytz.timezone(zone).localize(naive, is_dst=None) if zone != 'UTC' else naive.replace(tzinfo=pytz.UTC)
            high = gen.next_local(low, unit)
        except pytz.InvalidTimeError:
            return
    else:
        seconds = int(approx(unit))
        k = gen.epoch(dt) // seconds * seconds
        low, high = gen.from_epoch(k, zone), gen.from_epoch(k + seconds, zone)
        if low.utcoffset() != high.utcoffset():
            # Across a change of offset
            return
    ctx.count('roundings')
    floor, ceil, half = u.floor(dt), u.ceil(dt), u.round(dt)
    ctx.check(floor == low, lambda: '%s floored by %s is %s instead of %s' % (dt, unit, floor, low), 'floor')
    ctx.check(ceil == high, lambda: '%s ceiled by %s is %s instead of %s' % (dt, unit, ceil, high), 'ceil')
    a, b = gen.epoch(dt) - gen.epoch(low), gen.epoch(high) - gen.epoch(dt)
    if a != b:
        ctx.check(half == (low if a < b else high), lambda: '%s rounded by %s is %s (between %s and %s)' % (dt, unit, half, low, high), 'round')
    ctx.check(u.round(dt, how='floor') == low and u.round(dt, how='ceil') == high, 'wrong rounding', 'round')
    ctx.check(u.floor(low) == low and u.round(low) == low, 'rounding is not idempotent', 'idempotent')
    ctx.sig('rounding', unit, str(dt), zone)


def strings(ctx, rng, index):
    parts = {'years': 'Y', 'months': 'M', 'weeks': 'W', 'days': 'D', 'hours': 'h', 'minutes': 'm', 'seconds': 's'}
    chosen = rng.sample(sorted(parts), rng.randint(1, 3))
    values = {name: rng.randint(1, 40) for name in chosen}
    if 'seconds' in values and rng.random() < 0.3:
        values['seconds'] = rng.choice([0.5, 1.25, 10.125])
    u = TimeUnit(**values)
    text = '_'.join('%s%s' % (values[name], symbol) for name, symbol in parts.items() if name in values)
    ctx.count('strings')
    ctx.check(TimeUnit(text) == u and TimeUnit(str(u)) == u and u == text, lambda: '%s represented as %s' % (values, u), 'string')
    for name in parts:
        ctx.check(getattr(TimeUnit(str(u)), name) == values.get(name, 0), lambda: 'component %s lost in %s' % (name, u), 'string')
    other_name = rng.choice(sorted(parts))
    other = TimeUnit(**{other_name: rng.randint(1, 10)})
    total = u + other
    for name in parts:
        ctx.check(getattr(total, name) == values.get(name, 0) + getattr(other, name), lambda: '%s plus %s is %s' % (u, other, total), 'sum')
    changed = dict(values)
    changed[chosen[0]] += 1
    ctx.check(TimeUnit(**changed) != u and not TimeUnit(**changed) == u, 'different units are equal', 'equality')
    ctx.check(TimeUnit('1D') != TimeUnit('24h') and TimeUnit('60m') == TimeUnit('1h') and TimeUnit(3600) == TimeUnit('1h'), 'wrong equality', 'equality')
    number = rng.choice([0.000001, 0.00005, 0.1, 0.1 + 0.2, 1, 1.5, 59, 60, 3600, 86400, 123456.789, 7.000001])
    ctx.check(obs.close(TimeUnit(number).as_seconds(), number, abs_=1e-7) and obs.close(TimeUnit(value=number).as_seconds(), number, abs_=1e-7), lambda: '%r as a unit is %s' % (number, TimeUnit(number)), 'number')
    for wrong in ('x', '5', '1x', '1h1m'):
        e = ctx.raises(lambda: TimeUnit(wrong))
        ctx.check(e is not None, lambda: 'time unit created from %r' % wrong, 'garbage')
    ctx.sig('strings', sorted(values.items()), other_name)


def generic(ctx, rng, index):
    a, b = rng.randint(1, 50), rng.randint(1, 50)
    ctx.count('units')
    u = Unit(a)
    ctx.check(u + b == a + b and b + u == a + b and u - b == a - b and b - u == b - a and u * b == a * b and b * u == a * b and u / b == a / b and obs.close(b / u, b / a), 'wrong arithmetic', 'unit')
    ctx.check(u + Unit(b) == a + b and u - Unit(b) == a - b and u == a and u == Unit(a) and (u == Unit(b)) == (a == b) and u != b if a != b else True, 'wrong arithmetic', 'unit')
    ctx.check((u + Point(b)).coordinates[0] == a + b and (Point(b) + u).coordinates[0] == a + b, 'wrong arithmetic on points', 'unit-points')
    slot = Slot(start=Point(b), end=Point(a + b))
    ctx.check(slot.length == a and slot.unit == a, lambda: 'slot from %s to %s has length %s and unit %s' % (b, a + b, slot.length, slot.unit), 'slot')
    slot = Slot(start=Point(b), unit=Unit(a))
    ctx.check(slot.end.coordinates[0] == a + b and slot.length == a, 'wrong slot from the unit', 'slot')
    ctx.check(Slot(start=Point(a + b), unit=Unit(a)).__succedes__(slot) and not slot.__succedes__(slot), 'wrong succession', 'succession')
    for wrong in (lambda: Slot(start=Point(b), end=Point(b)), lambda: Slot(start=Point(b))):
        ctx.check(ctx.raises(wrong) is not None, 'wrong slot created', 'slot')
    ctx.sig('generic', a, b)


CASES = {'shift': {'run': shift, 'quick': 3000, 'thorough': 40000},
         'rounding': {'run': rounding, 'quick': 2000, 'thorough': 30000},
         'strings': {'run': strings, 'quick': 1000, 'thorough': 10000},
         'generic': {'run': generic, 'quick': 400, 'thorough': 4000}}
