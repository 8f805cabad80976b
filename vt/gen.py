"""Workload generators: items and series built through the public constructors only."""
import datetime as _dt
from datetime import timedelta

import pytz

from timeseria.datastructures import DataTimePoint, DataTimeSlot, TimePoint, TimeSeries
from timeseria.units import TimeUnit

ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Europe/London', 'Europe/Dublin', 'Pacific/Chatham', 'Antarctica/Troll']

# Epochs in the surroundings of which something special happens
SPECIAL_EPOCHS = [0, -86400, 1445734800,   # 2015-10-25 01:00 UTC, DST off in Europe
                  1427590800,              # 2015-03-29 01:00 UTC, DST on in Europe
                  1456704000,              # 2016-02-29
                  1451606400,              # 2016-01-01
                  -315619200,              # 1960
                  4102444800]              # 2100

SPACINGS = [0.0625, 0.25, 0.5, 1, 1.5, 7, 13.125, 60, 60, 61, 90.5, 600, 900, 3600, 3600, 86400]

LABELS = ['value', 'a', 'b', 'temperature', 'rel humidity', 'C', '1', 'x_avg', 'z', 'Timestamp', 'epoch', 'y', 't', 'data']


def labels(rng, max_labels=3):
    return rng.sample(LABELS, rng.randint(1, max_labels))


def number(rng):
    kind = rng.random()
    if kind < 0.35:
        return rng.randint(-50, 50)
    if kind < 0.45:
        return 0
    if kind < 0.5:
        return rng.choice([1e9, -1e9, 1e-9, 123456.789, -0.0, 1e6 + 0.25])
    return round(rng.uniform(-100, 100), rng.randint(0, 6))


def data(rng, the_labels, as_list=False):
    if as_list:
        return [number(rng) for _ in the_labels]
    return {label: number(rng) for label in the_labels}


def t0(rng):
    kind = rng.random()
    if kind < 0.3:
        return rng.choice(SPECIAL_EPOCHS)
    if kind < 0.5:
        return rng.choice(SPECIAL_EPOCHS) + rng.randint(-48, 48) * 3600
    if kind < 0.8:
        return rng.randint(0, 1500000000)
    if kind < 0.9:
        return rng.randint(-10**8, 10**8) + 0.25 * rng.randint(0, 3)
    return 0


def times(rng, n, spacing=None, irregular=0.0, start=None):
    """Strictly increasing timestamps, exactly representable."""
    spacing = spacing if spacing is not None else rng.choice(SPACINGS)
    t = start if start is not None else t0(rng)
    out = []
    for _ in range(n):
        out.append(t)
        step = spacing
        if irregular and rng.random() < irregular:
            step = spacing * rng.choice([2, 3, 0.5, 1.5, 10, 0.25]) if rng.random() < 0.85 else spacing + rng.choice([1 / 64, 1])
        t = t + step
    return out


def transitions(zone, first=1990, last=2030):
    """The epochs at which the UTC offset of a zone changes."""
    return [epoch(x.replace(tzinfo=pytz.UTC)) for x in getattr(pytz.timezone(zone), '_utc_transition_times', None) or [] if first < x.year < last]


def point(t, d, tz=None, **kwargs):
    return DataTimePoint(t=t, data=d, tz=tz, **kwargs) if tz else DataTimePoint(t=t, data=d, **kwargs)


def indexes(rng, names, none_rate=0.1):
    # Also not there at all
    return {name: (None if rng.random() < none_rate else round(rng.random(), 3)) for name in names if rng.random() < 0.93}


def point_series(rng, n=None, spacing=None, irregular=None, the_labels=None, as_list=None, tz=None, index_names=(), values=None, start=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 13, 30, 60])
    irregular = irregular if irregular is not None else rng.choice([0, 0, 0.1, 0.5])
    the_labels = the_labels if the_labels is not None else labels(rng)
    as_list = as_list if as_list is not None else rng.random() < 0.15
    tz = tz if tz is not None else rng.choice([None, None] + ZONES)
    series = TimeSeries()
    for i, t in enumerate(times(rng, n, spacing, irregular, start)):
        d = values(i, t) if values else data(rng, the_labels, as_list)
        kwargs = {'data_indexes': indexes(rng, index_names)} if index_names else {}
        series.append(point(t, d, tz, **kwargs))
    return series


SLOT_UNITS = ['1s', '30s', '1m', '15m', '1h', '6h', '1D', '1D', '1M', '1Y', '1W']


def local_midnight(zone, rng, unit):
    """A start for slots in the given unit, existing and not ambiguous on the zone."""
    tz = pytz.timezone(zone)
    year = rng.choice(([1970] if zone == 'UTC' else []) + [2015, 2015, 2016, 2019, 2023])
    month = rng.randint(1, 12)
    if unit.endswith('Y'):
        naive = _dt.datetime(year, 1, 1)
    elif unit.endswith('M'):
        naive = _dt.datetime(year, month, 1)
    elif unit.endswith('D') or unit.endswith('W'):
        naive = _dt.datetime(year, month, rng.choice([1, 10, 24, 28]))
        if rng.random() < 0.4:
            naive = rng.choice([_dt.datetime(2015, 3, 27), _dt.datetime(2015, 10, 23), _dt.datetime(2016, 2, 27), _dt.datetime(2019, 3, 9), _dt.datetime(2019, 11, 1)])
            changes = transitions(zone, 2000, 2025)
            if changes and rng.random() < 0.5:
                # Shortly before a day on which the local time changes
                day = from_epoch(rng.choice(changes) - 1, zone) - timedelta(days=rng.choice([0, 0, 1, 2]))
                naive = _dt.datetime(day.year, day.month, day.day)
    else:
        naive = _dt.datetime(year, month, rng.randint(1, 28), rng.randint(5, 22))
        if rng.random() < 0.4:
            naive = rng.choice([_dt.datetime(2015, 3, 28, 20), _dt.datetime(2015, 10, 24, 20), _dt.datetime(2019, 3, 9, 20), _dt.datetime(2019, 11, 2, 20)])
    return tz.localize(naive)


def next_local(dt, unit):
    """Independent calendar arithmetic: the start of the next slot of the given unit."""
    value, kind = int(unit[:-1]), unit[-1]
    tz = pytz.timezone(str(dt.tzinfo)) if str(dt.tzinfo) != 'UTC' else pytz.UTC
    if kind in 'smh':
        seconds = value * {'s': 1, 'm': 60, 'h': 3600}[kind]
        return (dt.astimezone(pytz.UTC) + timedelta(seconds=seconds)).astimezone(tz)
    naive = dt.replace(tzinfo=None)
    if kind == 'D':
        naive = naive + timedelta(days=value)
    elif kind == 'W':
        naive = naive + timedelta(days=7 * value)
    elif kind == 'M':
        month = naive.month - 1 + value
        naive = naive.replace(year=naive.year + month // 12, month=month % 12 + 1)
    elif kind == 'Y':
        naive = naive.replace(year=naive.year + value)
    if tz is pytz.UTC:
        return naive.replace(tzinfo=pytz.UTC)
    return tz.localize(naive, is_dst=None)


EPOCH = _dt.datetime(1970, 1, 1, tzinfo=pytz.UTC)


def epoch(dt):
    delta = dt.astimezone(pytz.UTC) - EPOCH
    seconds = delta.days * 86400 + delta.seconds
    return seconds + delta.microseconds / 1e6 if delta.microseconds else seconds


def from_epoch(t, zone='UTC'):
    whole = int(t // 1)
    dt = EPOCH + timedelta(seconds=whole, microseconds=round((t - whole) * 1e6))
    return dt.astimezone(pytz.timezone(zone))


def slot_bounds(rng, n, unit, zone):
    """n+1 boundaries of contiguous slots."""
    dt = local_midnight(zone, rng, unit)
    bounds = [epoch(dt)]
    for _ in range(n):
        dt = next_local(dt, unit)
        bounds.append(epoch(dt))
    return bounds


def slot(start_t, end_t, unit, zone, d, how=0, **kwargs):
    """A slot, built in one of the equivalent ways."""
    if how == 0:
        return DataTimeSlot(start=TimePoint(t=start_t, tz=zone), end=TimePoint(t=end_t, tz=zone), unit=TimeUnit(unit), data=d, **kwargs)
    if how == 1:
        return DataTimeSlot(start=TimePoint(t=start_t, tz=zone), unit=TimeUnit(unit), data=d, **kwargs)
    if how == 2:
        return DataTimeSlot(dt=from_epoch(start_t, zone), unit=TimeUnit(unit), data=d, **kwargs)
    return DataTimeSlot(t=start_t, tz=zone, unit=TimeUnit(unit), data=d, **kwargs)


def slot_series(rng, n=None, unit=None, zone=None, the_labels=None, as_list=None, index_names=(), values=None, how=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 13, 30])
    unit = unit or rng.choice(SLOT_UNITS)
    zone = zone or rng.choice(ZONES)
    the_labels = the_labels if the_labels is not None else labels(rng)
    as_list = as_list if as_list is not None else rng.random() < 0.15
    bounds = slot_bounds(rng, n, unit, zone)
    series = TimeSeries()
    for i in range(n):
        d = values(i, bounds[i]) if values else data(rng, the_labels, as_list)
        kwargs = {'data_indexes': indexes(rng, index_names)} if index_names else {}
        series.append(slot(bounds[i], bounds[i + 1], unit, zone, d, how if how is not None else rng.choice([0, 0, 1, 2, 3]), **kwargs))
    return series


def any_series(rng, **kwargs):
    if rng.random() < 0.6:
        return point_series(rng, **kwargs)
    kwargs.pop('spacing', None)
    kwargs.pop('irregular', None)
    return slot_series(rng, **kwargs)
