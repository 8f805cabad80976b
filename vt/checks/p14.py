import datetime as dt
import json
import warnings

import pandas as pd

from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot, TimeSeries

from .. import gen, obs

RULE = ('conversions to and from dictionaries, JSON and data frames of generated point and slot series (any zone, spacing, dict and list data), and from hand-made dictionaries with any kind '
        'of key and value, judged against the items; distinct by content')
FLOORS = {'to_dict': 200, 'from_dict': 200, 'to_json': 200, 'from_json': 200, 'to_df': 200, 'from_df': 150, 'slots': 200, 'hand_made': 300, 'rejections': 50, 'frames': 300}


def instants(series):
    return [(x.start.t, x.end.t) if isinstance(x, Slot) else x.t for x in series]


def same(ctx, want, got, what, tz=None):
    ctx.check(type(got) is TimeSeries and len(got) == len(want), lambda: '%s gave %s items instead of %s' % (what, len(got), len(want)), what + '-length')
    ctx.check(instants(got) == instants(want), lambda: '%s moved items: %s instead of %s' % (what, instants(got)[:5], instants(want)[:5]), what + '-times')
    for a, b in zip(want, got):
        ctx.check(type(a) is type(b), 'wrong item type', what + '-type')
        ctx.check(a.data == b.data, lambda: '%s gave %r for %r' % (what, b.data, a.data), what + '-data')
    ctx.check(str(got.resolution) == str(want.resolution), lambda: '%s gave resolution %s instead of %s' % (what, got.resolution, want.resolution), what + '-resolution')
    if tz:
        ctx.check(str(got.tz) == tz, lambda: '%s gave time zone %s instead of %s' % (what, got.tz, tz), what + '-tz')


def conversions(ctx, rng, index):
    names = rng.choice([(), (), ('data_loss',)])
    n = rng.choice([1, 2, 3, 6, 15])
    series = gen.any_series(rng, n=n, index_names=names)
    is_slots = isinstance(series[0], Slot)
    before = obs.snap(series)
    unit = str(series[0].unit) if is_slots else None
    zone = str(series.tz)
    if is_slots:
        ctx.count('slots')

    # Dictionaries
    d = series.to_dict()
    ctx.count('to_dict')
    ctx.check(len(d) == len(series), 'to_dict lost items', 'to-dict-length')
    for (dt, data), item in zip(d.items(), series):
        where = item.start if is_slots else item
        ctx.check(gen.epoch(dt) == where.t or abs(dt.timestamp() - where.t) < 1e-6, 'to_dict moved an item', 'to-dict-times')
        ctx.check(str(dt.tzinfo) == str(item.tz), 'to_dict changed the time zone', 'to-dict-tz')
        ctx.check(data == item.data, 'to_dict changed the data', 'to-dict-data')
    back = TimeSeries.from_dict(d, slot_unit=unit)
    ctx.count('from_dict')
    same(ctx, series, back, 'from-dict', zone)

    # JSON
    text = series.to_json()
    ctx.count('to_json')
    raw = json.loads(text)
    ctx.check(list(raw.values()) == [x.data for x in series], 'to_json changed the data', 'to-json-data')
    if not is_slots or zone == 'UTC' or unit[-1] in 'smh':
        back = TimeSeries.from_json(text, slot_unit=unit)
        ctx.count('from_json')
        same(ctx, series, back, 'from-json', 'UTC')

    # Data frames
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = series.to_df()
    ctx.count('to_df')
    labels = series.data_labels()
    ctx.check(len(df) == len(series), 'to_df lost items', 'to-df-length')
    lossy = any(x.data_loss is not None for x in series)
    ctx.check(list(df.columns) == labels + (['data_loss'] if lossy else []), lambda: 'to_df gave columns %s for labels %s' % (list(df.columns), labels), 'to-df-columns')
    for i, item in enumerate(series):
        where = item.start if is_slots else item
        ctx.check(abs(df.index[i].timestamp() - where.t) < 1e-6, lambda: 'to_df moved an item from %s to %s' % (where.t, df.index[i]), 'to-df-times')
        for p, label in enumerate(labels):
            ctx.check(df.iloc[i, p] == obs.value(item, label), lambda: 'to_df gave %r for %r' % (df.iloc[i, p], obs.value(item, label)), 'to-df-data')
        if lossy:
            got = df.iloc[i, len(labels)]
            ctx.check(got == item.data_loss or (pd.isna(got) and item.data_loss is None), 'to_df changed the data loss', 'to-df-loss')
    if not lossy and isinstance(series[0].data, dict):
        if is_slots:
            forward = n >= 3 and unit in ('1h', '6h', '15m', '1m', '30s', '1s') or (unit == '1D' and n >= 3 and zone == 'UTC')
            item_type = DataTimeSlot
        else:
            forward = df.index.inferred_freq is None or df.index.inferred_freq[-1] in 'HTSLUN'
            item_type = rng.choice(['auto', DataTimePoint])
        if forward:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                back = TimeSeries.from_df(df, item_type=item_type)
            ctx.count('from_df')
            ctx.check(len(back) == len(series), 'from_df lost items', 'from-df-length')
            for a, b in zip(series, back):
                pa, pb = (a.start, b.start) if is_slots else (a, b)
                ctx.check(type(a) is type(b) and abs(pa.t - pb.t) < 1e-6 and pa.dt.utcoffset() == pb.dt.utcoffset(), lambda: 'from_df gave %s for %s' % (b, a), 'from-df-times')
                if is_slots:
                    ctx.check(a.end.t == b.end.t, 'from_df changed the end of a slot', 'from-df-end')
                ctx.check(dict(b.data) == a.data, lambda: 'from_df gave %r for %r' % (b.data, a.data), 'from-df-data')
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: 'a conversion changed the series: %s' % obs.diff(before, obs.snap(series)), 'conversion-pure')
    ctx.sig('conversions', repr(before)[:2500])
    ctx.sample({'series': repr(series), 'json': text[:200]})


def hand_made(ctx, rng, index):
    """Dictionaries and JSON documents with all the kinds of keys and values"""
    n = rng.choice([1, 2, 5, 12])
    key = rng.choice(['int', 'float', 'str', 'iso', 'dt'])
    value = rng.choice(['scalar', 'dict', 'list'])
    slot = rng.random() < 0.4
    zone = rng.choice(gen.ZONES)
    if slot:
        unit = rng.choice(['1D', '1h', '15m', '1M']) if key == 'dt' else rng.choice(['1h', '15m', '30s'])
        bounds = gen.slot_bounds(rng, n, unit, zone)
    else:
        unit = None
        bounds = gen.times(rng, n, spacing=rng.choice([1, 60, 0.5, 600, 86400]) if key in ('float', 'str', 'dt') else rng.choice([1, 60, 600]), start=rng.choice([0, 1445734800, 1600000000]))
    keys = {'int': lambda t: int(t), 'float': lambda t: float(t), 'str': lambda t: repr(t), 'dt': lambda t: gen.from_epoch(t, zone),
            'iso': lambda t: gen.from_epoch(t).strftime('%Y-%m-%dT%H:%M:%SZ')}[key]
    names = gen.labels(rng)
    d, want = {}, []
    for i in range(n):
        v = gen.number(rng) if value == 'scalar' else gen.data(rng, names, value == 'list')
        d[keys(bounds[i])] = v
        want.append({'value': v} if value == 'scalar' else (dict(v) if value == 'dict' else list(v)))
    if key in ('str', 'iso') and rng.random() < 0.7:
        got = TimeSeries.from_json(json.dumps(d), slot_unit=unit)
    else:
        got = TimeSeries.from_dict(d, slot_unit=unit)
    ctx.count('hand_made')
    ctx.check(len(got) == n, 'items lost', 'hand-length')
    for i, item in enumerate(got):
        t = item.start.t if slot else item.t
        ctx.check(type(item) is (DataTimeSlot if slot else DataTimePoint), 'wrong type', 'hand-type')
        ctx.check(t == bounds[i], lambda: 'item at %r instead of %r' % (t, bounds[i]), 'hand-times')
        if slot:
            ctx.check(item.end.t == bounds[i + 1], lambda: 'slot ending at %r instead of %r' % (item.end.t, bounds[i + 1]), 'hand-times')
        ctx.check(item.data == want[i], lambda: 'data %r instead of %r' % (item.data, want[i]), 'hand-data')
    if n > 1:
        error = ctx.raises(lambda: TimeSeries.from_dict(dict(reversed(list(d.items()))), slot_unit=unit))
        ctx.count('rejections')
        ctx.check(error is not None, 'a dictionary with items in reverse order was accepted', 'hand-order')
    for bad in ({'not a time': 1}, {None: 1}, {(1, 2): 1}):
        error = ctx.raises(lambda: TimeSeries.from_dict(bad))
        ctx.check(error is not None, 'a dictionary with unusable keys was accepted', 'hand-keys')
    ctx.sig('hand', key, value, unit, zone, repr(want)[:800], bounds[0])


FREQUENCIES = {'S': 1, '10S': 10, 'T': 60, '15T': 900, 'H': 3600, '6H': 21600, 'D': 'slots', None: None}


def frames(ctx, rng, index):
    """Data frames not coming from a series: naive or not, of any frequency or none, with anything in the columns"""
    zone = rng.choice([None, None, 'UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata'])
    frequency = rng.choice(sorted(FREQUENCIES, key=str))
    n = rng.choice([1, 2, 3, 5, 12])
    start = pd.Timestamp(year=rng.randint(1980, 2030), month=rng.randint(1, 12), day=rng.randint(1, 28), hour=0 if frequency == 'D' else rng.randint(4, 20))
    if frequency is None:
        moves = [pd.Timedelta(seconds=x) for x in sorted(rng.sample(range(100000), n))]
        stamps = pd.DatetimeIndex([start + move for move in moves])
    else:
        stamps = pd.date_range(start, periods=n, freq=frequency)
    if zone:
        localized = ctx.raises(lambda: stamps.tz_localize(zone))
        if localized is not None:
            return
        stamps = stamps.tz_localize(zone)
    labels = gen.labels(rng)
    columns = {label: rng.choice([[rng.randint(-9, 9) for _ in range(n)], [round(rng.uniform(-9, 9), 4) for _ in range(n)]]) for label in labels}
    df = pd.DataFrame(columns, index=stamps)
    before = df.copy(deep=True)
    inferred = df.index.inferred_freq
    wants_slots = frequency == 'D' and inferred == 'D'
    if inferred is not None and not wants_slots and not inferred[-1] in 'HTSLUN':
        return
    what = 'data frame at %s (%s, %s)' % (list(stamps), zone, inferred)
    item_type = rng.choice(['auto', 'auto', DataTimeSlot if wants_slots else DataTimePoint])
    if rng.random() < 0.2 and n > 1:
        # Not in order, or more than once
        order = list(range(n))
        rng.shuffle(order)
        if rng.random() < 0.5:
            order[0] = order[-1]
        if order != list(range(n)):
            wrong = df.iloc[order]
            ctx.check(ctx.raises(lambda: TimeSeries.from_df(wrong)) is not None, lambda: '%s: accepted in the order %s' % (what, order), 'frame-order')
            ctx.count('rejections')
    if rng.random() < 0.1:
        ctx.check(ctx.raises(lambda: TimeSeries.from_df(pd.DataFrame({'a': [1, 2]}, index=['x', 'y']))) is not None, 'a data frame not indexed by time was accepted', 'frame-index')
    back = TimeSeries.from_df(df, item_type=item_type) if item_type != 'auto' or rng.random() < 0.5 else TimeSeries.from_df(df)
    ctx.count('frames')
    ctx.check(len(back) == n and back.item_type is (DataTimeSlot if wants_slots else DataTimePoint), lambda: '%s gave %s' % (what, back), 'frame-items')
    local = gen.pytz.timezone(zone) if zone else gen.pytz.UTC
    for i, item in enumerate(back):
        ctx.check(abs((item.start if wants_slots else item).t - (stamps[i] if zone else stamps[i].tz_localize('UTC')).timestamp()) < 1e-6, lambda: '%s: item %s is %s' % (what, i, item), 'frame-times')
        ctx.check({label: float(item.data[label]) for label in item.data} == {label: float(columns[label][i]) for label in labels}, lambda: '%s: item %s is %s' % (what, i, item), 'frame-data')
        if wants_slots:
            following = (stamps[i].to_pydatetime().replace(tzinfo=None) + dt.timedelta(days=1))
            ctx.check(abs(item.end.t - local.localize(following).timestamp()) < 1e-6, lambda: '%s: item %s is %s' % (what, i, item), 'frame-ends')
    if zone and zone != 'UTC':
        ctx.check(str(back[0].start.tz if wants_slots else back[0].tz) == zone, '%s is on another time zone' % what, 'frame-zone')
    ctx.check(before.equals(df) and list(before.index) == list(df.index), '%s: the frame changed' % what, 'frame-pure')
    ctx.sig('frames', zone, frequency, repr(before))


CASES = {'conversions': {'run': conversions, 'quick': 1500, 'thorough': 15000},
         'hand_made': {'run': hand_made, 'quick': 1500, 'thorough': 20000},
         'frames': {'run': frames, 'quick': 900, 'thorough': 9000}}
