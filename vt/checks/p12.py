import datetime
import os

import dateutil.tz
import pytz

from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot, TimeSeries
from timeseria.storages import CSVFileStorage
from timeseria.units import TimeUnit

from .. import gen, obs

RULE = ('series saved and loaded back (points and slots of any unit, time zone, spacing and length from one item on, dict and list data, labels of all sorts, indexes present on all or '
        'on some items), with the loaded series compared item by item with the saved one, saved again and compared again; and put and got back through a storage; distinct by content')
FLOORS = {'round_trips': 1000, 'slots': 300, 'single_item': 50, 'partial_indexes': 100, 'odd_labels': 200, 'storage_round_trips': 300, 'fixed_offsets': 100, 'unstorable': 100}
ODD = ['timestamp', 'epoch', '1', '2.5', '2019-01-01T00:00:00Z', 'temp °C', 'température', '温度', 'a;b', '#x', 'x#', 'data_loss', 'CO2 [ppm]', 'µg/m³', 'é']
# These cannot be represented in the file format
UNSTORABLE = ['nan', 'null', 'NA', 'n.d.', 'a,b', ' x', 'x ', '"x"', "it's'", 'a  b', 'a\tb', 'a\nb', '', '__data_loss', '__x']


def build(ctx, rng, unstorable=False):
    labels = gen.labels(rng)
    if rng.random() < 0.35:
        labels = rng.sample(ODD, rng.randint(1, 3)) + rng.sample(labels, rng.randint(0, len(labels)))
        rng.shuffle(labels)
        ctx.count('odd_labels')
    if unstorable:
        labels.insert(rng.randint(0, len(labels)), rng.choice(UNSTORABLE))
    names = rng.choice([(), (), ('data_loss',), ('data_loss', 'data_reconstructed'), ('anomaly', 'data_loss')])
    n = rng.choice([1, 2, 3, 8, 20, 60])
    if rng.random() < 0.55:
        series = gen.point_series(rng, n=n, the_labels=labels, index_names=names)
        if rng.random() < 0.2:
            series = gen.point_series(rng, n=n, the_labels=labels, index_names=names, start=rng.choice([0.1, 1445734800.123457, 0.000001]))
    else:
        series = gen.slot_series(rng, n=n, the_labels=labels, index_names=names)
        ctx.count('slots')
    if names and rng.random() < 0.4:
        # Not all of the items have the indexes
        for item in series:
            if rng.random() < 0.5:
                item.data_indexes.pop(rng.choice(names), None)
        ctx.count('partial_indexes')
    if n == 1:
        ctx.count('single_item')
    return series


def clean(indexes):
    return {k: v for k, v in indexes.items() if v is not None}


class Mine(TimeSeries):
    """Somebody's own series"""


def compare(ctx, want, got, what, tz=None, cls=TimeSeries):
    ctx.check(type(got) is cls, 'not a time series', what + '-type')
    ctx.check(len(got) == len(want), lambda: '%s items instead of %s' % (len(got), len(want)), what + '-length')
    tz = tz or str(want.tz)
    ctx.check(str(got.tz) == tz, lambda: 'the time zone is %s instead of %s' % (got.tz, tz), what + '-tz')
    ctx.check(str(got.resolution) == str(want.resolution), lambda: 'the resolution is %s instead of %s' % (got.resolution, want.resolution), what + '-resolution')
    for a, b in zip(want, got):
        ctx.check(type(a) is type(b), lambda: 'a %s was loaded for a %s' % (type(b), type(a)), what + '-item-type')
        if isinstance(a, Slot):
            ctx.check((a.start.t, a.end.t) == (b.start.t, b.end.t) and a.unit == b.unit, lambda: 'slot %s loaded as %s' % (a, b), what + '-times')
        else:
            ctx.check(a.t == b.t, lambda: 'point at %r loaded at %r' % (a.t, b.t), what + '-times')
        ctx.check(str(b.tz) == tz, 'wrong time zone of the items', what + '-item-tz')
        ctx.check(sorted(a.data_labels()) == sorted(b.data_labels()), lambda: 'labels %s loaded as %s' % (sorted(a.data_labels()), sorted(b.data_labels())), what + '-labels')
        for label in a.data_labels():
            x, y = obs.value(a, label), obs.value(b, label)
            ctx.check(x == y, lambda: 'value %r of %s loaded as %r' % (x, label, y), what + '-values')
        ctx.check(clean(a.data_indexes) == clean(b.data_indexes), lambda: 'indexes %s loaded as %s' % (a.data_indexes, b.data_indexes), what + '-indexes')


def save_load(ctx, rng, index):
    series = build(ctx, rng)
    path = os.path.join(ctx.dir, 'series_%s.csv' % index)
    before = obs.snap(series)
    series.save(path)
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'saving changed the series', 'save-pure')
    loaded = TimeSeries.load(path)
    ctx.count('round_trips')
    compare(ctx, series, loaded, 'load')
    if rng.random() < 0.1:
        compare(ctx, series, Mine.load(path), 'load-own', cls=Mine)
        ctx.count('own_class')
    # Again, on top of the previous one
    loaded.save(path, overwrite=True)
    again = TimeSeries.load(path)
    d = obs.diff(obs.snap(loaded), obs.snap(again))
    ctx.check(d is None, lambda: 'the second round trip is not the same: %s' % d, 'load-again')
    os.remove(path)
    ctx.sig(repr(before)[:3000])
    ctx.sample({'series': repr(series), 'labels': series.data_labels()})


def fixed_offset(ctx, rng, index):
    """On time zones made only by an offset"""
    minutes = rng.choice([60, 120, -300, 330, -210, 0, 845])
    tzinfo = rng.choice([datetime.timezone(datetime.timedelta(minutes=minutes)), pytz.FixedOffset(minutes), dateutil.tz.tzoffset(None, minutes * 60)])
    labels = gen.labels(rng)
    series = TimeSeries()
    start = datetime.datetime(2020, rng.randint(1, 12), rng.randint(1, 28), tzinfo=tzinfo)
    slots = rng.random() < 0.5
    for i in range(rng.randint(1, 6)):
        dt = start + datetime.timedelta(days=i) if slots else start + datetime.timedelta(seconds=i * 600)
        if slots:
            series.append(DataTimeSlot(dt=dt, unit=TimeUnit('1D'), data=gen.data(rng, labels)))
        else:
            series.append(DataTimePoint(dt=dt, data=gen.data(rng, labels)))
        item_t = series[-1].start.t if slots else series[-1].t
        ctx.check(item_t == dt.timestamp(), 'wrong instant', 'offset-instant')
    path = os.path.join(ctx.dir, 'offset_%s.csv' % index)
    series.save(path)
    loaded = TimeSeries.load(path)
    ctx.count('fixed_offsets')
    ctx.check(len(loaded) == len(series), 'items lost', 'offset-length')
    for a, b in zip(series, loaded):
        pairs = [(a.start, b.start), (a.end, b.end)] if slots else [(a, b)]
        for x, y in pairs:
            ctx.check(x.t == y.t and x.dt == y.dt and x.dt.utcoffset() == y.dt.utcoffset(), lambda: '%s loaded as %s' % (x.dt, y.dt), 'offset-times')
        ctx.check(a.data == b.data, 'wrong data', 'offset-data')
    os.remove(path)
    ctx.sig('offset', repr(tzinfo), repr(obs.snap(series))[:2000])


def unstorable(ctx, rng, index):
    """Whatever is in the labels, either the series is refused, leaving the file alone, or it comes back the same"""
    series = build(ctx, rng, unstorable=True)
    path = os.path.join(ctx.dir, 'unstorable_%s.csv' % index)
    existing = rng.random() < 0.5
    if existing:
        with open(path, 'w') as f:
            f.write('# something\n')
    error = ctx.raises(lambda: series.save(path, overwrite=True))
    ctx.count('unstorable')
    if error is None:
        compare(ctx, series, TimeSeries.load(path), 'load')
    else:
        if existing:
            with open(path) as f:
                ctx.check(f.read() == '# something\n', 'refusing to save destroyed the file', 'refused-destroyed')
        else:
            ctx.check(not os.path.exists(path), 'refusing to save left a file', 'refused-left')
    if os.path.exists(path):
        os.remove(path)
    ctx.sig('unstorable', repr(obs.snap(series))[:2500])


def storage(ctx, rng, index):
    series = build(ctx, rng)
    labels = series.data_labels()
    if 'timestamp' in labels:
        # The timestamp column is auto-detected in this case
        return
    path = os.path.join(ctx.dir, 'storage_%s.csv' % index)
    kwargs = {}
    if rng.random() < 0.3:
        kwargs['separator'] = rng.choice([';', '|', '\t'])
        if any(';' in x for x in labels):
            kwargs['separator'] = '|'
        if kwargs['separator'] == ';':
            kwargs['comment_chars'] = ['#']
    if rng.random() < 0.3 and all(x.isascii() for x in labels):
        kwargs['encoding'] = rng.choice(['utf-8', 'utf-16', 'latin-1'])
    if rng.random() < 0.3:
        kwargs['comment_chars'] = [c for c in rng.choice([['%'], ['%', '!'], ['#'], ['!', '#']]) if not any(x.startswith(c) for x in labels)] or ['#']
        ctx.count('comment_chars')
    # Through the same storage or different ones
    put = CSVFileStorage(path, **kwargs)
    put.put(series)
    get = put if rng.random() < 0.5 else CSVFileStorage(path, **kwargs)
    tz = str(series.tz)
    if isinstance(series[0], Slot):
        loaded = get.get(force_slots=True, force_slot_unit=series.resolution, force_tz=tz)
    else:
        loaded = get.get(force_points=True, force_tz=tz)
    ctx.count('storage_round_trips')
    compare(ctx, series, loaded, 'get', tz)
    if rng.random() < 0.5:
        # Not affected by what was asked before
        get.get(filter_data_labels=[1], force_points=True)
        again = get.get(force_points=True, force_tz=tz) if not isinstance(series[0], Slot) else get.get(force_slots=True, force_slot_unit=series.resolution, force_tz=tz)
        d = obs.diff(obs.snap(loaded), obs.snap(again))
        ctx.check(d is None, lambda: 'getting twice is not the same: %s' % d, 'get-again')
    if rng.random() < 0.4 and tz in pytz.all_timezones_set:
        # What a storage (or saving with its options) stores is also loaded
        compare(ctx, series, TimeSeries.load(path), 'load')
        ctx.count('storage_loads')
    os.remove(path)
    ctx.sig('storage', repr(kwargs), repr(obs.snap(series))[:2500])


CASES = {'save_load': {'run': save_load, 'quick': 2500, 'thorough': 40000},
         'fixed_offset': {'run': fixed_offset, 'quick': 300, 'thorough': 3000},
         'unstorable': {'run': unstorable, 'quick': 500, 'thorough': 8000},
         'storage': {'run': storage, 'quick': 1500, 'thorough': 20000}}
