import pytz

from timeseria.datastructures import Slot, TimeSeries

from .. import gen, obs

RULE = ('duplications, copies and time zone changes (chained, both in place and not) of point and slot series, with full snapshots of source and result before and '
        'after altering either of them; distinct by series and zones')
FLOORS = {'duplications': 300, 'tz_changes': 500}


def alter(rng, series):
    """Alter everything that can be altered in a series."""
    for item in series:
        if isinstance(item.data, dict):
            for label in item.data:
                item.data[label] = 12345.5
        else:
            item.data[0] = 12345.5
        item.data_indexes['altered'] = 1
    zone = 'Asia/Tokyo'
    series.change_tz(zone)
    if rng.random() < 0.5:
        series.pop()
    else:
        last = series[-1]
        if isinstance(last, Slot):
            pass
        else:
            series.append(gen.point(last.t + 17, dict(last.data) if isinstance(last.data, dict) else list(last.data)))


def duplicate(ctx, rng, index):
    series = gen.any_series(rng, index_names=rng.choice([(), ('data_loss',), ('data_loss', 'anomaly')]))
    ctx.count('duplications')
    if rng.random() < 0.5:
        repr(series)  # fill the caches
    before = obs.snap(series)
    other = series.duplicate()
    d = obs.diff(before, obs.snap(other))
    ctx.check(d is None, lambda: 'the duplicate differs: %s' % d, 'duplicate-equal')
    ctx.check(type(other) is type(series), 'wrong type', 'duplicate-type')
    first, second = (other, series) if rng.random() < 0.5 else (series, other)
    alter(rng, first)
    d = obs.diff(before, obs.snap(second))
    ctx.check(d is None, lambda: 'altering one of a series and its duplicate affected the other: %s' % d, 'duplicate-independent')
    # A copy is another series with the same items
    copied = second.copy()
    ctx.check(type(copied) is type(second) and len(copied) == len(second) and all(a is b for a, b in zip(copied, second)), 'wrong copy', 'copy')
    n = len(second)
    copied.pop()
    ctx.check(len(second) == n and str(second.resolution) == before['resolution'], 'changing a copy affected the series', 'copy-independent')
    ctx.sig('duplicate', repr(before)[:2000])


def zones(ctx, rng, index):
    series = gen.any_series(rng, index_names=rng.choice([(), ('data_loss',)]))
    items_t = [(x.start.t, x.end.t) if isinstance(x, Slot) else x.t for x in series]
    before = obs.snap(series)
    path = []
    current = series
    for _ in range(rng.randint(1, 4)):
        zone = rng.choice(gen.ZONES + ['Pacific/Apia', 'Africa/Casablanca'])
        path.append(zone)
        arg = pytz.timezone(zone) if rng.random() < 0.3 else zone
        ctx.count('tz_changes')
        if rng.random() < 0.5:
            source = current
            source_before = obs.snap(source)
            current = source.as_tz(arg)
            d = obs.diff(source_before, obs.snap(source))
            ctx.check(d is None, lambda: 'as_tz changed the source series: %s' % d, 'as-tz-pure')
            ctx.check(current is not source and type(current) is type(source), 'as_tz did not return a new series', 'as-tz-new')
        else:
            current.change_tz(arg)
        ctx.check(str(current.tz) == zone, lambda: 'the series is on %s instead of %s' % (current.tz, zone), 'tz-series')
        ctx.check(len(current) == len(items_t), 'items lost', 'tz-items')
        for item, t in zip(current, items_t):
            is_slot = isinstance(item, Slot)
            got = (item.start.t, item.end.t) if is_slot else item.t
            ctx.check(got == t, lambda: 'the time zone change moved an item from %s to %s' % (t, got), 'tz-instants')
            ctx.check(str(item.tz) == zone, lambda: 'an item is on %s instead of %s' % (item.tz, zone), 'tz-item')
            for p in ([item.start, item.end] if is_slot else [item]):
                want = gen.from_epoch(p.t, zone)
                ctx.check(p.dt == want and p.dt.utcoffset() == want.utcoffset(), lambda: 'wrong datetime %s instead of %s' % (p.dt, want), 'tz-dt')
    after = obs.snap(current)
    ctx.check([x['data'] for x in after['items']] == [x['data'] for x in before['items']] and [x['indexes'] for x in after['items']] == [x['indexes'] for x in before['items']]
              and [x['unit'] for x in after['items']] == [x['unit'] for x in before['items']] and after['resolution'] == before['resolution'],
              'the time zone change altered the data, the indexes or the resolution', 'tz-data')
    # The series is still usable in the new zone
    last = current[-1]
    if not isinstance(last, Slot):
        current.append(gen.point(last.t + 60, dict(last.data) if isinstance(last.data, dict) else list(last.data), path[-1]))
        ctx.check(len(current) == len(items_t) + 1 and str(current.tz) == path[-1], 'not usable after the time zone change', 'tz-usable')
    ctx.sig('zones', path, before['resolution'], len(items_t), before['tz'])
    ctx.sample({'zones': path, 'series': repr(series)})


def mixed(ctx, rng, index):
    """The time zone of points series is the one of the points, or UTC if they are on different ones"""
    series = TimeSeries()
    used = [rng.choice(gen.ZONES[1:]) for _ in range(rng.randint(1, 2))]
    for i, t in enumerate(gen.times(rng, rng.randint(1, 10))):
        series.append(gen.point(t, {'a': i}, used[i % len(used)]))
    expected = set(str(x.tz) for x in series)
    ctx.check(str(series.tz) == (expected.pop() if len(expected) == 1 else 'UTC'), lambda: 'time zone is %s with points on %s' % (series.tz, used), 'tz-mixed')
    if rng.random() < 0.5:
        repr(series)
    # Changing it applies to all of the items, also if it is the one the series already is on
    zone = rng.choice([str(series.tz), 'UTC', used[0], used[-1]])
    for how in rng.sample(['as_tz', 'change_tz'], 2):
        changed = series.as_tz(zone) if how == 'as_tz' else series
        if how == 'change_tz':
            changed.change_tz(zone)
        ctx.check(str(changed.tz) == zone and all(str(x.tz) == zone for x in changed), lambda: '%s(%s) of a series with points on %s left it on %s with points on %s' % (how, zone, used, changed.tz, sorted(set(str(x.tz) for x in changed))), 'tz-mixed-changed')
    empty = TimeSeries()
    empty.change_tz(used[0])
    ctx.check(str(empty.tz) == used[0], 'wrong time zone for an empty series', 'tz-empty')
    ctx.sig('mixed', used, len(series))


CASES = {'duplicate': {'run': duplicate, 'quick': 2500, 'thorough': 30000},
         'zones': {'run': zones, 'quick': 2500, 'thorough': 30000},
         'mixed': {'run': mixed, 'quick': 300, 'thorough': 2000}}
