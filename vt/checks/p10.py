from timeseria import operations
from timeseria.datastructures import Slot

from .. import gen, obs

RULE = ('merges of two to four point or slot series on the same grid, with different starts, ends, labels, indexes and order of the arguments, against a reference merge over '
        'plain dictionaries; and of series which cannot be merged; distinct by content')
FLOORS = {'merges': 500, 'items': 2000, 'common_labels': 200, 'rejections': 100, 'disjoint': 20, 'single_slots': 50}


def build(rng, bounds, zone, unit, i, j, labels, index_names):
    """A series over the grid positions i..j"""
    from timeseria.datastructures import TimeSeries
    series = TimeSeries()
    for k in range(i, j):
        kwargs = {'data_indexes': gen.indexes(rng, index_names)} if index_names else {}
        d = gen.data(rng, labels)
        if unit is None:
            series.append(gen.point(bounds[k], d, zone, **kwargs))
        else:
            series.append(gen.slot(bounds[k], bounds[k + 1], unit, zone, d, rng.choice([0, 1]), **kwargs))
    return series


def merge(ctx, rng, index):
    length = rng.choice([3, 6, 12, 25])
    zone = rng.choice(gen.ZONES)
    if rng.random() < 0.6:
        unit = None
        bounds = gen.times(rng, length + 1, spacing=rng.choice([0.5, 1, 60, 600, 3600, 86400]))
    else:
        unit = rng.choice(gen.SLOT_UNITS)
        bounds = gen.slot_bounds(rng, length, unit, zone)
    seriess, spans = [], []
    single = unit is not None and rng.random() < 0.3    # Slots have their length also if on their own
    for _ in range(rng.choice([1, 2, 2, 2, 3, 4])):
        i = rng.randint(0, length - (1 if single else 2))
        j = rng.randint(i + 1, min(length, i + 2)) if single and rng.random() < 0.5 else rng.randint(i + (1 if single else 2), length)
        if j == i + 1:
            ctx.count('single_slots')
        index_names = rng.choice([(), ('data_loss',), ('data_loss', 'anomaly')])
        seriess.append(build(rng, bounds, zone, unit, i, j, gen.labels(rng), index_names))
        spans.append((i, j))
    start, end = max(i for i, _ in spans), min(j for _, j in spans)
    before = [obs.snap(x) for x in seriess]
    if any(len(set(s.data_labels()) & set(seriess[0].data_labels())) for s in seriess[1:]):
        ctx.count('common_labels')
    got = seriess[0].merge(seriess[1]) if len(seriess) == 2 and rng.random() < 0.5 else operations.merge(*seriess)
    ctx.count('merges')
    for series, b in zip(seriess, before):
        ctx.check(obs.diff(b, obs.snap(series)) is None, lambda: 'merging changed a source series: %s' % obs.diff(b, obs.snap(series)), 'merge-pure')
    if start >= end:
        ctx.count('disjoint')
        ctx.check(len(got) == 0, lambda: 'merging series with nothing in common gave %s items' % len(got), 'merge-disjoint')
        return
    ctx.check(len(got) == end - start, lambda: 'merging %s gave %s items instead of %s' % (spans, len(got), end - start), 'merge-range')
    for k, item in zip(range(start, end), got):
        ctx.count('items')
        sources = [series[k - i] for series, (i, _) in zip(seriess, spans)]
        ctx.check(type(item) is type(sources[0]), 'wrong type of the merged items', 'merge-type')
        where = item.start.t if isinstance(item, Slot) else item.t
        ctx.check(where == bounds[k], lambda: 'merged item at %s instead of %s' % (where, bounds[k]), 'merge-times')
        if unit:
            ctx.check(item.end.t == bounds[k + 1], 'wrong end of a merged slot', 'merge-times')
        ctx.check(str(item.tz) == zone, 'wrong time zone of the merged items', 'merge-tz')
        want = {}
        for source in sources:
            for label, v in source.data.items():
                want.setdefault(label, []).append(v)
        ctx.check(sorted(item.data) == sorted(want), lambda: 'merged labels are %s instead of %s' % (sorted(item.data), sorted(want)), 'merge-labels')
        for label, vs in want.items():
            ctx.check(obs.close(item.data[label], sum(vs) / len(vs), abs_=1e-9 + 1e-13 * max(abs(v) for v in vs)), lambda: 'merged value of %s is %s from %s' % (label, item.data[label], vs), 'merge-values')
        want = {}
        for source in sources:
            for name, v in source.data_indexes.items():
                if v is not None:
                    want.setdefault(name, []).append(v)
        got_indexes = {name: v for name, v in item.data_indexes.items() if v is not None}
        ctx.check(sorted(got_indexes) == sorted(want), lambda: 'merged indexes are %s instead of %s' % (sorted(got_indexes), sorted(want)), 'merge-indexes')
        for name, vs in want.items():
            ctx.check(obs.close(got_indexes[name], sum(vs) / len(vs)), lambda: 'merged index %s is %s from %s' % (name, got_indexes[name], vs), 'merge-indexes')
    # Independence
    after = obs.snap(got)
    for series in seriess:
        for item in series:
            for label in item.data:
                item.data[label] = 777
            item.data_indexes['other'] = 0.5
    ctx.check(obs.diff(after, obs.snap(got)) is None, 'altering a source of a merge altered its result', 'merge-independent')
    ctx.sig(spans, unit, zone, repr(after)[:1500])
    ctx.sample({'spans': spans, 'unit': unit, 'merged': repr(got)})


def rejections(ctx, rng, index):
    spacing = rng.choice([1, 60, 600])
    a = gen.point_series(rng, n=10, spacing=spacing, irregular=0, start=0, as_list=False)
    kind = rng.choice(['variable', 'both variable', 'resolution', 'mixed'])
    if kind == 'variable':
        b = gen.point_series(rng, n=10, spacing=spacing, irregular=0, start=0, as_list=False)
        b.append(gen.point(spacing * 11.5, dict(b[0].data)))
    elif kind == 'both variable':
        # Also if they would have the very same timestamps
        a.append(gen.point(spacing * 11.5, dict(a[0].data)))
        b = a.duplicate()
    elif kind == 'resolution':
        b = gen.point_series(rng, n=10, spacing=spacing * rng.choice([2, 3, 0.5]), irregular=0, start=0, as_list=False)
    else:
        a = gen.point_series(rng, n=10, spacing=60, irregular=0, start=0, as_list=False, tz='UTC')
        b = gen.slot_series(rng, n=10, unit='1h', zone='UTC', as_list=False)
    first, second = (a, b) if rng.random() < 0.5 else (b, a)
    error = ctx.raises(lambda: first.merge(second))
    ctx.count('rejections')
    ctx.check(isinstance(error, ValueError), lambda: 'merging series with different resolutions (%s) gave %r' % (kind, error), 'merge-rejection')
    ctx.sig('rejections', kind, spacing, repr(second)[:80])


CASES = {'merge': {'run': merge, 'quick': 4000, 'thorough': 60000},
         'rejections': {'run': rejections, 'quick': 300, 'thorough': 3000}}
