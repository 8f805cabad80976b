from timeseria.datastructures import TimeSeries
from timeseria.transformations import Aggregator, Resampler

from .. import gen, obs, transform

RULE = ('pairs of resamplings and aggregations of related series (rescaled values, one label at a time, shifted in time, on another time zone, cut to a part, with points added at the ends) and chains of them, '
        'with results compared with each other, and every data loss and average against its bounds; distinct by series, transformation and relation')
FLOORS = {'rescaled': 100, 'labels': 100, 'shifted': 100, 'zones': 100, 'parts': 100, 'chains': 100, 'losses': 5000, 'averages': 3000, 'data_lost': 300}


class Trans:

    def __init__(self, rng):
        self.aggregate = rng.random() < 0.5
        self.unit = rng.choice(['1m', '10m', '30m', '15m', '5m', '1s'])
        self.u = transform.unit_seconds(self.unit)
        self.operations = ['avg', 'min', 'max']

    def __call__(self, series, validity=None, **kwargs):
        if validity is not None:
            kwargs['validity'] = validity
        if self.aggregate:
            return Aggregator(self.unit, operations=self.operations).process(series, **kwargs)
        return Resampler(self.unit).process(series, **kwargs)


def where(item):
    return item.start.t if hasattr(item, 'start') else item.t


def observe(ctx, series, source_points, trans):
    """Bounds which hold for whatever transformation."""
    values = {}
    for p in source_points:
        for label, v in p[1].items():
            values.setdefault(label, []).append(v)
    for item in series:
        ctx.count('losses')
        ctx.check(item.data_loss is not None and -1e-9 <= item.data_loss <= 1 + 1e-9, lambda: 'data loss of %s' % item.data_loss, 'loss-bounds')
        if item.data_loss > 1e-9:
            ctx.count('data_lost')
        for label, column in values.items():
            low, high = min(column), max(column)
            tolerance = 1e-7 * max(1, abs(low), abs(high))
            if trans.aggregate:
                a, b, c = item.data[label + '_min'], item.data[label + '_avg'], item.data[label + '_max']
                ctx.count('averages')
                ctx.check(low - tolerance <= a <= c + tolerance and c <= high + tolerance, lambda: 'minimum %s and maximum %s out of %s..%s' % (a, c, low, high), 'bounds')
                ctx.check(low - tolerance <= b <= high + tolerance, lambda: 'average %s out of %s..%s' % (b, low, high), 'bounds')
            else:
                ctx.count('averages')
                ctx.check(low - tolerance <= item.data[label] <= high + tolerance, lambda: 'value %s out of %s..%s' % (item.data[label], low, high), 'bounds')


def same(ctx, one, two, what, scale, value=lambda label, v: v, shift=0, labels=None, indexes=True):
    ctx.check(len(one) == len(two), lambda: '%s: %s items vs %s' % (what, len(one), len(two)), what)
    for a, b in zip(one, two):
        ctx.check(where(a) + shift == where(b), lambda: '%s: item at %s vs %s' % (what, where(a), where(b)), what)
        for label in (labels if labels is not None else a.data):
            ctx.check(obs.close(value(label, a.data[label]), b.data[label], rel=1e-6, abs_=1e-6 + 1e-12 * scale), lambda: '%s: %s vs %s at %s (%s)' % (what, value(label, a.data[label]), b.data[label], where(a), label), what)
        ctx.check(obs.close(a.data_loss, b.data_loss, abs_=1e-6), lambda: '%s: loss %s vs %s at %s' % (what, a.data_loss, b.data_loss, where(a)), what)
        if indexes:
            ctx.check(set(a.data_indexes) == set(b.data_indexes) and all(obs.close(a.data_indexes[k], b.data_indexes[k], abs_=1e-6) for k in a.data_indexes), lambda: '%s: indexes %s vs %s' % (what, a.data_indexes, b.data_indexes), what)


def related(ctx, rng, index):
    trans = Trans(rng)
    spacing = max(round(trans.u / rng.choice([1, 2, 3, 5, 10, 0.5, 1.5]) * 16) / 16, 1 / 16)
    work = transform.Workload(rng, spacing, rng.choice([3, 8, 20, 50]), 'UTC', jitter=rng.random() < 0.15, align=rng.choice([None, trans.u]))
    validity = spacing * rng.choice([1, 1, 1, 2, 0.5]) if work.mode_spacing() is None or rng.random() < 0.3 else None
    fixed = validity if validity is not None else work.mode_spacing()
    base = trans(work.series(), validity)
    observe(ctx, base, work.points, trans)
    relation = rng.choice(['rescaled', 'labels', 'shifted', 'zones', 'parts', 'chains'])
    points = work.points
    other = transform.Workload.__new__(transform.Workload)
    other.__dict__.update(work.__dict__)
    if relation == 'rescaled':
        a, b = rng.choice([2, 0.5, 10, 1]), rng.choice([0, 100, -3.5])
        other.points = [(t, {k: a * v + b for k, v in d.items()}, loss, i) for t, d, loss, i in points]
        same(ctx, base, trans(other.series(), validity), relation, work.scale(), lambda label, v: a * v + b)
    elif relation == 'labels':
        other.as_list = False
        for label in work.labels:
            other.points = [(t, {label: d[label]}, loss, i) for t, d, loss, i in points]
            got = trans(other.series(), validity)
            names = [label + '_' + o for o in trans.operations] if trans.aggregate else [label]
            ctx.check(not len(got) or sorted(got.data_labels()) == sorted(names), 'labels: wrong labels', relation)
            same(ctx, base, got, relation, work.scale(), labels=names)
    elif relation == 'shifted':
        shift = trans.u * rng.choice([1, 7, 1000, -3600])
        other.points = [(t + shift, d, loss, i) for t, d, loss, i in points]
        same(ctx, base, trans(other.series(), validity), relation, work.scale(), shift=shift)
    elif relation == 'zones':
        other.zone = rng.choice([z for z in gen.ZONES if transform.grid_safe(z, trans.unit)])
        got = trans(other.series(), validity)
        same(ctx, base, got, relation, work.scale())
        ctx.check(not len(got) or str(got.tz) == other.zone, 'wrong time zone', relation)
    elif relation == 'parts':
        # What is computed depends only on what is around
        i = rng.randint(0, len(points) - 2)
        j = rng.randint(i + 2, len(points))
        other.points = points[i:j]
        got = trans(other.series(), fixed)
        lo = points[i + 1][0] if i > 0 else points[i][0]
        expected = {where(x): x for x in trans(work.series(), fixed)}
        for item in got:
            start = where(item) if trans.aggregate else item.t - trans.u / 2
            if start < lo:
                # On the left border the validity of the previous point is not known
                continue
            ctx.check(where(item) in expected, lambda: 'parts: extra item at %s' % where(item), relation)
            same(ctx, [expected[where(item)]], [item], relation, work.scale(), indexes=False)
            ctx.count('items_of_parts')
    elif base:
        # A transformation of a transformation, as long as it is made of points
        first = Resampler(trans.unit).process(work.series(), **({'validity': validity} if validity else {}))
        if len(first) >= 2:
            again = Trans(rng)
            again.u = trans.u * rng.choice([1, 2, 3, 6])
            again.unit = '%ss' % again.u
            second = again(first)
            other.points = [(x.t, dict(x.data), x.data_loss, {k: v for k, v in x.data_indexes.items() if k != 'data_loss'}) for x in first]
            observe(ctx, second, other.points, again)
            valid = transform.regions([p[0] for p in other.points], trans.u)
            for item in second:
                a = where(item) - (0 if again.aggregate else again.u / 2)
                interval = transform.Interval(other.points, valid, a, a + again.u)
                ctx.check(obs.close(item.data_loss, interval.loss(), abs_=1e-6), lambda: 'chains: loss %s instead of %s' % (item.data_loss, interval.loss()), relation)
                for label in work.labels:
                    got, x = item.data[label + '_avg' if again.aggregate else label], interval.average(label)
                    ctx.check(obs.close(got, x, rel=1e-6, abs_=1e-6 + 1e-12 * work.scale()), lambda: 'chains: value %s instead of %s' % (got, x), relation)
    ctx.count(relation)
    ctx.sig(relation, trans.aggregate, trans.unit, validity, repr(points)[:2000])
    ctx.sample({'relation': relation, 'unit': trans.unit, 'slots': trans.aggregate, 'points': len(points), 'items': len(base)})


CASES = {'related': {'run': related, 'quick': 2000, 'thorough': 30000}}
