import math

from timeseria import operations
from timeseria.datastructures import TimeSeries

from .. import gen, obs

RULE = ('minimum, maximum, sum and average of generated series, slices and views (as method and as function, for all labels and for one), judged against exact sums '
        'of the values actually held by the items; distinct by content')
FLOORS = {'scalars': 3000, 'on_views': 100, 'rejections': 100}
TRICKY = [0, -0.0, 1e15, -1e15, 1e-12, 0.1, 0.2, 0.3, 5, -5, True, 2**53]


def scalars(ctx, rng, index):
    flat = rng.random() < 0.2
    values = (lambda i, t: {'a': rng.choice(TRICKY), 'b': rng.choice([7, 7.5])}) if flat else None
    series = gen.any_series(rng, values=values, index_names=rng.choice([(), ('data_loss',)]))
    kind = rng.random()
    if kind < 0.2 and len(series) > 2:
        i = rng.randint(0, len(series) - 2)
        series = series.view(i, rng.randint(i + 1, len(series)))
        ctx.count('on_views')
    elif kind < 0.3 and len(series) > 2:
        series = series[1:]
    before = obs.snap(series)
    labels = series.data_labels()
    ctx.check(sorted(labels) == obs.labels_of(series[0]), 'wrong data labels', 'labels')
    for name in rng.sample(['min', 'max', 'sum', 'avg'], 4):
        got = getattr(series, name)() if rng.random() < 0.5 else getattr(operations, name)(series)
        ctx.count('scalars')
        ctx.check(isinstance(got, dict) and sorted(got) == sorted(labels), lambda: '%s gave %r for labels %s' % (name, got, labels), 'scalar-labels')
        for label in labels:
            column = [x for x in obs.column(series, label)]
            exact = math.fsum(column)
            want = {'min': lambda: min(column), 'max': lambda: max(column), 'sum': lambda: exact, 'avg': lambda: exact / len(column)}[name]()
            tolerance = 0 if name in ('min', 'max') else 1e-12 * math.fsum(abs(x) for x in column) + 1e-12
            ctx.check(abs(got[label] - want) <= tolerance, lambda: '%s of %s is %r instead of %r' % (name, label, got[label], want), 'scalar-' + name)
            one = getattr(series, name)(data_label=label)
            ctx.check(one == got[label], lambda: '%s for one label is %r instead of %r' % (name, one, got[label]), 'scalar-one-label')
    error = ctx.raises(lambda: series.sum(data_label='not there'))
    ctx.check(error is not None, 'a label which does not exist gave a value', 'scalar-no-label')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'a scalar operation changed the series', 'scalar-pure')
    ctx.sig(repr(before)[:3000])


def empty(ctx, rng, index):
    series = TimeSeries()
    if rng.random() < 0.5:
        series = gen.any_series(rng, n=2)
        series.clear() if rng.random() < 0.5 else [series.pop() for _ in range(2)]
    for name in ('min', 'max', 'sum', 'avg'):
        error = ctx.raises(lambda: getattr(series, name)())
        ctx.count('rejections')
        ctx.check(isinstance(error, ValueError), lambda: '%s of an empty series gave %r' % (name, error), 'scalar-empty')
    ctx.sig('empty', index % 7)


CASES = {'scalars': {'run': scalars, 'quick': 4000, 'thorough': 60000},
         'empty': {'run': empty, 'quick': 60, 'thorough': 200}}
