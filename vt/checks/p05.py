from timeseria.datastructures import Slot, TimeSeries, TimeSeriesView

from .. import gen, obs

RULE = ('views (also of views) with random, missing, negative and exceeding bounds on point and slot series, compared with the sub-list under indexing, slicing, '
        'simple and nested iteration, scalar operations, materialisation and growth of the underlying series; distinct by length and bounds')
FLOORS = {'views': 300, 'nested_views': 50, 'out_of_range': 200}


def check_view(ctx, rng, view, expected, series, what):
    n = len(expected)
    ctx.count('views')
    ctx.check(len(view) == n, lambda: '%s: length %s instead of %s' % (what, len(view), n), 'len')
    got = [x for x in view]
    ctx.check(len(got) == n and all(a is b for a, b in zip(got, expected)), '%s: wrong items' % what, 'iteration')
    if n == 0:
        return
    # Nested and interrupted iterations
    if n <= 8:
        pairs = [(id(a), id(b)) for a in view for b in view]
        ctx.check(pairs == [(id(a), id(b)) for a in expected for b in expected], '%s: wrong nested iteration' % what, 'nested-iteration')
    one = iter(view)
    first = next(one)
    two = [x for x in view]
    rest = [x for x in one]
    ctx.check(len(two) == n and len(rest) == n - 1 and first is expected[0] and all(a is b for a, b in zip(rest, expected[1:])), '%s: iterations not independent' % what, 'nested-iteration')
    for i in set([0, n - 1, -1, -n, n, -n - 1, n + 1, rng.randint(-n - 3, n + 3)]):
        for k, access in enumerate((lambda: view[i], lambda: view.get(at_i=i))):
            try:
                item = access()
            except IndexError:
                ctx.count('out_of_range')
                ctx.check(not -n <= i < n, '%s: IndexError for the valid position %s of %s' % (what, i, n), 'get')
            else:
                ctx.check(-n <= i < n and item is expected[i], '%s: position %s of %s returned %s' % (what, i, n, item), 'get')
    for _ in range(4):
        a, b = [rng.choice([None, rng.randint(-n - 3, n + 3)]) for _ in range(2)]
        sliced = [x for x in view[a:b]]
        ctx.check(len(sliced) == len(expected[a:b]) and all(x is y for x, y in zip(sliced, expected[a:b])), '%s: slice %s:%s is wrong' % (what, a, b), 'slice')
        step = rng.choice([2, 3])
        try:
            sliced = [x for x in view[a:b:step]]
        except ValueError:
            ctx.check(isinstance(expected[0], Slot) and len(expected[a:b:step]) > 1, '%s: slice %s:%s:%s refused' % (what, a, b, step), 'slice-step')
        else:
            ctx.check(len(sliced) == len(expected[a:b:step]) and all(x is y for x, y in zip(sliced, expected[a:b:step])), '%s: slice %s:%s:%s is wrong' % (what, a, b, step), 'slice-step')
    for k in (0, 1, rng.randint(0, n + 2)):
        for name, got, want in (('head', view.head(k), expected[:k]), ('tail', view.tail(k), expected[-k:] if k else [])):
            ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), '%s: %s(%s) is wrong' % (what, name, k), name)
    ctx.check(view.item_type is series.item_type and str(view.resolution) == str(series.resolution) and view.data_labels() == series.data_labels(),
              '%s: type, resolution or labels differ from the ones of the series' % what, 'attributes')
    label = obs.labels_of(expected[0])[0]
    column = [obs.value(x, label) for x in expected]
    ctx.check(view.min()[label] == min(column) and view.max()[label] == max(column) and obs.close(view.sum()[label], sum(column), abs_=1e-6),
              '%s: wrong scalar operations' % what, 'operations')


def view(ctx, rng, index):
    series = gen.any_series(rng, n=rng.choice([1, 2, 3, 4, 6, 9, 20]))
    items = [x for x in series]
    n = len(items)
    before = obs.snap(series)
    def bound():
        return rng.choice([None, rng.randint(0, n), rng.randint(0, n), rng.randint(-n - 3, n + 4)])
    a, b = bound(), bound()
    the_view = series.view(a, b) if rng.random() < 0.5 else TimeSeriesView(series=series, from_i=a, to_i=b)
    expected = items[a:b]
    what = 'view(%s,%s) of %s items' % (a, b, n)
    check_view(ctx, rng, the_view, expected, series, what)
    c = d = None
    if expected:
        m = len(expected)
        c, d = sorted([rng.randint(0, m), rng.randint(0, m)])
        nested = the_view.view(c, d)
        ctx.count('nested_views')
        check_view(ctx, rng, nested, expected[c:d], series, 'view(%s,%s) of %s' % (c, d, what))
        materialized = the_view.materialize() if rng.random() < 0.5 else the_view.duplicate()
        ctx.check(obs.snap_content(materialized) == [obs.snap_item(x) for x in expected], '%s: wrong materialisation' % what, 'materialize')
        ctx.check(all(x is not y and x.data is not y.data for x, y in zip(materialized, expected)), '%s: the materialisation is not a copy' % what, 'materialize')
    d = obs.diff(before, obs.snap(series))
    ctx.check(d is None, lambda: '%s changed the series: %s' % (what, d), 'pure')
    # If the series grows, the view stays the same
    if expected and not hasattr(items[0], 'start'):
        series.append(gen.point(items[-1].t + 60, gen.data(rng, obs.labels_of(items[0]) if isinstance(items[0].data, dict) else items[0].data, isinstance(items[0].data, list))))
        got = [x for x in the_view]
        ctx.check(len(got) == len(expected) == len(the_view) and all(x is y for x, y in zip(got, expected)), '%s: affected by the growth of the series' % what, 'growth')
    ctx.sig(n, a, b, c, d, items[0].__class__.__name__)
    ctx.sample({'series': n, 'view': (a, b), 'nested': (c, d)})


def empty_view_index(ctx, rng, index):
    """Dedicated probe: no item can be obtained from an empty view."""
    series = gen.point_series(rng, n=5)
    the_view = series.view(0, 0)
    for i in (0, -1):
        e = ctx.raises(lambda: the_view[i], IndexError)
        ctx.check(e is not None, 'an empty view returned an item of the series', 'empty-view-index')


CASES = {'view': {'run': view, 'quick': 4000, 'thorough': 60000},
         'empty_view_index': {'run': empty_view_index, 'quick': 1, 'thorough': 1}}
