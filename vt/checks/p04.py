import random

from timeseria.datastructures import DataPoint, Series, Slot, TimeSeries
from timeseria.operations import slice as slice_operation

from .. import gen, obs

RULE = ('point and slot series (also irregular, at DST changes and before 1970) accessed and sliced by position, epoch and datetime with in range, out of range, '
        'inverted and missing bounds, against comprehensions on the plain list of items; distinct by series shape and bounds')
FLOORS = {'accesses': 500, 'slices': 500, 'empty_slices': 20, 'not_found': 50, 'steps': 500, 'summaries': 500, 'ambiguous': 300}


def expected_slice(items, from_t, to_t):
    if from_t is not None and to_t is not None and from_t >= to_t:
        return []
    out = []
    for item in items:
        start, end = (item.start.t, item.end.t) if isinstance(item, Slot) else (item.t, None)
        if from_t is not None and start < from_t:
            continue
        if to_t is not None and (end > to_t if end is not None else start >= to_t):
            break
        out.append(item)
    return out


def same(ctx, got, expected, what, mechanism):
    got = [x for x in got]
    ctx.check(len(got) == len(expected) and all(a is b for a, b in zip(got, expected)),
              lambda: '%s: got %s items instead of %s' % (what, len(got), len(expected)), mechanism,
              got=[str(x) for x in got][:5], expected=[str(x) for x in expected][:5])


def check_resolution(ctx, series, what):
    items = [x for x in series]
    if isinstance(items[0], Slot):
        ctx.check(str(series.resolution) == str(items[0].unit), '%s: wrong resolution' % what, 'slice-resolution')
    elif len(items) == 1:
        ctx.check(series.resolution is None, '%s: wrong resolution' % what, 'slice-resolution')
    else:
        diffs = set(b.t - a.t for a, b in zip(items, items[1:]))
        if len(diffs) > 1:
            ctx.check(series.resolution == 'variable', '%s: wrong resolution' % what, 'slice-resolution')
        else:
            ctx.check(abs(series.resolution.as_seconds() - diffs.pop()) < 1e-6, '%s: wrong resolution' % what, 'slice-resolution')


def positions(ctx, rng, index):
    series = gen.any_series(rng)
    items = [x for x in series]
    n = len(items)
    for _ in range(8):
        i = rng.randint(-n - 3, n + 3)
        ctx.count('accesses')
        for access in (lambda: series[i], lambda: series.get(at_i=i)):
            try:
                got = access()
            except IndexError:
                ctx.count('not_found')
                ctx.check(not -n <= i < n, 'IndexError for the valid position %s of %s items' % (i, n), 'get-i')
            else:
                ctx.check(-n <= i < n, 'got something for the invalid position %s of %s items' % (i, n), 'get-i')
                ctx.check(got is items[i], 'wrong item in position %s of %s' % (i, n), 'get-i')
    for _ in range(6):
        a = rng.choice([None, rng.randint(-n - 3, n + 3)])
        b = rng.choice([None, rng.randint(-n - 3, n + 3)])
        ctx.count('slices')
        expected = items[a:b]
        if not expected:
            ctx.count('empty_slices')
        got = series[a:b]
        same(ctx, got, expected, 'series[%s:%s] on %s items' % (a, b, n), 'slice-i')
        same(ctx, series.slice(from_i=a, to_i=b), expected, 'slice(%s,%s) on %s items' % (a, b, n), 'slice-i')
        ctx.check(isinstance(got, TimeSeries), 'not a series', 'slice-type')
        if expected:
            check_resolution(ctx, got, 'series[%s:%s]' % (a, b))
    for _ in range(3):
        a, b = [rng.choice([None, rng.randint(-n - 3, n + 3)]) for _ in range(2)]
        step = rng.choice([1, 2, 3, n + 1, -1, -2])
        expected = items[a:b:step]
        ctx.count('steps')
        try:
            got = series[a:b:step]
        except ValueError:
            # Items which are not in order, or not in succession
            fine = step > 0 and len(expected) > 1 and isinstance(items[0], Slot) and step > 1 or step < 0 and len(expected) > 1
            ctx.check(fine, lambda: 'series[%s:%s:%s] on %s items refused' % (a, b, step, n), 'slice-step')
        else:
            same(ctx, got, expected, 'series[%s:%s:%s] on %s items' % (a, b, step, n), 'slice-step')
            if expected:
                check_resolution(ctx, got, 'series[%s:%s:%s]' % (a, b, step))
    limit = rng.choice([None, 1, 2, 3, rng.randint(1, n + 3)])
    text = series.summary(**({} if limit is None else {'limit': limit}), newlines=rng.random() < 0.5)
    shown = 10 if limit is None else limit
    shown = items if shown >= n else items[:shown - shown // 2] + (items[-(shown // 2):] if shown // 2 else [])
    ctx.check(text.startswith(str(series)), 'wrong start of the summary', 'summary')
    body = text[len(str(series)):]
    ctx.check([i for i, x in enumerate(items) if str(x) in body] == [i for i, x in enumerate(items) if x in shown], lambda: 'summary(%s) of %s items shows %s' % (limit, n, [i for i, x in enumerate(items) if str(x) in body]), 'summary')
    ctx.count('summaries')
    k = rng.randint(0, n + 3)
    same(ctx, series.head(k), items[:k], 'head(%s)' % k, 'head')
    same(ctx, series.tail(k), items[-k:] if k else [], 'tail(%s)' % k, 'tail')
    same(ctx, series.contents(), items, 'contents', 'contents')
    j = rng.randrange(n)
    ctx.check(series.index(items[j]) == j, 'wrong index() for the item in position %s' % j, 'index')
    same(ctx, list(series), items, 'iteration', 'iteration')
    ctx.check(len(series) == n, 'the series changed while accessing it', 'pure')
    ctx.sig(n, obs.snap(series)['resolution'], i, a, b, items[0].__class__.__name__)


def by_time(ctx, rng, index):
    series = gen.any_series(rng)
    items = [x for x in series]
    zone = rng.choice(gen.ZONES)
    ts = [x.start.t if isinstance(x, Slot) else x.t for x in items]
    span = (ts[-1] - ts[0]) or 60
    def some_t():
        r = rng.random()
        if r < 0.45:
            return rng.choice(ts)
        if r < 0.6:
            item = rng.choice(items)
            return item.end.t if isinstance(item, Slot) else item.t
        if r < 0.8:
            return ts[0] + round(rng.random() * span * 4) / 4
        return rng.choice([ts[0] - 0.5, ts[-1] + 0.5, ts[0] - span, ts[-1] + 10 * span])
    for _ in range(6):
        t = some_t()
        expected = [x for x, xt in zip(items, ts) if xt == t]
        ctx.count('accesses')
        accesses = [lambda: series.get(at_t=t), lambda: series[float(t)], lambda: series.get(at_dt=gen.from_epoch(t, zone)), lambda: series[gen.from_epoch(t, zone)]]
        for k, access in enumerate(accesses):
            try:
                got = access()
            except ValueError:
                ctx.count('not_found')
                ctx.check(not expected, 'item @ %s not found (access %s)' % (t, k), 'get-t')
            else:
                ctx.check(expected and got is expected[0], 'wrong item for t=%s (access %s): %s' % (t, k, got), 'get-t')
    for _ in range(6):
        a = rng.choice([None, some_t(), some_t()])
        b = rng.choice([None, some_t(), some_t()])
        if a is None and b is None:
            continue
        expected = expected_slice(items, a, b)
        ctx.count('slices')
        if not expected:
            ctx.count('empty_slices')
        da = None if a is None else gen.from_epoch(a, zone)
        db = None if b is None else gen.from_epoch(b, zone)
        fa = None if a is None else float(a)
        fb = None if b is None else float(b)
        same(ctx, series.slice(from_t=a, to_t=b), expected, 'slice(from_t=%s,to_t=%s)' % (a, b), 'slice-t')
        same(ctx, series[fa:fb], expected, 'series[%s:%s]' % (fa, fb), 'slice-t')
        same(ctx, series.slice(from_dt=da, to_dt=db), expected, 'slice(from_dt=%s,to_dt=%s)' % (da, db), 'slice-dt')
        got = series[da:db]
        same(ctx, got, expected, 'series[%s:%s]' % (da, db), 'slice-dt')
        if expected:
            check_resolution(ctx, got, 'series[%s:%s]' % (da, db))
    # Ambiguous requests are refused
    t = rng.choice(ts)
    dt = gen.from_epoch(t, zone)
    refused = [lambda: series.get(at_i=0, at_t=t), lambda: series.get(at_t=t, at_dt=dt), lambda: series.get(),
               lambda: series.slice(from_i=0, from_t=t), lambda: series.slice(to_t=t, to_dt=dt), lambda: series.slice(from_i=0, to_t=t), lambda: series.slice(from_t=t, to_i=1)]
    for k, function in enumerate(refused):
        ctx.check(ctx.raises(function, ValueError) is not None, 'ambiguous request %s not refused' % k, 'ambiguous')
    ctx.sig(len(items), ts[0], ts[-1], str(items[0].__class__), zone)
    ctx.sample({'series': repr(series), 'zone': zone})


def ambiguous(ctx, rng, index):
    """Bounds given in more than one way, of the wrong type or on series with no time are refused."""
    series = gen.any_series(rng, n=rng.choice([1, 3, 6]))
    before = obs.snap(series)
    t, d = series[0].t, (series[0].dt if hasattr(series[0], 'dt') else series[0].start.dt)
    end = rng.choice(['from', 'to'])
    other = 'to' if end == 'from' else 'from'
    ways = {'_i': 0, '_t': t, '_dt': d}
    what = rng.choice(['two', 'three', 'type', 'get-two', 'get-none', 'no-time'])
    if what in ('two', 'three'):
        kwargs = {end + k: ways[k] for k in rng.sample(list(ways), 2 if what == 'two' else 3)}
        if rng.random() < 0.3:
            k = rng.choice(list(ways))
            kwargs[other + k] = {'_i': 1, '_t': t + 10 ** 6, '_dt': d}[k]
        function = lambda: series.slice(**kwargs)
    elif what == 'type':
        kwargs = rng.choice([{end + '_i': 1.0}, {end + '_i': '1'}, {end + '_t': str(t)}, {end + '_t': d}, {end + '_dt': t}, {end + '_dt': '2020-01-01'}, {end + '_i': d}])
        function = lambda: series.slice(**kwargs)
    elif what == 'get-two':
        kwargs = {'at' + k: ways[k] for k in rng.sample(list(ways), rng.randint(2, 3))}
        function = lambda: series.get(**kwargs)
    elif what == 'get-none':
        kwargs = {}
        function = lambda: series.get()
    else:
        plain = Series(*[DataPoint(i, data={'a': i}) for i in range(4)])
        kwargs = {end + '_t': 1}
        function = lambda: slice_operation(plain, **kwargs)
    error = ctx.raises(function)
    ctx.count('ambiguous')
    ctx.check(isinstance(error, (ValueError, TypeError)), lambda: 'slicing or getting with %s gave %r' % (kwargs, error), 'ambiguous-' + what)
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'a refused slice changed the series', 'ambiguous-pure')
    ctx.sig('ambiguous', what, sorted(kwargs), repr(before)[:300])


CASES = {'positions': {'run': positions, 'quick': 3000, 'thorough': 40000},
         'by_time': {'run': by_time, 'quick': 3000, 'thorough': 40000},
         'ambiguous': {'run': ambiguous, 'quick': 900, 'thorough': 9000}}
