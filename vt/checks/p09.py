import math

from timeseria import operations
from timeseria.datastructures import Slot

from .. import gen, obs, ref

RULE = ('derivatives, differences, integrals, cumulative sums, moving averages, normalizations, rescalings and offsets of generated point and slot series (also views; fixed and '
        'variable resolution; dict and list data; in place and not) against reference models on plain lists, plus their identities; distinct by operation and content')
FLOORS = {'derivative': 100, 'diff': 100, 'integral': 100, 'csum': 100, 'mavg': 100, 'normalize': 100, 'rescale': 100, 'offset': 100,
          'in_place': 300, 'identities': 300, 'variable_resolution': 100, 'rejections': 50, 'options': 300, 'options_offset': 100}
FIXED = ['1s', '30s', '1m', '15m', '1h', '6h']


def source(rng, irregular=None):
    if rng.random() < 0.65:
        return gen.point_series(rng, n=rng.choice([2, 3, 4, 7, 12, 25]), irregular=irregular, index_names=rng.choice([(), ('data_loss',), ('data_loss', 'forecast')]))
    unit = rng.choice(FIXED)
    return gen.slot_series(rng, n=rng.choice([2, 3, 4, 7, 12]), unit=unit, index_names=rng.choice([(), ('data_loss',), ('data_loss', 'forecast')]))


def ts(series):
    return [x.t for x in series]


def dts(series):
    t = ts(series)
    if isinstance(series[0], Slot):
        return [x.end.t - x.start.t for x in series][:-1]
    return [b - a for a, b in zip(t, t[1:])]


def expected(name, series, args):
    """Per label: the (new label, values) and the position of the first item."""
    out = {}
    d = dts(series)
    skip = 0
    for label in series.data_labels():
        x = obs.column(series, label)
        if name == 'derivative':
            out[label + '_derivative'] = ref.derivative(x, d)
        elif name == 'diff':
            out[label + '_diff'] = ref.diffs(x)
            skip = 1
        elif name == 'integral':
            c = args.get('c', 0)
            out[label + '_integral'] = ref.integral(x, d, c[label] if isinstance(c, dict) else c)
        elif name == 'csum':
            out[label + '_csum'] = ref.csum(x)
        elif name == 'mavg':
            out[label + '_mavg_%s' % args['window']] = ref.mavg(x, args['window'])
            skip = args['window'] - 1
        elif name == 'normalize':
            low, high = args.get('range', [0, 1])
            out[label] = ref.normalize(x, low, high, args['source_range'][label] if 'source_range' in args else None)
        elif name in ('rescale', 'offset'):
            v = args['value']
            if isinstance(v, dict):
                v = v.get(label, 1 if name == 'rescale' else 0)
            out[label] = [a * v if name == 'rescale' else a + v for a in x]
    return out, skip


def arguments(rng, name, series):
    labels = series.data_labels()
    if name == 'integral':
        return rng.choice([{}, {}, {'c': 5}, {'c': rng.choice([0, 1, -1, 0.25])}, {'c': {label: rng.randint(-9, 9) for label in labels}}])
    if name == 'mavg':
        return {'window': rng.randint(1, len(series))}
    if name == 'normalize':
        args = {}
        if rng.random() < 0.4:
            args['range'] = rng.choice([[-1, 1], [0.5, 1.5], [10, 20], [1, 0], rng.sample([-100, -10, -1, 0, 0.5, 1, 2, 3, 100], 2), [rng.choice([0, 1, 0.0]), rng.choice([2, 3, 0.5, 10, 100])]])
        if rng.random() < 0.3:
            args['source_range'] = rng.choice([{label: [-100 - i, 150 + i] for i, label in enumerate(labels)}, {label: [0, rng.choice([1, 2, 10])] for label in labels}, {label: rng.sample([-200, -1, 0, 1, 2, 300], 2) for label in labels}])
        return args
    if name in ('rescale', 'offset'):
        kind = rng.random()
        if kind < 0.5:
            return {'value': rng.choice([2, -1, 0, 1, 0.5, 1000, 3, -2.5])}
        return {'value': {label: rng.choice([2, -1, 0, 1, 0.5, 3]) for label in labels if rng.random() < 0.7}}
    return {}


def column(series, labels, position, keyvalue):
    return [x.data[labels[position]] if keyvalue else x.data[position] for x in series]


def tolerance(x):
    return 1e-9 * max([1] + [abs(v) for v in x])


def near(got, want, scale):
    return len(got) == len(want) and all(abs(a - b) <= scale for a, b in zip(got, want))


def operation(ctx, rng, index):
    name = rng.choice(['derivative', 'diff', 'integral', 'csum', 'mavg', 'normalize', 'rescale', 'offset'])
    series = source(rng)
    if rng.random() < 0.15 and len(series) > 4 and not isinstance(series[0], Slot):
        full = series
        i = rng.randint(0, 1)
        candidate = full.view(i, rng.randint(i + 3, len(full)))
        # The resolution of a view is the one of its series
        series = candidate
        ctx.count('on_views')
    if rng.random() < 0.3:
        repr(series)
    variable = series.resolution == 'variable'
    args = arguments(rng, name, series)
    labels = series.data_labels()
    keyvalue = isinstance(series[0].data, dict)
    if variable:
        ctx.count('variable_resolution')
    if name in ('diff', 'csum') and variable:
        error = ctx.raises(lambda: getattr(series, name)())
        ctx.check(isinstance(error, ValueError), lambda: '%s on a variable resolution series gave %r' % (name, error), name + '-variable')
        ctx.count('rejections')
        return
    if name == 'normalize' and 'source_range' not in args and any(max(obs.column(series, l)) == min(obs.column(series, l)) for l in labels):
        return
    before = obs.snap(series)
    scale_in = [abs(v) for l in labels for v in obs.column(series, l)]
    want, skip = expected(name, series, args)
    want_labels = list(want)
    wants = [want[l] for l in want_labels]
    n = len(series)
    source_items = list(series)
    got = getattr(series, name)(**args) if rng.random() < 0.6 else getattr(operations, name)(series, **args)
    ctx.count(name)
    ctx.check(obs.diff(before, obs.snap(series)) is None, lambda: '%s changed the series: %s' % (name, obs.diff(before, obs.snap(series))), name + '-pure')
    ctx.check(isinstance(got, type(series)) and len(got) == n - skip, lambda: '%s gave %s items of %s' % (name, len(got), n), name + '-length')
    if keyvalue:
        ctx.check(sorted(got[0].data) == sorted(want_labels), lambda: '%s gave labels %s instead of %s' % (name, sorted(got[0].data), sorted(want_labels)), name + '-labels')
    eps = 1e-8 * max([1] + scale_in + [abs(v) for w in wants for v in w])
    for position, label in enumerate(labels):
        values = column(got, want_labels, position, keyvalue)
        ctx.check(near(values, wants[position], eps), lambda: '%s of %s gave %s instead of %s' % (name, label, values[:8], wants[position][:8]), name + '-values', args=args, t=ts(series)[:8])
    for item, origin in zip(got, source_items[skip:]):
        a, b = obs.snap_item(item), obs.snap_item(origin)
        a.pop('data'), b.pop('data')
        if name == 'mavg':
            a.pop('indexes'), b.pop('indexes')
        d = obs.diff(b, a)
        ctx.check(d is None, lambda: '%s moved an item or altered its indexes: %s' % (name, d), name + '-items')

    # In place, on an independent copy
    if name in ('diff', 'mavg'):
        error = ctx.raises(lambda: getattr(series, name)(inplace=True, **args))
        ctx.check(isinstance(error, NotImplementedError), lambda: '%s in place gave %r' % (name, error), name + '-inplace')
    elif type(series).__name__ == 'TimeSeries':
        other = series.duplicate()
        result = getattr(other, name)(inplace=True, **args)
        ctx.count('in_place')
        ctx.check(result is None and len(other) == n, 'wrong result for %s in place' % name, name + '-inplace')
        for position, label in enumerate(labels):
            values = column(other, want_labels, position, keyvalue)
            ctx.check(near(values, wants[position], eps), lambda: '%s in place of %s gave %s instead of %s' % (name, label, values[:8], wants[position][:8]), name + '-inplace-values')
            if keyvalue and want_labels[position] != label:
                ctx.check(obs.column(other, label) == obs.column(series, label), lambda: '%s in place altered the original data' % name, name + '-inplace-original')
        if keyvalue:
            allowed = set(labels) | set(want_labels)
            ctx.check(set(other[0].data) == allowed, lambda: '%s in place gave labels %s' % (name, sorted(other[0].data)), name + '-inplace-labels')
    ctx.sig(name, repr(args), repr(before)[:2000])
    ctx.sample({'operation': name, 'args': args, 'series': repr(series)})


def identities(ctx, rng, index):
    series = source(rng, irregular=rng.choice([0, 0.3]))
    labels = series.data_labels()
    keyvalue = isinstance(series[0].data, dict)
    columns = [obs.column(series, l) for l in labels]
    # The recurrence of the integral amplifies rounding linearly with the position
    eps = 1e-7 * max([1] + [abs(v) for x in columns for v in x])
    # The integral of the derivative gives the series back, given the first value
    c = {('%s_derivative' % l if keyvalue else l): x[0] for l, x in zip(labels, columns)}
    back = series.derivative().integral(c=c)
    ctx.count('identities')
    names = ['%s_derivative_integral' % l for l in labels]
    for p, x in enumerate(columns):
        got = column(back, names, p, keyvalue)
        ctx.check(near(got, x, eps), lambda: 'the integral of the derivative of %s is %s' % (x[:8], got[:8]), 'integral-of-derivative', t=ts(series)[:10])
    if series.resolution != 'variable':
        # The cumulative sum of the differences as well, with the first value as offset
        first = {('%s_diff' % l if keyvalue else l): x[0] for l, x in zip(labels, columns)}
        if len(series) > 2 or isinstance(series[0], Slot):
            diff = series.diff()
            offset = first if keyvalue else None
            if keyvalue and any(v != 0 for v in first.values()):
                back = diff.csum(offset=offset)
                names = ['%s_diff_csum' % l for l in labels]
                ctx.check(ts(back) == ts(series) or all(abs(a - b) < 1e-6 for a, b in zip(ts(back), ts(series))), lambda: 'cumulative sums from an offset at %s instead of %s' % (ts(back)[:4], ts(series)[:4]), 'csum-offset-times')
                for p, x in enumerate(columns):
                    got = column(back, names, p, keyvalue)
                    ctx.check(near(got, x, eps), lambda: 'the cumulative sum of the differences of %s is %s' % (x[:8], got[:8]), 'csum-of-diff')
    # Rescaling and offsetting can be reverted
    k = rng.choice([2, -4, 0.5])
    back = series.rescale(k).rescale(1 / k).offset(k).offset(-k)
    for p, x in enumerate(columns):
        got = column(back, labels, p, keyvalue)
        ctx.check(near(got, x, eps), 'rescaling and offsetting back does not give the series back', 'rescale-offset-back')
    # Normalizing is bounded, monotonic and hits the bounds
    if all(max(x) > min(x) for x in columns):
        normalized = series.normalize()
        for p, x in enumerate(columns):
            got = column(normalized, labels, p, keyvalue)
            ordered = [got[i] for i in sorted(range(len(x)), key=lambda i: x[i])]
            ctx.check(abs(min(got)) <= 1e-9 and abs(max(got) - 1) <= 1e-9 and all(b >= a - 1e-9 for a, b in zip(ordered, ordered[1:])),
                      lambda: 'normalizing %s gave %s' % (x[:8], got[:8]), 'normalize-monotonic')
    ctx.sig('identities', repr(obs.snap(series))[:2000])


def rejections(ctx, rng, index):
    one = gen.any_series(rng, n=1)
    series = source(rng)
    for what, function in [('derivative of one item', lambda: one.derivative()), ('diff of one item', lambda: one.diff()),
                           ('moving average on 0', lambda: series.mavg(0)), ('moving average on -1', lambda: series.mavg(-1)),
                           ('derivative of no items', lambda: type(one)().derivative()), ('csum of no items', lambda: type(one)().csum()),
                           ('offset of no items', lambda: type(one)().offset(1)), ('normalize of no items', lambda: type(one)().normalize())]:
        error = ctx.raises(function)
        ctx.count('rejections')
        ctx.check(isinstance(error, ValueError), lambda: '%s gave %r' % (what, error), 'operation-rejection')
    ctx.sig('rejections', index % 9)


def one_item(ctx, rng, index):
    series = gen.any_series(rng, n=1)
    if isinstance(series[0], Slot):
        series = gen.slot_series(rng, n=1, unit=rng.choice(FIXED))
    labels = series.data_labels()
    keyvalue = isinstance(series[0].data, dict)
    x = [obs.column(series, l)[0] for l in labels]
    c = rng.choice([0, 4])
    todo = [('csum', lambda: series.csum(), '_csum', x), ('rescale', lambda: series.rescale(2), '', [2 * v for v in x]),
            ('offset', lambda: series.offset(3), '', [v + 3 for v in x]), ('mavg', lambda: series.mavg(1), '_mavg_1', x)]
    if isinstance(series[0], Slot):
        todo.append(('integral', lambda: series.integral(c=c), '_integral', [c] * len(x)))
    for name, function, postfix, want in todo:
        got = function()
        ctx.check(len(got) == 1 and got[0].t == series[0].t, lambda: '%s of one item gave %s items' % (name, len(got)), 'one-item')
        values = [got[0].data[l + postfix] if keyvalue else got[0].data[i] for i, l in enumerate(labels)]
        ctx.check(all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(values, want)), lambda: '%s of one item with %s gave %s' % (name, x, values), 'one-item')
    ctx.count('one_item')
    ctx.sig('one', repr(obs.snap(series))[:500])


def options(ctx, rng, index):
    """The options of derivatives and integrals which are not those of the differences and of the cumulative sums."""
    series = source(rng)
    if isinstance(series[0], Slot) is False and len(series) < 2:
        return
    labels = series.data_labels()
    columns = [obs.column(series, l) for l in labels]
    keyvalue = isinstance(series[0].data, dict)
    variable = series.resolution == 'variable'
    eps = 1e-8 * max([1] + [abs(v) for x in columns for v in x])
    t, d = ts(series), dts(series)
    before = obs.snap(series)

    def values(result, postfix, position):
        return [item.data['%s_%s' % (labels[position], postfix)] if keyvalue else item.data[position] for item in result]

    # Slopes with respect to the previous item only
    got = series.derivative(diffs=True)
    ctx.check(ts(got) == t[1:], lambda: 'the left derivative is at %s instead of %s' % (ts(got)[:5], t[1:6]), 'left-derivative-times')
    for p, x in enumerate(columns):
        want = [(b - a) / s for a, b, s in zip(x, x[1:], d)]
        ctx.check(near(values(got, 'derivative', p), want, eps), lambda: 'the left derivative of %s is %s instead of %s' % (x[:6], values(got, 'derivative', p)[:6], want[:6]), 'left-derivative', t=t[:8])
    # Increments not normalized for the time
    got = series.derivative(normalize=False)
    ctx.check(ts(got) == t, 'the increments are not at the times of the items', 'increments-times')
    for p, x in enumerate(columns):
        want = ref.derivative(x, [1] * (len(x) - 1))
        ctx.check(near(values(got, 'diff', p), want, eps), lambda: 'the increments of %s are %s instead of %s' % (x[:6], values(got, 'diff', p)[:6], want[:6]), 'increments')
    got = series.integral(normalize=False)
    for p, x in enumerate(columns):
        ctx.check(ts(got) == t and near(values(got, 'csum', p), ref.csum(x), eps * len(x)), lambda: 'the not normalized integral of %s is %s' % (x[:6], values(got, 'csum', p)[:6]), 'integral-not-normalized')
    error = ctx.raises(lambda: series.derivative(diffs=True, inplace=True))
    ctx.check(isinstance(error, NotImplementedError), lambda: 'the left derivative in place gave %r' % error, 'left-derivative-inplace')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'the derivatives and integrals changed the series', 'options-pure')
    ctx.count('options')

    # Starting from an offset adds an item before, holding it
    if not variable:
        offset = rng.choice([5, -2.5, 100])
        per_label = [offset] * len(labels)
        if keyvalue and rng.random() < 0.6:
            per_label = [rng.choice([3, -7, 0.5, 0]) for _ in labels]
            offset = dict(zip(labels, per_label))
        step = d[0] if d else (series[0].end.t - series[0].start.t)
        for postfix, got, plain in [('csum', series.csum(offset=offset), [ref.csum(x, v) for x, v in zip(columns, per_label)]),
                                    ('integral', series.integral(offset=offset), [ref.integral(x, d, v) for x, v in zip(columns, per_label)])]:
            ctx.check(len(got) == len(t) + 1 and abs(got[0].t - (t[0] - step)) < 1e-5 and ts(got)[1:] == t, lambda: 'the %s with an offset is at %s instead of one item before %s' % (postfix, ts(got)[:4], t[:4]), 'offset-times')
            ctx.check(got[0].data_loss == 0, lambda: 'the added item has data loss %s' % got[0].data_loss, 'offset-item')
            ctx.check([str(i.tz) for i in got] == [str(series[0].tz)] + [str(i.tz) for i in series], lambda: 'time zones %s instead of those of %s' % ([repr(i.tz) for i in got][:4], [repr(i.tz) for i in series][:4]), 'offset-item')
            for p, x in enumerate(columns):
                want = [per_label[p]] + plain[p]
                ctx.check(near(values(got, postfix, p), want, eps * len(x) * max([1] + d)), lambda: 'the %s from %s of %s is %s instead of %s' % (postfix, per_label[p], x[:6], values(got, postfix, p)[:6], want[:6]), 'offset-values')
        other = series.duplicate() if type(series).__name__ == 'TimeSeries' else None
        if other is not None:
            error = ctx.raises(lambda: rng.choice([other.csum, other.integral])(offset=offset, inplace=True))
            ctx.check(isinstance(error, ValueError) and obs.diff(before, obs.snap(other)) is None, lambda: 'an offset in place gave %r' % error, 'offset-inplace')
        ctx.count('options_offset')
    ctx.sig('options', repr(before)[:2000])


CASES = {'operation': {'run': operation, 'quick': 6000, 'thorough': 90000},
         'identities': {'run': identities, 'quick': 2500, 'thorough': 40000},
         'options': {'run': options, 'quick': 1000, 'thorough': 20000},
         'one_item': {'run': one_item, 'quick': 300, 'thorough': 3000},
         'rejections': {'run': rejections, 'quick': 60, 'thorough': 200}}
