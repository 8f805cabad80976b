from timeseria.datastructures import DataPoint, DataSlot, DataTimePoint, DataTimeSlot, Point, Series, TimeSeries
from timeseria.units import TimeUnit

from ..machine import Machine

RULE = ('random histories of 10-60 appends, insertions, assignments, removals, renames, duplications and slicings (valid and not) on '
        'point and slot series, against a plain list; non trivial: with at least 5 accepted and one refused operation, distinct by sequence of operations')
FLOORS = {'content_observations': 500, 'accepted': 300, 'rejections': 100, 'kinds_accepted': 500, 'kinds_refused': 500}


def history(ctx, rng, index):
    machine = Machine(ctx, rng, {'content'}).run(rng.randint(10, 60))
    if machine.accepted < 5 or machine.rejected < 1:
        ctx._sig = None
    ctx.sample(machine.log)


# Data which are the same kind of data, and can all stay in a series
KINDS = {'no labels': [{}, {}], 'a label': [{'a': 1}, {'a': 0}, {'a': None}], 'another': [{'b': 1}, {'b': 2.5}], 'two labels': [{'a': 1, 'b': 2}, {'b': 0, 'a': 0}],
         'empty list': [[], []], 'a list': [[0], [1.5]], 'longer list': [[1, 2], [0, 0]], 'integer': [0, 1, -1], 'float': [0.0, 1.5], 'string': ['', 'x'], 'boolean': [False, True]}


def kinds(ctx, rng, index):
    """Whatever the data of the first item is (also empty or zero), the others must have the same kind of data."""
    first = rng.choice(sorted(KINDS))
    item = rng.choice([lambda i, d: DataTimePoint(t=i * 60, data=d), lambda i, d: DataPoint(i, data=d), lambda i, d: DataTimeSlot(t=i * 60, unit=TimeUnit('1m'), data=d), lambda i, d: DataSlot(start=Point(i), end=Point(i + 1), data=d)])
    cls = TimeSeries if isinstance(item(0, 0), (DataTimePoint, DataTimeSlot)) else Series
    copied = lambda d: type(d)(d) if isinstance(d, (dict, list)) else d
    series = cls()
    reference = []
    n = rng.randint(1, 4)
    for i in range(10, 10 + n):
        x = item(i, copied(rng.choice(KINDS[first])))
        series.append(x)
        reference.append(x)
    for _ in range(rng.randint(2, 6)):
        kind = rng.choice([first, rng.choice(sorted(KINDS))])
        how = rng.choice(['append', 'append', 'insert', 'insert_last', 'set', 'add', 'pop'])
        d = copied(rng.choice(KINDS[kind]))
        what = '%s of an item with %s in %s %s with %s' % (how, kind, len(reference), type(reference[0]).__name__ if reference else 'items', first)
        low, high = (int(reference[0][0] if isinstance(reference[0], DataPoint) else reference[0].start[0]), int(reference[-1][0] if isinstance(reference[-1], DataPoint) else reference[-1].start[0]))
        if cls is TimeSeries:
            low, high = low // 60, high // 60
        try:
            if how in ('append', 'insert_last', 'add'):
                x = item(high + 1, d)
                (lambda: series.append(x), lambda: series.insert(len(series), x), lambda: series.__iadd__([x]))[('append', 'insert_last', 'add').index(how)]()
                new = reference + [x]
            elif how == 'insert':
                x = item(low - 1, d)
                series.insert(0, x)
                new = [x] + reference
            elif how == 'set':
                i = rng.randrange(len(reference))
                x = item(low + i, d)
                series[i] = x
                new = reference[:i] + [x] + reference[i + 1:]
            elif len(reference) > 1:
                i = rng.choice([0, -1])
                x = series.pop(i)
                ctx.check(x is reference[i], what + ': another item', 'pop')
                new = reference[1:] if i == 0 else reference[:-1]
            else:
                continue
            accepted = True
        except (TypeError, ValueError):
            accepted, new = False, reference
        ctx.check(accepted == (how == 'pop' or kind == first or (how == 'set' and len(reference) == 1)), lambda: what + (' was accepted' if accepted else ' was refused'), 'kind-accepted' if accepted else 'kind-refused')
        if accepted and how == 'set' and len(reference) == 1:
            first = kind
        reference = new
        ctx.check(len(series) == len(reference) and all(a is b for a, b in zip(series, reference)), what + ': wrong items', 'kind-items')
        ctx.count('kinds_accepted' if accepted else 'kinds_refused')
    ctx.sig(first, cls.__name__, n, [repr(x) for x in reference])


CASES = {'kinds': {'run': kinds, 'quick': 1500, 'thorough': 15000},
         'history': {'run': history, 'quick': 4000, 'thorough': 60000}}
