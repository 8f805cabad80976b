"""Series which are not time series: of numbers, strings, dates, points, slots or anything else which can be ordered or follow one another."""
import datetime as _dt

from timeseria.datastructures import (DataPoint, DataSlot, DataTimePoint, DataTimeSlot, Point, Series, Slot, TimePoint, TimeSlot)
from timeseria.units import TimeUnit, Unit

from .. import gen, obs

RULE = ('random histories of changes (accepted and refused) on series of numbers, strings, dates, tuples, points, slots and custom objects, with and without data, each compared after every step '
        'with a list following the same rules, then random accesses, slices, scalar operations, filters and slot operations compared with the same on the list; distinct by family and history')
FLOORS = {'steps': 15000, 'refused': 4000, 'accepted': 6000, 'slices': 3000, 'scalars': 800, 'filters': 300, 'operations': 300, 'renames': 200, 'succession': 3000, 'objects': 1000, 'duplicates': 500}


class Step():
    """Something following something else."""
    def __init__(self, n):
        self.n = n

    def __succedes__(self, other):
        return self.n == other.n + 3

    def __eq__(self, other):
        return isinstance(other, Step) and self.n == other.n

    def __repr__(self):
        return 'Step(%s)' % self.n


class Level():
    """Something which can be ordered."""
    def __init__(self, n, data=None):
        self.n = n
        if data is not None:
            self.data = data

    def __gt__(self, other):
        return self.n > other.n

    def __eq__(self, other):
        return isinstance(other, Level) and self.n == other.n

    def __repr__(self):
        return 'Level(%s)' % self.n


DAY = _dt.date(2019, 12, 20)
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
# Name: (builder by key and data, in succession, with data)
FAMILIES = {
    'int': (lambda k, d: k, False, False),
    'float': (lambda k, d: k / 3, False, False),
    'string': (lambda k, d: LETTERS[(k + 400) // 26 % 26] + LETTERS[(k + 400) % 26] * 2, False, False),
    'date': (lambda k, d: DAY + _dt.timedelta(days=k), False, False),
    'tuple': (lambda k, d: (k // 4, k % 4), False, False),
    'Level': (lambda k, d: Level(k), False, False),
    'Level with data': (lambda k, d: Level(k, d), False, True),
    'Step': (lambda k, d: Step(3 * k), True, False),
    'Point': (lambda k, d: Point(k * 2), False, False),
    'TimePoint': (lambda k, d: TimePoint(t=k * 60), False, False),
    'DataPoint': (lambda k, d: DataPoint(k * 0.5, data=d), False, True),
    'DataTimePoint': (lambda k, d: DataTimePoint(t=k * 600, data=d, data_loss=0.25), False, True),
    'Slot': (lambda k, d: Slot(start=Point(k * 2), end=Point(k * 2 + 2)), True, False),
    'Slot with unit': (lambda k, d: Slot(start=Point(k * 5), unit=Unit(5)), True, False),
    'two dimensional Slot': (lambda k, d: Slot(start=Point(k * 2, k), end=Point(k * 2 + 2, k + 1)), True, False),
    'TimeSlot': (lambda k, d: TimeSlot(start=TimePoint(t=k * 3600), unit=TimeUnit('1h')), True, False),
    'DataSlot': (lambda k, d: DataSlot(start=Point(k * 2), end=Point(k * 2 + 2), data=d), True, True),
    'DataSlot with unit': (lambda k, d: DataSlot(start=Point(k * 0.5), unit=Unit(0.5), data=d, data_loss=0.5), True, True),
    'two dimensional DataSlot': (lambda k, d: DataSlot(start=Point(k, k * 3), end=Point(k + 1, k * 3 + 3), data=d), True, True),
    'DataTimeSlot': (lambda k, d: DataTimeSlot(start=TimePoint(t=k * 600), end=TimePoint(t=k * 600 + 600), data=d), True, True),
}
ORDERED = sorted(FAMILIES)
NUMERIC = ('DataPoint', 'DataTimePoint', 'DataSlot', 'DataSlot with unit', 'two dimensional DataSlot', 'DataTimeSlot')


class Reference():
    """The rules, on entries which are (key, kind of data, item, family)"""

    def __init__(self, family):
        self.family = family
        self.entries = []

    @property
    def current(self):
        # Once all of its items are replaced or removed, a series can change what it is of
        if self.entries:
            self.family = self.entries[0][3]
        return FAMILIES[self.family]

    build = property(lambda self: self.current[0])
    succession = property(lambda self: self.current[1])
    with_data = property(lambda self: self.current[2])

    def valid(self, entries):
        for a, b in zip(entries, entries[1:]):
            if a[3] != b[3]:
                return False
            if FAMILIES[a[3]][1] and b[0] != a[0] + 1 or not b[0] > a[0]:
                return False
            if a[1] != b[1]:
                return False
        return True


def kind_of(data):
    if data is None:
        return None
    return ('dict', tuple(sorted(data))) if isinstance(data, dict) else ('list', len(data))


def snapshot(item):
    if isinstance(item, (Point, Slot)):
        found = []
        for name in ('data', 'data_indexes'):
            value = getattr(item, name, None)
            found.append(obs.freeze(dict(value) if isinstance(value, dict) else list(value) if isinstance(value, list) else value))
        return repr(item), found
    return repr(item), repr(getattr(item, 'data', None))


def same(ctx, series, reference, what):
    items = [e[2] for e in reference.entries]
    got = [x for x in series]
    ctx.check(len(got) == len(items) == len(series) and all(a is b for a, b in zip(got, items)), lambda: '%s: the series contains %s instead of %s' % (what, got, items), 'items')
    ctx.check(bool(series) == bool(items) and series.item_type is (type(items[0]) if items else None), lambda: '%s: item type %s' % (what, series.item_type), 'item-type')
    if items and reference.with_data and isinstance(items[0], (DataPoint, DataSlot)):
        labels = list(items[0].data) if isinstance(items[0].data, dict) else [str(i) for i in range(len(items[0].data))]
        ctx.check(sorted(series.data_labels()) == sorted(labels), lambda: '%s: labels %s instead of %s' % (what, series.data_labels(), labels), 'labels')


def accesses(ctx, rng, series, reference):
    items = [e[2] for e in reference.entries]
    n = len(items)
    for _ in range(4):
        i = rng.randint(-n - 2, n + 1)
        how = rng.choice([lambda: series[i], lambda: series.get(at_i=i)])
        if -n <= i < n:
            ctx.check(how() is items[i], 'item %s of %s is wrong' % (i, items), 'get')
        else:
            ctx.check(ctx.raises(how) is not None, 'got something at %s of %s' % (i, items), 'get')
    for _ in range(5):
        cut = slice(rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, None, None, 1, 2, 3, -1]))
        entries = reference.entries[cut]
        ctx.count('slices')
        if cut.step is None and n:
            got = series.slice(from_i=cut.start, to_i=cut.stop)
            ctx.check(type(got) is type(series) and got is not series and len(got) == len(entries) and all(a is b[2] for a, b in zip(got, entries)), lambda: 'slice(%s, %s) of %s is %s' % (cut.start, cut.stop, items, list(got)), 'slice')
        if reference.valid(entries):
            got = series[cut]
            ctx.check(type(got) is type(series) and got is not series and len(got) == len(entries) and all(a is b[2] for a, b in zip(list(got), entries)), lambda: '%s of %s is %s' % (cut, items, list(got)), 'slice')
        else:
            ctx.check(ctx.raises(lambda: series[cut]) is not None, '%s of %s was given, breaking its order' % (cut, items), 'slice')
    if n:
        i = rng.randrange(n)
        ctx.check(series.index(items[i]) == i and items[i] in series, 'wrong position of %s' % (items[i],), 'index')
        low, high = sorted([rng.randint(0, n), rng.randint(0, n)])
        found = None if not low <= i < high else i
        error = ctx.raises(lambda: ctx.check(series.index(items[i], low, high) == found, 'wrong position of %s in %s:%s' % (items[i], low, high), 'index'), ValueError)
        ctx.check((error is not None) == (found is None), 'wrong position of %s in %s:%s' % (items[i], low, high), 'index')
        k = rng.randint(1, n + 2)
        ctx.check([x for x in series.head(k)] == items[:k] and [x for x in series.tail(k)] == items[-k:], 'wrong head or tail of %s' % k, 'head-tail')
    ctx.check([x for x in series.contents()] == items, 'wrong contents', 'contents')
    for name, arguments in (('extend', ()), ('count', (1,)), ('sort', ()), ('reverse', ())):
        ctx.check(ctx.raises(lambda: getattr(series, name)(*arguments), NotImplementedError) is not None, '%s is not refused' % name, 'disabled')


def history(ctx, rng, index):
    family = rng.choice(ORDERED)
    reference = Reference(family)
    as_list = reference.with_data and rng.random() < 0.3
    labels = gen.labels(rng)

    def data(other=False):
        if not reference.with_data:
            return None
        if as_list:
            values = [rng.choice([rng.randint(-9, 9), round(rng.uniform(-5, 5), 3)]) for _ in labels]
            return rng.choice([values + [1], values[1:] if len(values) > 1 else values * 3, {'a': 1}]) if other else values
        values = {label: rng.choice([rng.randint(-9, 9), round(rng.uniform(-5, 5), 3)]) for label in rng.sample(labels, len(labels))}
        if other:
            values = rng.choice([dict(values, other=1), {('%s_' % label if i == 0 else label): values[label] for i, label in enumerate(values)}, [1] * len(values)])
        return values

    def entry(key, other=False):
        family_ = reference.family
        if other and (not reference.with_data or rng.random() < 0.3):
            family_ = rng.choice([f for f in ORDERED if not issubclass(type(FAMILIES[f][0](0, [1])), type(reference.build(0, [1]))) and not issubclass(type(reference.build(0, [1])), type(FAMILIES[f][0](0, [1])))])
            d = data() or [1]
        else:
            d = data(other)
        item = FAMILIES[family_][0](key, d)
        return (key, kind_of(getattr(item, 'data', None)), item, family_)

    series = Series()
    key = rng.randint(-20, 20)
    n = rng.choice([0, 1, 2, 5, 9])
    for _ in range(n):
        reference.entries.append(entry(key))
        key += 1 if reference.succession else rng.randint(1, 4)
    if rng.random() < 0.5:
        series = Series(*[e[2] for e in reference.entries])
    else:
        for e in reference.entries:
            series.append(e[2])
    log = ['%s %s' % (family, n)]
    same(ctx, series, reference, 'at start')
    for _ in range(rng.randint(4, 12)):
        ctx.count('steps')
        ctx.count('succession' if reference.succession else 'order')
        if reference.family in ('Step', 'Level', 'Level with data'):
            ctx.count('objects')
        entries = reference.entries
        n = len(entries)
        low, high = (entries[0][0], entries[-1][0]) if entries else (0, 0)

        def near():
            bad = rng.random() < 0.2 and n > 0
            return entry(rng.choice([high + 1, high + 1, high + 1, low - 1, low - 1, high + 2, high, low, rng.randint(low - 2, high + 2)]), other=bad)
        how = rng.choice(['append', 'append', 'insert', 'insert', 'set', 'set_slice', 'pop', 'pop_i', 'del', 'del_slice', 'add', 'remove', 'multiply', 'clear', 'between', 'replace'])
        must_accept = True
        if how == 'append':
            x = near()
            new, change, what = entries + [x], lambda: series.append(x[2]), 'append of %r' % (x[2],)
        elif how in ('insert', 'between'):
            if how == 'between' and n > 1:
                i = rng.randint(1, n - 1)
                x = entry(rng.randint(entries[i - 1][0], entries[i][0]))
            else:
                i = rng.choice([0, 0, n, n, -1, rng.randint(-n - 2, n + 2)])
                x = near()
            new = list(entries)
            new.insert(i, x)
            change, what = lambda: series.insert(i, x[2]), 'insertion at %s of %r' % (i, x[2])
        elif how in ('set', 'replace'):
            i = rng.randint(-n - 1, n)
            inside = -n <= i < n
            x = entry(entries[i][0], other=rng.random() < 0.2) if how == 'replace' and inside else near()
            new = list(entries) if inside else None
            if inside:
                new[i] = x
            change, what = lambda: series.__setitem__(i, x[2]), 'assignment at %s of %r' % (i, x[2])
        elif how == 'set_slice':
            i, j = sorted([rng.randint(0, n), rng.randint(0, n)])
            start = entries[i][0] if i < n else high + 1
            xs = [entry(start + k) for k in range(rng.choice([j - i, j - i, rng.randint(0, 3)]))]
            if xs and rng.random() < 0.2:
                xs[-1] = near()
            new = entries[:i] + xs + entries[j:]
            change, what = lambda: series.__setitem__(slice(i, j), [x[2] for x in xs]), 'assignment at %s:%s of %s' % (i, j, [x[2] for x in xs])
        elif how in ('pop', 'pop_i', 'del'):
            i = -1 if how == 'pop' else rng.choice([0, -1, n - 1, rng.randint(-n - 1, n)])
            new = list(entries) if -n <= i < n else None
            if new:
                del new[i]
            change = {'pop': lambda: series.pop(), 'pop_i': lambda: series.pop(i), 'del': lambda: series.__delitem__(i)}[how]
            if new is not None and how != 'del':
                expected = entries[i][2]
                plain = change
                change = lambda: ctx.check(plain() is expected, 'pop of %s did not give the item' % i, 'pop')
            what = '%s of %s' % (how, i)
        elif how == 'del_slice':
            i, j = sorted([rng.randint(0, n), rng.randint(0, n)])
            step = rng.choice([None, None, 2])
            new = list(entries)
            del new[i:j:step]
            change, what = lambda: series.__delitem__(slice(i, j, step)), 'removal of %s:%s:%s' % (i, j, step)
        elif how == 'add':
            xs, k = [], high + 1
            for _ in range(rng.randint(0, 3)):
                xs.append(entry(k))
                k += 1
            if xs and rng.random() < 0.4:
                xs[rng.randrange(len(xs))] = near()
            new = entries + xs
            change, what = lambda: series.__iadd__([x[2] for x in xs]), 'addition of %s' % [x[2] for x in xs]
        elif how == 'remove':
            x = rng.choice(entries) if entries and rng.random() < 0.7 else entry(high + 7)
            new = [e for e in entries if e is not x] if any(e is x for e in entries) else None
            # Removing from a succession is not supported at all
            must_accept = not reference.succession
            change, what = lambda: series.remove(x[2]), 'removal of %r' % (x[2],)
        elif how == 'multiply':
            k = rng.choice([0, 1, 2])
            if k != 1 and rng.random() < 0.7:
                k = 2
            new = entries * k
            change, what = lambda: series.__imul__(k), 'multiplication by %s' % k
        else:
            if rng.random() < 0.8:
                continue
            new, change, what = [], lambda: series.clear(), 'clear'
        before = [snapshot(x) for x in series]
        arguments = repr(what)
        error = ctx.raises(change)
        what = '%s on %s' % (what, [e[2] for e in entries])
        if new is not None and reference.valid(new):
            if error is None:
                reference.entries = new
                ctx.count('accepted')
            else:
                ctx.check(not must_accept, lambda: '%s: refused (%s: %s)' % (what, type(error).__name__, error), 'refused')
                ctx.count('refused')
        else:
            ctx.check(error is not None, lambda: '%s: accepted' % what, 'accepted')
            ctx.count('refused')
        log.append(arguments[:80])
        same(ctx, series, reference, what)
        if error is not None:
            ctx.check([snapshot(x) for x in series] == before, '%s: refused, but the items changed' % what, 'refused-change')
    accesses(ctx, rng, series, reference)
    duplicates(ctx, rng, series, reference, entry)
    ctx.sig(family, log)
    ctx.sample(log)


def duplicates(ctx, rng, series, reference, entry):
    items = [e[2] for e in reference.entries]
    before = [snapshot(x) for x in series]
    duplicate, shallow = series.duplicate(), series.copy()
    ctx.check(type(duplicate) is Series and [snapshot(x) for x in duplicate] == before, 'a duplicate is different', 'duplicate')
    ctx.check(len(shallow) == len(items) and [snapshot(x) for x in shallow] == before, 'a copy is different', 'copy')
    if items and isinstance(items[0], (Point, Slot)):
        ctx.check(not any(a is b for a, b in zip(duplicate, series)), 'a duplicate shares its items', 'duplicate')
    ctx.check(duplicate == series, 'a duplicate is not equal to the series', 'duplicate')
    x = entry(reference.entries[-1][0] + 1 if items else 0)
    while items and x[1] != reference.entries[0][1]:
        # The kind of the data could have changed as well
        data = reference.entries[0][2].data
        x = (x[0], reference.entries[0][1], reference.build(x[0], type(data)(data)), x[3])
    for other in (duplicate, shallow):
        other.append(x[2])
        ctx.check(len(other) == len(items) + 1 and len(series) == len(items), 'adding to a duplicate or a copy adds to the series', 'independent')
    bad = entry(reference.entries[0][0] - 1 if items else 0)
    ctx.check(ctx.raises(lambda: duplicate.append(bad[2])) is not None, 'a duplicate accepts an item not in order', 'duplicate-rules')
    if items and isinstance(x[2], (DataPoint, DataSlot)):
        target = duplicate[0]
        keys = list(target.data) if isinstance(target.data, dict) else range(len(target.data))
        for key in keys:
            target.data[key] = 1000
        target.data_indexes['new'] = 0.5
    ctx.check([snapshot(x) for x in series] == before, 'changing a duplicate or a copy changed the series', 'independent')
    ctx.count('duplicates')


def build(rng, family, n, labels, as_list=False):
    start = rng.randint(-9, 9)
    step = 1 if FAMILIES[family][1] else rng.randint(1, 3)
    rows = [{label: rng.choice([rng.randint(-9, 9), round(rng.uniform(-5, 5), 3)]) for label in labels} for _ in range(n)]
    keys = [start + i * step for i in range(n)]
    items = [FAMILIES[family][0](keys[i], list(rows[i].values()) if as_list else dict(rows[i])) for i in range(n)]
    return keys, rows, items


def compute(ctx, rng, index):
    family = rng.choice(NUMERIC)
    labels = gen.labels(rng)
    n = rng.choice([1, 2, 3, 6, 12])
    as_list = rng.random() < 0.25
    keys, rows, items = build(rng, family, n, labels, as_list)
    series = Series(*items)
    before = [snapshot(x) for x in series]
    names = {label: str(i) for i, label in enumerate(labels)} if as_list else {label: label for label in labels}
    what = '%s of %s' % (family, rows)
    for name, function in (('min', min), ('max', max), ('sum', sum), ('avg', lambda values: sum(values) / len(values))):
        ctx.count('scalars')
        got = getattr(series, name)()
        ctx.check(sorted(got) == sorted(names.values()), lambda: '%s of %s has labels %s' % (name, what, sorted(got)), 'scalar-labels')
        for label in labels:
            want = function([row[label] for row in rows])
            ctx.check(obs.close(got[names[label]], want), lambda: '%s of %s is %s' % (name, what, got), 'scalar')
            ctx.check(obs.close(getattr(series, name)(names[label]), want), lambda: '%s of %s for %s is wrong' % (name, what, label), 'scalar')
        ctx.check(ctx.raises(lambda: getattr(series, name)('not there')) is not None, '%s of a label which does not exist' % name, 'no-label')
        ctx.check(ctx.raises(lambda: getattr(Series(), name)()) is not None, '%s of an empty series' % name, 'empty')
    if as_list:
        ctx.check(ctx.raises(lambda: series.filter(labels[0])) is not None, 'filtered on a label with list data', 'filter')
    else:
        kept = rng.sample(labels, rng.randint(1, len(labels)))
        got = series.filter(*kept) if len(kept) > 1 or rng.random() < 0.5 else series[kept[0]]
        ctx.count('filters')
        ctx.check(type(got) is Series and len(got) == n, 'wrong number of items filtering', 'filter')
        for item, source, row in zip(got, items, rows):
            ctx.check(dict(item.data) == {label: row[label] for label in kept} and type(item) is type(source) and item.data_indexes == source.data_indexes, lambda: 'filtering %s on %s gave %s' % (what, kept, list(got)), 'filter')
            ctx.check(where(item) == where(source), 'filtering moved an item', 'filter')
        ctx.check(ctx.raises(lambda: series.filter('not there')) is not None, 'filtered on a label which does not exist', 'filter')
        i = rng.randrange(n)
        label = rng.choice(labels)
        got = series.select('"%s"=%s' % (label, rows[i][label]))
        wanted = [items[k] for k in range(n) if rows[k][label] == rows[i][label]]
        ctx.check(len(wanted) == len(got) and all(snapshot(a) == snapshot(b) for a, b in zip(got, wanted)), lambda: 'selecting %s=%s on %s gave %s' % (label, rows[i][label], what, list(got)), 'select')
    if not as_list and not family.startswith('two'):
        operations(ctx, rng, series, items, rows, labels, what)
    ctx.check([snapshot(x) for x in series] == before, 'the series changed', 'source-changed')
    if not as_list:
        renames(ctx, rng, series, family, keys, rows, labels)
    ctx.sig('compute', family, rows, as_list)


def where(item):
    return [float(x) for x in (item.start.coordinates + item.end.coordinates if isinstance(item, Slot) else item.coordinates)]


def operations(ctx, rng, series, items, rows, labels, what):
    """The operations which do not depend on time."""
    n = len(rows)
    factor, offset, window = rng.choice([2, 0.5, -3, 0]), rng.choice([1, -2.5, 0]), rng.randint(1, n)
    low, high = rng.choice([(0, 1), (-1, 1), (10, 20)])
    spans = {label: (min(row[label] for row in rows), max(row[label] for row in rows)) for label in labels}
    ways = {'rescale': (lambda s, **k: s.rescale(factor, **k), lambda i, label: rows[i][label] * factor), 'offset': (lambda s, **k: s.offset(offset, **k), lambda i, label: rows[i][label] + offset)}
    if all(a != b for a, b in spans.values()):
        ways['normalize'] = (lambda s, **k: s.normalize(range=[low, high], **k), lambda i, label: (rows[i][label] - spans[label][0]) / (spans[label][1] - spans[label][0]) * (high - low) + low)
    for name, (run, want) in sorted(ways.items()):
        ctx.count('operations')
        got = run(series)
        inplace = series.duplicate()
        run(inplace, inplace=True)
        for result in (got, inplace):
            ctx.check(len(result) == n and all(type(a) is type(b) and where(a) == where(b) for a, b in zip(result, items)), lambda: '%s of %s moved the items: %s' % (name, what, list(result)), name)
            for i in range(n):
                ctx.check(sorted(result[i].data) == sorted(labels) and all(obs.close(result[i].data[label], want(i, label), rel=1e-6) for label in labels), lambda: '%s of %s gave %s' % (name, what, list(result)), name)
    if window > 1:
        got = series.mavg(window)
        ctx.check([where(x) for x in got] == [where(x) for x in items[window - 1:]], lambda: 'moving average of %s of %s gave %s' % (window, what, list(got)), 'mavg')
        for k, item in enumerate(got):
            for label in labels:
                ctx.check(obs.close(item.data['%s_mavg_%s' % (label, window)], sum(row[label] for row in rows[k:k + window]) / window, rel=1e-6, abs_=1e-6), lambda: 'moving average of %s of %s gave %s' % (window, what, list(got)), 'mavg')


    ways = {'csum': (lambda: series.csum(), 0, lambda i, label: sum(row[label] for row in rows[:i + 1]))}
    if n > 1:
        ways['diff'] = (lambda: series.diff(), 1, lambda i, label: rows[i][label] - rows[i - 1][label])
    for name, (run, start, want) in sorted(ways.items()):
        ctx.count('operations')
        got = run()
        ctx.check(type(got) is Series and [where(x) for x in got] == [where(x) for x in items[start:]] and all(type(a) is type(b) and a.data_indexes == b.data_indexes for a, b in zip(got, items[start:])), lambda: '%s of %s gave %s' % (name, what, list(got)), name)
        for k, item in enumerate(got):
            ctx.check(sorted(item.data) == sorted('%s_%s' % (label, name) for label in labels) and all(obs.close(item.data['%s_%s' % (label, name)], want(start + k, label), rel=1e-6, abs_=1e-6) for label in labels), lambda: '%s of %s gave %s' % (name, what, list(got)), name)


def renames(ctx, rng, series, family, keys, rows, labels):
    """In place, and then only the items in the new form are accepted."""
    ctx.count('renames')
    build_ = FAMILIES[family][0]
    label, n = rng.choice(labels), len(rows)
    old = [snapshot(x) for x in series]
    if rng.random() < 0.6 or len(labels) == 1:
        series.rename_data_label(label, 'renamed')
        want = [{('renamed' if k == label else k): row[k] for k in row} for row in rows]
        if len(labels) > 1:
            ctx.check(ctx.raises(lambda: series.rename_data_label('renamed', [x for x in labels if x != label][0])) is not None, 'renamed over another label', 'rename')
    else:
        series.remove_data_label(label)
        want = [{k: row[k] for k in row if k != label} for row in rows]
    ctx.check([dict(x.data) for x in series] == want and sorted(series.data_labels()) == sorted(want[0]), lambda: 'renaming or removing %s gave %s' % (label, list(series)), 'rename')
    ctx.check(ctx.raises(lambda: series.append(build_(keys[-1] + 1, dict(rows[0])))) is not None, 'an item with the old labels is accepted', 'rename')
    series.append(build_(keys[-1] + 1, dict(want[0])))
    ctx.check(len(series) == n + 1, 'an item with the new labels is not added', 'rename')
    if rng.random() < 0.5:
        series.remove_data_loss()
        ctx.check(not any('data_loss' in x.data_indexes for x in series) and [dict(x.data) for x in series][:n] == want, 'data losses not removed, or something else', 'remove-loss')


CASES = {'history': {'run': history, 'quick': 12000, 'thorough': 150000},
         'compute': {'run': compute, 'quick': 4000, 'thorough': 50000}}
