"""A model-based workload on the mutable interface of the time series.

A shadow plain Python list is kept side by side with the real series. For every operation the machine predicts,
from the plain list alone, if the result would still be a valid series, and then compares. What is reported depends
on the aspects enabled: 'content' (P01), 'rejected' (P02) and 'resolution' (P03).
"""
from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot, TimePoint, TimeSeries, TimeSlot
from timeseria.units import TimeUnit

from . import gen, obs


class Machine:

    def __init__(self, ctx, rng, aspects):
        self.ctx = ctx
        self.rng = rng
        self.aspects = aspects
        self.slots = rng.random() < 0.35
        self.log = []
        self.accepted = 0
        self.rejected = 0
        self.labels = gen.labels(rng)
        self.as_list = rng.random() < 0.2
        self.zone = rng.choice(gen.ZONES)
        if self.slots:
            self.unit = rng.choice(gen.SLOT_UNITS)
            self.bounds = gen.slot_bounds(rng, 40, self.unit, self.zone)
        else:
            self.spacing = rng.choice(gen.SPACINGS)
            self.start = gen.t0(rng)
        self.series = TimeSeries()
        self.shadow = []
        self.cursor = 5 if self.slots else 0

    # -- items ----------------------------------------------------------
    def data(self, wrong=False):
        labels = self.labels
        if wrong:
            how = self.rng.randint(0, 3)
            if how == 0:
                return gen.data(self.rng, labels, not self.as_list)
            if how == 1 and len(labels) > 1:
                labels = labels[:-1]
            elif how == 2 and not self.as_list:
                labels = ['other'] + list(labels[1:])
            else:
                labels = list(labels) + ['extra']
        return gen.data(self.rng, labels, self.as_list)

    def indexes(self):
        return {'data_indexes': gen.indexes(self.rng, ['data_loss'])} if self.rng.random() < 0.2 else {}

    def make_point(self, t, wrong=False):
        return gen.point(t, self.data(wrong), self.zone if self.rng.random() < 0.7 else None, **self.indexes())

    def make_slot(self, k, wrong=False, unit=None, zone=None):
        unit = unit or self.unit
        zone = zone or self.zone
        if unit != self.unit or zone != self.zone:
            dt = gen.from_epoch(self.bounds[k], zone)
            return DataTimeSlot(start=TimePoint(t=self.bounds[k], tz=zone),
                                end=TimePoint(t=self.bounds[k] + 17, tz=zone) if unit != self.unit else TimePoint(t=self.bounds[k + 1], tz=zone),
                                unit=None if unit != self.unit else TimeUnit(unit), data=self.data(wrong), **self.indexes())
        return gen.slot(self.bounds[k], self.bounds[k + 1], unit, zone, self.data(wrong), self.rng.choice([0, 1, 2, 3]), **self.indexes())

    def some_item(self):
        """An item more or less suitable for what is in the series now, with its kind."""
        rng = self.rng
        kind = rng.choice(['next', 'next', 'next', 'next', 'gap', 'dup', 'before', 'inside', 'labels', 'type', 'garbage', 'unit', 'zone'])
        if not self.shadow:
            kind = rng.choice(['next', 'next', 'next', 'garbage'])
        if self.slots:
            last = self.shadow[-1].start.t if self.shadow else None
            k = self.bounds.index(last) + 1 if last is not None else rng.randint(4, 10)
            first_k = self.bounds.index(self.shadow[0].start.t) if self.shadow else k
            k = min(k, len(self.bounds) - 3)
            if kind == 'next':
                return self.make_slot(k), kind
            if kind == 'gap':
                if last is not None and rng.random() < 0.3:
                    # Nearly in succession
                    start = self.shadow[-1].end.t
                    start += rng.choice([-1, 1]) * rng.choice([1, 0.01, 0.0005, 0.00002])
                    end = self.bounds[k + 1] if self.bounds[k + 1] > start + 2 else start + 17
                    return DataTimeSlot(start=TimePoint(t=start, tz=self.zone), end=TimePoint(t=end, tz=self.zone), unit=TimeUnit(self.unit), data=self.data(), **self.indexes()), kind
                return self.make_slot(min(k + rng.randint(1, 3), len(self.bounds) - 3)), kind
            if kind == 'dup':
                return self.make_slot(max(k - 1, 0)), kind
            if kind in ('before', 'inside'):
                return self.make_slot(max(first_k - (1 if kind == 'before' else 0), 0)), kind
            if kind == 'labels':
                return self.make_slot(k, wrong=True), kind
            if kind == 'unit':
                return self.make_slot(k, unit='17s'), kind
            if kind == 'zone':
                return self.make_slot(k, zone='Asia/Kolkata' if self.zone != 'Asia/Kolkata' else 'UTC'), kind
            if kind == 'type':
                return rng.choice([self.make_point(self.bounds[k]), TimeSlot(start=TimePoint(t=self.bounds[k], tz=self.zone), end=TimePoint(t=self.bounds[k + 1], tz=self.zone), unit=TimeUnit(self.unit))]), kind
        else:
            last = self.shadow[-1].t if self.shadow else self.start
            first = self.shadow[0].t if self.shadow else self.start
            if kind in ('next', 'zone'):
                return self.make_point(last + self.spacing if self.shadow else last), kind
            if kind == 'gap':
                return self.make_point(last + rng.choice([self.spacing * 2, self.spacing * 3, self.spacing * 0.5, self.spacing + 1, self.spacing + 1 / 64])), kind
            if kind == 'dup':
                return self.make_point(rng.choice(self.shadow).t if self.shadow else last), kind
            if kind == 'before':
                return self.make_point(first - self.spacing * rng.choice([1, 1, 2])), kind
            if kind in ('inside', 'unit'):
                return self.make_point(first + self.spacing * rng.randint(0, 10) + rng.choice([0, self.spacing / 2])), kind
            if kind == 'labels':
                return self.make_point(last + self.spacing, wrong=True), kind
            if kind == 'type':
                return rng.choice([TimePoint(t=last + self.spacing),
                                   DataTimeSlot(start=TimePoint(t=last), end=TimePoint(t=last + self.spacing), data=self.data())]), kind
        return rng.choice([None, 5, 'item', {'a': 1}, object()]), 'garbage'

    # -- the oracle on plain lists -----------------------------------------
    def valid(self, items):
        """If a plain list is a valid series."""
        if not items:
            return True
        cls = type(items[0])
        if cls not in (DataTimePoint, DataTimeSlot):
            return False
        for item in items:
            if type(item) is not cls:
                return False
            if type(item.data) is not type(items[0].data) or obs.labels_of(item) != obs.labels_of(items[0]):
                return False
        if cls is DataTimePoint:
            return all(a.t < b.t for a, b in zip(items, items[1:]))
        for item in items:
            if str(item.unit) != str(items[0].unit) or str(item.tz) != str(items[0].tz):
                return False
        return all(a.end.t == b.start.t for a, b in zip(items, items[1:]))

    # -- operations ------------------------------------------------------
    def pick(self):
        rng, n = self.rng, len(self.shadow)
        op = rng.choice(['append'] * 8 + ['insert'] * 3 + ['pop'] * 2 + ['pop_i'] * 2 + ['remove', 'clear', 'setitem', 'delitem', 'iadd', 'rename', 'slices', 'slices', 'imul', 'duplicate', 'slice', 'look', 'look', 'disorder'])
        if op == 'clear' and rng.random() < 0.5:
            op = 'append'
        series, expected = self.series, list(self.shadow)
        if op == 'append':
            item, kind = self.some_item()
            expected.append(item)
            return 'append:' + kind, lambda: series.append(item), expected, self.valid(expected)
        if op == 'insert':
            item, kind = self.some_item()
            i = rng.randint(-n - 1, n + 1) if rng.random() < 0.3 else rng.randint(0, n)
            if kind == 'next' and rng.random() < 0.7:
                i = n
            if kind == 'before' and rng.random() < 0.7:
                i = 0
            if kind == 'inside' and self.shadow and not self.slots and hasattr(item, 't') and rng.random() < 0.8:
                i = len([x for x in self.shadow if x.t < item.t])
            expected.insert(i, item)
            return 'insert:' + kind, lambda: series.insert(i, item), expected, self.valid(expected)
        if op == 'pop':
            if n:
                expected.pop()
            return 'pop', lambda: series.pop(), expected, n > 0
        if op == 'pop_i':
            i = rng.randint(-n - 1, n) if rng.random() < 0.4 else rng.choice([0, n - 1, -1])
            ok = n > 0 and -n <= i < n
            if ok:
                expected.pop(i)
                ok = self.valid(expected)
            return 'pop(i)', lambda: series.pop(i), expected, ok
        if op == 'remove':
            if not n:
                return 'look', lambda: None, expected, True
            item = rng.choice(self.shadow)
            expected.remove(item)
            return 'remove', lambda: series.remove(item), expected, (not self.slots)
        if op == 'clear':
            return 'clear', lambda: series.clear(), [], True
        if op == 'setitem':
            if not n:
                return 'look', lambda: None, expected, True
            item, kind = self.some_item()
            i = rng.randint(-n, n - 1)
            if n == 1 or rng.random() < 0.5:
                old = self.shadow[i]
                item = (self.make_slot(self.bounds.index(old.start.t)) if self.slots else self.make_point(old.t))
                kind = 'same'
            expected[i] = item
            return 'setitem:' + kind, lambda: series.__setitem__(i, item), expected, self.valid(expected)
        if op == 'delitem':
            if not n:
                return 'look', lambda: None, expected, True
            i = rng.choice([0, -1, rng.randint(0, n - 1)])
            del expected[i]
            return 'delitem', lambda: series.__delitem__(i), expected, self.valid(expected)
        if op == 'iadd':
            items, kinds = [], []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                item, kind = self.some_item()
                if items and rng.random() < 0.7 and self.shadow and type(items[-1]) is type(self.shadow[0]):
                    # One which follows
                    kind = 'next'
                    if self.slots:
                        last = items[-1].start.t
                        item = self.make_slot(min(self.bounds.index(last) + 1 if last in self.bounds else 0, len(self.bounds) - 3))
                    else:
                        item = self.make_point(items[-1].t + self.spacing)
                items.append(item)
                kinds.append(kind)
            expected += items
            given = rng.choice([list, tuple, iter])(items)
            return 'iadd:' + '+'.join(kinds), lambda: series.__iadd__(given), expected, self.valid(expected)
        if op == 'slices':
            bound = lambda: rng.choice([None, None, rng.randint(-n - 2, n + 2), 0, 1, n])
            key = slice(bound(), bound(), rng.choice([None, None, None, 1, 2, -1, -2]))
            if rng.random() < 0.5:
                del expected[key]
                return 'delslice', lambda: series.__delitem__(key), expected, self.valid(expected)
            how = rng.choice(['same', 'same', 'fewer', 'item', 'empty'])
            values = list(expected[key])
            if how == 'same' or not values or (how == 'item' and len(values) == n):
                # (a series made only of other items would be another one)
                values = [self.make_slot(self.bounds.index(x.start.t)) if self.slots else self.make_point(x.t) for x in values]
            elif how == 'fewer':
                values = values[:-1]
            elif how == 'item':
                values[rng.randint(0, len(values) - 1)] = self.some_item()[0]
            else:
                values = []
            try:
                expected[key] = values
                ok = self.valid(expected)
            except ValueError:
                # Not as many as the positions
                ok = False
            given = rng.choice([list, tuple, iter])(values)
            return 'setslice:' + how, lambda: series.__setitem__(key, given), expected, ok
        if op == 'imul':
            if n > 1 and rng.random() < 0.6:
                k = rng.choice([1, 2, 3])
            else:
                k = rng.choice([0, 1, 1, 2, -1])
            expected = expected * k
            return 'imul', lambda: series.__imul__(k), expected, self.valid(expected)
        if op == 'disorder':
            # What a list does but a series cannot, as the result would not be one
            how = rng.choice(['reverse', 'sort', 'sort', 'extend'])
            if how == 'extend':
                items = [self.some_item()[0] for _ in range(rng.randint(1, 2))] + rng.choice([[], self.shadow[:1]])
                expected += items
                action = lambda: series.extend(items)
            else:
                expected.reverse()
                action = series.reverse if how == 'reverse' else lambda: series.sort(key=lambda x: -(x.start.t if hasattr(x, 'start') else x.t)) if n % 2 else series.sort(key=lambda x: x.start.t if hasattr(x, 'start') else x.t, reverse=True)
            if self.valid(expected):
                return 'look', lambda: None, list(self.shadow), True
            return how, action, expected, False
        if op == 'rename':
            if not n or self.as_list:
                return 'look', lambda: None, expected, True
            old, new = self.labels[0], 'renamed_%s' % len(self.log)
            def rename():
                series.rename_data_label(old, new)
                self.labels = [new] + self.labels[1:]
            return 'rename', rename, expected, True
        if op == 'duplicate':
            def duplicate():
                self.series = self.series.duplicate()
                self.shadow = [x for x in self.series]
            return 'duplicate', duplicate, None, True
        if op == 'slice':
            a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
            if a == b or rng.random() < 0.7:
                return 'look', lambda: None, expected, True
            def do():
                self.series = self.series[a:b]
            return 'slice', do, expected[a:b], True
        # Just use the series, in order to fill any cache
        def look():
            repr(self.series)
            self.series.resolution
            self.series.tz
            if self.series.resolution == 'variable':
                try:
                    self.series.guess_resolution()
                except Exception:
                    pass
        return 'look', look, expected, True

    # -- observation --------------------------------------------------------
    def expected_resolution(self):
        if not self.shadow:
            return None
        if self.slots:
            return ('unit', str(self.shadow[0].unit))
        if len(self.shadow) == 1:
            return None
        diffs = set(b.t - a.t for a, b in zip(self.shadow, self.shadow[1:]))
        return ('seconds', diffs.pop()) if len(diffs) == 1 else 'variable'

    def observe_resolution(self, op):
        ctx = self.ctx
        expected = self.expected_resolution()
        got = self.series.resolution
        ctx.count('resolution_observations')
        ctx.count('resolution:%s' % (expected if not isinstance(expected, tuple) else expected[0]))
        if expected is None or expected == 'variable':
            if expected is None and self.slots:
                return  # what an emptied slot series reports is not specified
            ctx.check(got == expected, lambda: 'resolution is %r instead of %r after %s' % (got, expected, self.log[-6:]), 'resolution')
        elif expected[0] == 'unit':
            ctx.check(str(got) == expected[1], lambda: 'resolution is %s instead of the slot unit %s after %s' % (got, expected[1], self.log[-6:]), 'resolution')
        else:
            ctx.check(isinstance(got, TimeUnit) and abs(got.as_seconds() - expected[1]) < 1e-6,
                      lambda: 'resolution is %r instead of %s seconds after %s' % (got, expected[1], self.log[-6:]), 'resolution')

    def fingerprint(self):
        s = self.series
        return {'items': [id(x) for x in s], 'snap': [obs.snap_item(x) for x in s], 'resolution': str(s.resolution), 'tz': str(s.tz), 'len': len(s),
                'repr': repr(s) if len(s) else '', 'labels': s.data_labels() if len(s) else None,
                'type': s.item_type}

    def step(self):
        ctx = self.ctx
        op, action, expected, ok = self.pick()
        before = self.fingerprint() if not ok or 'rejected' in self.aspects else None
        n_before = len(self.shadow)
        self.log.append('%s%s' % (op, '' if ok else '(!)'))
        ctx.count('op:' + op.split(':')[0])
        try:
            action()
        except Exception as e:
            self.rejected += 1
            ctx.count('rejections')
            if ok and 'content' in self.aspects:
                ctx.fail('%s was refused although valid: %s: %s (history: %s)' % (op, type(e).__name__, e, self.log[-6:]), 'refused-valid')
            if ok and 'resolution' in self.aspects:
                return False
            if ok:
                ctx.fail('%s was refused although valid, after rejected operations (%s): %s: %s' % (op, self.log[-6:], type(e).__name__, e), 'refused-after-rejection') if self.rejected > 1 else None
                return False
            if 'rejected' in self.aspects:
                d = obs.diff(before, self.fingerprint())
                ctx.check(d is None, lambda: 'the rejected %s changed the series: %s' % (op, d), 'rejected-trace:%s' % op.split(':')[0])
        else:
            self.accepted += 1
            ctx.count('accepted')
            if not ok:
                if 'content' in self.aspects:
                    ctx.fail('%s was accepted although the result is not a valid series (history: %s; items: %s)' % (op, self.log[-6:], [(x, x.tz, getattr(x,'unit',None)) for x in self.series][-3:]), 'accepted-invalid:%s' % op.split(':')[0])
                return False
            if expected is not None:
                self.shadow = expected
        # Now observe
        content = [x for x in self.series]
        if 'content' in self.aspects:
            ctx.count('content_observations')
            ctx.check(len(content) == len(self.shadow) == len(self.series) and all(a is b for a, b in zip(content, self.shadow)),
                      lambda: 'content differs from the one of a plain list after %s' % self.log[-6:], 'content')
            ctx.check(self.valid(content), lambda: 'not a valid series after %s' % self.log[-6:], 'invalid-content')
            if content:
                ctx.check(self.series.item_type is type(content[0]), 'wrong item type', 'item-type')
                ctx.check(self.series.data_labels() == obs.labels_of(content[0]), 'wrong data labels', 'data-labels')
        if 'resolution' in self.aspects:
            self.observe_resolution(op)
        return True

    def run(self, steps):
        for _ in range(steps):
            if not self.step():
                break
        self.ctx.sig(self.slots, tuple(self.log))
        return self
