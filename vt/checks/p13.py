import datetime
import os

import pytz

from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot, TimeSeries
from timeseria.storages import CSVFileStorage
from timeseria.units import TimeUnit

from .. import gen, obs

RULE = ('CSV files generated from known rows: header or not, separators, quoting, decimal commas, epoch, ISO 8601 and custom timestamps (naive and not, in one or two columns, at any position), '
        'comment, blank and separator-less lines, invalid rows, shuffled rows, column selections, limits, missing slots, placeholder columns; judged against the rows; distinct by file and arguments')
FLOORS = {'files': 1000, 'rows': 8000, 'invalid_rows': 500, 'refused': 200, 'sorted': 100, 'selected_columns': 200, 'naive': 100, 'missing_slots': 200, 'headless': 200, 'noise_lines': 1000, 'fractions': 100}
NOISE = ['# a comment', '#comment, with, separators; and; more', '; another | comment, here', '', '   ', 'just text with no separators']
PLACEHOLDERS = ['nan', 'NaN', 'null', 'N.A.', 'na', 'nd', 'undef', '']


def quoted(rng, text, style):
    return {0: text, 1: '"%s"' % text, 2: "'%s'" % text, 3: ' %s ' % text}[style]


def points(ctx, rng, index):
    n = rng.choice([2, 3, 6, 15, 40])
    columns = rng.randint(1, 4)
    labels = ['c%s %s' % (i, rng.choice(['', 'x', 'flow'])) for i in range(columns)]
    labels = [x.strip() for x in labels]
    header = rng.random() < 0.7
    separator = rng.choice([',', ',', ';', '\t', '|'])
    kwargs = {}
    if separator != ',':
        kwargs['separator'] = separator
    comment_chars = ['#', ';']
    if separator == ';':
        kwargs['comment_chars'] = comment_chars = ['#']
    zone = rng.choice(gen.ZONES)
    if rng.random() < 0.7:
        kwargs['tz'] = zone
    else:
        zone = 'UTC'
    form = rng.choice(['epoch', 'iso', 'iso-offset', 'iso-naive', 'custom', 'two'])
    whole = form != 'epoch'
    start = rng.choice([0, 1445734800, 1583276400, 1546477200, 1600000000])
    spacing = rng.choice([1, 60, 600, 3600, 5400]) if whole else rng.choice([0.25, 1, 60, 600, 3600])
    if whole and rng.random() < 0.4:
        # Across a change of the UTC offset
        spacing = rng.choice([3600, 7200, 6 * 3600, 43200])
        start = rng.choice(gen.transitions(zone) or [1600002000]) // 1800 * 1800 - rng.randint(0, n) * spacing
    ts = gen.times(rng, n, spacing=spacing, irregular=0 if whole else rng.choice([0, 0.3]), start=start)
    if form in ('iso-naive', 'custom', 'two'):
        # Leave out the local times which do not exist or happen twice
        tz = pytz.timezone(zone)
        keep = []
        for t in ts:
            naive = gen.from_epoch(t, zone).replace(tzinfo=None)
            try:
                if gen.epoch(tz.localize(naive, is_dst=None)) == t:
                    keep.append(t)
            except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
                pass
        ts = keep
        n = len(ts)
        if n < 2:
            return
        ctx.count('naive')
    fmt = rng.choice(['%d/%m/%Y %H:%M:%S', '%Y.%m.%d %H.%M.%S', '%m-%d-%y %H:%M:%S'])

    def stamp(t):
        if form == 'epoch':
            return [repr(t)]
        if form == 'iso':
            return [gen.from_epoch(t).strftime('%Y-%m-%dT%H:%M:%SZ')]
        if form == 'iso-offset':
            dt = gen.from_epoch(t, rng.choice(gen.ZONES))
            offset = int(dt.utcoffset().total_seconds() // 60)
            if offset < 0 and rng.random() < 0.5:
                dt, offset = gen.from_epoch(t), 0
            return [dt.strftime('%Y-%m-%dT%H:%M:%S') + '%s%02d:%02d' % ('-' if offset < 0 else '+', abs(offset) // 60, abs(offset) % 60)]
        dt = gen.from_epoch(t, zone)
        if form == 'iso-naive':
            return [dt.strftime('%Y-%m-%dT%H:%M:%S')]
        if form == 'custom':
            return [dt.strftime(fmt)]
        return [dt.strftime(fmt.split(' ')[0]), dt.strftime(fmt.split(' ')[1])]

    # The position of the timestamp column(s)
    width = 2 if form == 'two' else 1
    if form == 'two':
        position = rng.randint(0, columns)
        if not header:
            kwargs.update(date_column=position, time_column=position + 1)
        else:
            kwargs.update(date_column=rng.choice([position, 'day']), time_column=rng.choice([position + 1, 'hour']))
        kwargs.update(date_format=fmt.split(' ')[0], time_format=fmt.split(' ')[1])
        stamp_labels = ['day', 'hour']
        if not header:
            # Custom formats are not recognized as timestamps, thus the first line would be a header
            header = True
            kwargs.update(date_column='day', time_column='hour')
    else:
        stamp_labels = [rng.choice(['timestamp', 'epoch', 'when'])]
        position = 0
        if rng.random() < 0.4:
            position = rng.randint(0, columns)
            if header and stamp_labels != ['when'] and rng.random() < 0.5:
                pass  # recognized by label
            else:
                kwargs['timestamp_column'] = rng.choice([position, stamp_labels[0]]) if header else position
        if form == 'custom':
            kwargs['timestamp_format'] = fmt
            header = True
    if not header:
        ctx.count('headless')

    style = rng.choice([0, 0, 0, 1, 2, 3])
    commas = separator != ',' and rng.random() < 0.4

    def number_text(v):
        text = repr(v)
        return text.replace('.', ',') if commas else text

    rows = []
    for t in ts:
        rows.append((t, [gen.number(rng) for _ in range(columns)]))

    def line(t, texts):
        cells = list(texts)
        cells[position:position] = stamp(t)
        return separator.join(quoted(rng, c, style) for c in cells)

    # A column with no label in the header (and with no data) is not part of the series
    blank = header and rng.random() < 0.15 and 'timestamp_column' not in kwargs and form != 'two'
    lines = []
    if header:
        cells = list(labels)
        cells[position:position] = stamp_labels
        if blank:
            cells.insert(len(cells) if position == 0 and rng.random() < 0.3 else max(1, position + 1), rng.choice(['', 'nan', '  ']))
            where = [i for i, c in enumerate(cells) if c in ('', 'nan', '  ')][0]
        lines.append(separator.join(quoted(rng, c, style) for c in cells))

    selected = list(range(columns))
    get_kwargs = {'force_points': True}
    as_list = not header
    if not blank and rng.random() < 0.3:
        ctx.count('selected_columns')
        selected = rng.sample(range(columns), rng.randint(1, columns))
        file_position = [i if i < position else i + width for i in selected]
        if header and rng.random() < 0.6:
            choice = [labels[i] for i in selected]
            if len(set(labels)) < columns:
                return
        else:
            choice = file_position
            as_list = True
        if rng.random() < 0.5:
            kwargs['data_labels'] = choice
        else:
            get_kwargs['filter_data_labels'] = choice
    if len(set(labels)) < columns:
        return

    # Invalid rows
    bad = rng.random() < 0.35
    if bad and rng.random() < 0.75:
        kwargs['skip_errors'] = True
        kwargs['silence_errors'] = rng.random() < 0.5
    shuffle = rng.random() < 0.2
    order = list(range(n))
    if shuffle:
        rng.shuffle(order)
        kwargs['sort'] = True
        ctx.count('sorted')
    body = []       # (line, row or None)
    invalid = 0
    for k in order:
        t, values = rows[k]
        text = line(t, [number_text(v) for v in values])
        if blank:
            cells = text.split(separator)
            cells.insert(where, rng.choice(['', '12', 'free text']))
            text = separator.join(cells)
        body.append((text, k))
        if bad and rng.random() < 0.3:
            invalid += 1
            ctx.count('invalid_rows')
            what = rng.choice(['stamp', 'value', 'placeholder', 'missing', 'duplicate'])
            if blank and what == 'missing':
                what = 'stamp'
            texts = [number_text(v) for v in values]
            if what == 'stamp':
                t_save = stamp
                cells = list(texts)
                cells[position:position] = ['garbage'] * width
                text = separator.join(cells)
            elif what == 'missing':
                # Not even the columns that are used
                text = separator.join(text.split(separator)[:max(2, 1)]) if columns + width > 2 else separator.join(['garbage', '1'])
                cells = text.split(separator)
                used = [i if i < position else i + width for i in selected]
                if max(used + [position + width - 1]) < len(cells):
                    cells = ['garbage'] * (columns + width)
                    text = separator.join(cells)
            elif what == 'duplicate':
                if 'sort' in kwargs:
                    text = separator.join(['garbage'] * (columns + width))
                # otherwise the very same line again
            else:
                for i in selected:
                    texts[i] = rng.choice(PLACEHOLDERS) if what == 'placeholder' else rng.choice(['x', '1.2.3', '--'])
                text = line(t, texts)
                if blank:
                    cells = text.split(separator)
                    cells.insert(where, '')
                    text = separator.join(cells)
            body.append((text, None))
    noise = rng.random() < 0.4
    for text, _ in body:
        lines.append(text)
    if noise:
        usable = [x for x in NOISE if x[:1] in comment_chars or separator not in x]
        for _ in range(rng.randint(1, 6)):
            lines.insert(rng.randint(0, len(lines)), rng.choice(usable))
            ctx.count('noise_lines')
    limit = None
    if not bad and rng.random() < 0.15:
        limit = get_kwargs['limit'] = rng.randint(1, n + 2)

    path = os.path.join(ctx.dir, 'file_%s.csv' % index)
    encoding = rng.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1'])
    if encoding != 'utf-8' and rng.random() < 0.5:
        kwargs['encoding'] = encoding
    elif encoding == 'latin-1':
        encoding = 'utf-8'
    newline = rng.choice(['\n', '\n', '\r\n'])
    with open(path, 'wb') as f:
        f.write((newline.join(lines) + (newline if rng.random() < 0.8 else '')).encode(encoding))
    ctx.count('files')

    if invalid and not kwargs.get('skip_errors'):
        error = ctx.raises(lambda: CSVFileStorage(path, **kwargs).get(**get_kwargs))
        ctx.count('refused')
        ctx.check(error is not None, 'invalid rows were accepted', 'invalid-accepted', lines=lines[:12], kwargs=kwargs)
    else:
        used = order[:limit] if limit else order
        used = sorted(used) if shuffle else used
        storage = CSVFileStorage(path, **kwargs)
        got = storage.get(**get_kwargs)
        detail = {'lines': lines[:12], 'kwargs': kwargs, 'get': get_kwargs}
        ctx.check(type(got) is TimeSeries and len(got) == len(used), lambda: '%s points instead of %s' % (len(got), len(used)), 'csv-length', **detail)
        ctx.check(str(got.tz) == zone, lambda: 'time zone %s instead of %s' % (got.tz, zone), 'csv-tz', **detail)
        for item, k in zip(got, used):
            t, values = rows[k]
            ctx.count('rows')
            ctx.check(type(item) is DataTimePoint and item.t == t, lambda: 'point at %r instead of %r' % (item.t, t), 'csv-time', **detail)
            want = [float(values[i]) for i in selected] if as_list else {labels[i]: float(values[i]) for i in selected}
            ctx.check(item.data == want, lambda: 'data %r instead of %r' % (item.data, want), 'csv-data', **detail)
        # The same when asking again
        again = storage.get(**get_kwargs)
        ctx.check(obs.diff(obs.snap(got), obs.snap(again)) is None, 'getting again gave something else', 'csv-again', **detail)
    os.remove(path)
    ctx.sig(form, repr(sorted(kwargs.items(), key=str)), repr(get_kwargs), repr(lines)[:1500])
    ctx.sample({'form': form, 'kwargs': kwargs, 'lines': lines[:4]})


LENGTHS = {'1D': [23 * 3600, 86400, 25 * 3600], '1M': [86400 * x for x in (28, 29, 30, 31)], '1Y': [86400 * x for x in (365, 366)]}


def slots(ctx, rng, index):
    """Slots, with the missing ones filled in by interpolation and marked as lost"""
    unit = rng.choice(['1D', '1D', '1h', '15m', '1M', '1Y'])
    zone = rng.choice(gen.ZONES)
    n = rng.choice([2, 3, 5, 12, 30])
    bounds = gen.slot_bounds(rng, n, unit, zone)
    header = rng.random() < 0.7
    labels = ['a', 'b'][:rng.randint(1, 2)]
    with_index = header and rng.random() < 0.4
    rows = [[gen.number(rng) for _ in labels] for _ in range(n)]
    losses = [rng.choice([0, 0.25, 1, None]) for _ in range(n)]
    lost = set(i for i in range(1, n - 1) if rng.random() < (0.25 if rng.random() < 0.8 else 0.7))
    if rng.random() < 0.2 and n > 4:
        # A gap just at the beginning
        lost = {1}
    lines = []
    if header:
        lines.append(','.join(['epoch'] + labels + (['__data_loss'] if with_index else [])))
    for i in range(n):
        if i not in lost:
            lines.append(','.join([repr(bounds[i])] + [repr(v) for v in rows[i]] + ([str(losses[i])] if with_index else [])))
    path = os.path.join(ctx.dir, 'slots_%s.csv' % index)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    # The unit can be detected if the most common spacing (both at the beginning and overall) is the length of one
    present = [bounds[i] for i in range(n) if i not in lost]
    auto = unit in LENGTHS and rng.random() < 0.6
    for part in (present[:11], present):
        spacings = [b - a for a, b in zip(part, part[1:])]
        counts = {x: spacings.count(x) for x in spacings}
        auto = auto and (len(counts) == 1 or len(counts) * 2 < len(part)) and all(x in LENGTHS[unit] for x in counts if counts[x] == max(counts.values()))
    if auto:
        ctx.count('auto_slots')
        for x in set(spacings):
            ctx.sig('auto', unit, x)
        got = CSVFileStorage(path, tz=zone).get(**rng.choice([{}, {'force_slots': True}]))
    else:
        got = CSVFileStorage(path, tz=zone).get(force_slots=True, force_slot_unit=unit)
    detail = {'lines': lines[:12], 'unit': unit, 'zone': zone}
    ctx.check(len(got) == n, lambda: '%s slots instead of %s' % (len(got), n), 'slots-length', **detail)
    for i, item in enumerate(got):
        ctx.check(type(item) is DataTimeSlot and item.start.t == bounds[i] and item.end.t == bounds[i + 1], lambda: 'slot %s is from %s to %s instead of from %s to %s' % (
            i, item.start.t, item.end.t, bounds[i], bounds[i + 1]), 'slots-times', **detail)
        data = item.data if not header else [item.data[label] for label in labels]
        if header:
            ctx.check(sorted(item.data) == labels, 'wrong labels %s' % sorted(item.data), 'slots-labels', **detail)
        if i in lost:
            ctx.count('missing_slots')
            a = max(j for j in range(i) if j not in lost)
            b = min(j for j in range(i, n) if j not in lost)
            want = [rows[a][k] + (rows[b][k] - rows[a][k]) * (i - a) / (b - a) for k in range(len(labels))]
            scale = 1e-9 * max([1] + [abs(v) for v in rows[a] + rows[b]])
            ctx.check(all(abs(x - y) <= scale for x, y in zip(data, want)), lambda: 'missing slot with data %s instead of %s' % (data, want), 'slots-filled', **detail)
            ctx.check(item.data_loss == 1, lambda: 'missing slot with data loss %s' % item.data_loss, 'slots-filled-loss', **detail)
        else:
            ctx.check(list(data) == [float(v) for v in rows[i]], lambda: 'data %s instead of %s' % (data, rows[i]), 'slots-data', **detail)
            ctx.check(item.data_loss == (losses[i] if with_index else None), lambda: 'data loss %s instead of %s' % (item.data_loss, losses[i]), 'slots-loss', **detail)
    os.remove(path)
    ctx.sig('slots', unit, zone, repr(lines)[:1500])


def iso_fraction(ctx, rng, index):
    """Any number of decimals for the seconds"""
    path = os.path.join(ctx.dir, 'fraction_%s.csv' % index)
    digits = rng.randint(1, 9)
    n = rng.randint(2, 5)
    fractions = [str(rng.randint(0, 10 ** digits - 1)).zfill(digits) for _ in range(n)]
    suffix = rng.choice(['Z', '+00:00', ''])
    with open(path, 'w') as f:
        f.write('timestamp,a\n' + ''.join('2020-01-01T00:00:0%s.%s%s,%s\n' % (i, fractions[i], suffix, i) for i in range(n)))
    got = CSVFileStorage(path).get(force_points=True)
    os.remove(path)
    ctx.count('fractions')
    ctx.sig('fraction', fractions, suffix)
    for i in range(n):
        want = 1577836800 + i + float('0.' + fractions[i])
        ctx.check(abs(got[i].t - want) < 2e-6, lambda: 'a timestamp at .%s seconds was read at %r' % (fractions[i], got[i].t), 'iso-fraction-digits')


def nothing(ctx, rng, index):
    path = os.path.join(ctx.dir, 'nothing_%s.csv' % index)
    with open(path, 'w') as f:
        f.write('\n'.join(rng.sample(NOISE, rng.randint(0, len(NOISE) - 1))).replace(',', ' ').replace('; another', '# another'))
        if rng.random() < 0.5:
            f.write('\nepoch,a\n')
    error = ctx.raises(lambda: CSVFileStorage(path).get())
    ctx.check(error is not None, 'a file with no data gave a series', 'csv-nothing')
    os.remove(path)


UNITS_OF = {3600: '1h', 1800: '30m', 900: '15m', 600: '10m', 300: '5m', 60: '1m', 90: '90s', 7200: '7200s', 120: '120s', 1: '1s', 86400: '1D'}


def options(ctx, rng, index):
    """Data and series types, explicit formats, forced time zones and requests which make no sense."""
    path = os.path.join(ctx.dir, 'options_%s.csv' % index)
    what = rng.choice(['data_type', 'data_type', 'series_type', 'series_type', 'dates', 'times', 'formats', 'force_tz', 'refused'])
    columns = rng.randint(1, 3)
    labels = ['a', 'b', 'c'][:columns]
    n = rng.choice([3, 4, 8, 14])
    header = rng.random() < 0.5
    zone = rng.choice(gen.ZONES)
    spacing = rng.choice([60, 90, 600, 3600])
    start = rng.randint(-400, 10 ** 5) * 86400 + rng.choice([0, 5, 1800])
    ts = [start + i * spacing for i in range(n)]
    rows = [[gen.number(rng) for _ in labels] for _ in range(n)]
    ctx.count('option_' + what)

    def write(stamps, stamp_label='epoch', with_header=None):
        lines = [','.join([stamp_label] + labels)] if (header if with_header is None else with_header) else []
        lines += [','.join([str(t)] + [repr(v) for v in row]) for t, row in zip(stamps, rows)]
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return lines

    def same(got, want_ts, want_data, **detail):
        ctx.check(len(got) == len(want_ts), lambda: '%s items instead of %s' % (len(got), len(want_ts)), 'options-length', **detail)
        for item, t, data in zip(got, want_ts, want_data):
            at = item.start.t if isinstance(item, DataTimeSlot) else item.t
            ctx.check(at == t, lambda: 'item at %r instead of %r' % (at, t), 'options-time', **detail)
            ctx.check(type(item.data) is type(data) and item.data == data, lambda: 'data %r instead of %r' % (item.data, data), 'options-data', **detail)

    if what == 'data_type':
        data_type = rng.choice([list, dict, float])
        lines = write(ts)
        detail = {'lines': lines[:4], 'data_type': data_type}
        selected = list(range(columns))
        kwargs = {'data_type': data_type}
        if rng.random() < 0.5:
            selected = rng.sample(selected, rng.randint(1, columns))
            kwargs['data_labels'] = [labels[i] for i in selected] if header and rng.random() < 0.5 else [i + 1 for i in selected]
            if isinstance(kwargs['data_labels'][0], int):
                # Columns asked by position are always in a list
                data_type = list
        function = lambda: CSVFileStorage(path, **kwargs).get(force_points=True)
        if data_type is float and len(selected) > 1 or data_type is dict and not header:
            error = ctx.raises(function)
            ctx.check(error is not None, lambda: 'more values than the data type %s can hold (or with no labels) gave a series' % data_type, 'data-type-refused', **detail)
        else:
            want = [[float(row[i]) for i in selected] if data_type is list else float(row[selected[0]]) if data_type is float else {labels[i]: float(row[i]) for i in selected} for row in rows]
            same(function(), ts, want, **detail)
    elif what == 'series_type':
        spacing = rng.choice(sorted(UNITS_OF))
        start = rng.randint(-400, 10 ** 4) * 86400
        ts = [start + i * spacing for i in range(n)]
        want = [dict(zip(labels, map(float, row))) if header else list(map(float, row)) for row in rows]
        lines = write(ts)
        series_type = rng.choice(['points', 'slots', 'auto'])
        detail = {'lines': lines[:4], 'series_type': series_type}
        got = CSVFileStorage(path, series_type=series_type).get() if rng.random() < 0.6 else CSVFileStorage(path).get(**({} if series_type == 'auto' else {'force_' + series_type: True}))
        slots = series_type == 'slots' or (series_type == 'auto' and spacing == 86400)
        same(got, ts, want, **detail)
        ctx.check(all(type(item) is (DataTimeSlot if slots else DataTimePoint) for item in got), lambda: 'items of type %s' % type(got[0]), 'series-type', **detail)
        if slots:
            ctx.check(all(item.end.t - item.start.t == spacing and item.unit == TimeUnit(UNITS_OF[spacing]) for item in got), lambda: 'slots of %s instead of %s' % (got[0].unit, UNITS_OF[spacing]), 'series-type-unit', **detail)
    elif what == 'dates':
        # One row for each day, month or year
        unit = rng.choice(['1D', '1D', '1M', '1Y'])
        bounds = gen.slot_bounds(rng, n, unit, zone)[:n]
        fmt = {'1D': rng.choice(['%Y-%m-%d', '%d/%m/%Y', '%Y%m%d']), '1M': '%m/%Y', '1Y': 'Y%Y'}[unit]
        lines = write([gen.from_epoch(t, zone).strftime(fmt) for t in bounds], 'day', True)
        if any(gen.from_epoch(t, zone).year < 1000 for t in bounds):
            return
        kwargs = dict(date_column=rng.choice(['day', 0]), date_format=fmt) if rng.random() < 0.6 else dict(timestamp_column='day', timestamp_format=fmt)
        detail = {'lines': lines[:4], 'kwargs': kwargs, 'zone': zone}
        want = [dict(zip(labels, map(float, row))) for row in rows]
        if rng.random() < 0.5:
            got = CSVFileStorage(path, tz=zone, series_type='points', **kwargs).get()
            same(got, bounds, want, **detail)
        else:
            got = CSVFileStorage(path, tz=zone, **kwargs).get(force_slots=True, force_slot_unit=unit)
            same(got, bounds, want, **detail)
            ctx.check(all(a.end.t == b for a, b in zip(got, bounds[1:])) and got[0].unit == TimeUnit(unit), 'wrong slots for the dates', 'dates-slots', **detail)
        ctx.check(str(got.tz) == zone, lambda: 'time zone %s instead of %s' % (got.tz, zone), 'dates-tz', **detail)
    elif what == 'times':
        lines = write(['%02d:%02d' % (i + 5, 7 * i % 60) for i in range(n)], 'hour', True)
        got = CSVFileStorage(path, time_column=rng.choice(['hour', 0]), time_format='%H:%M').get(force_points=True)
        same(got, [-2208988800 + (i + 5) * 3600 + (7 * i % 60) * 60 for i in range(n)], [dict(zip(labels, map(float, row))) for row in rows], lines=lines[:4])
    elif what == 'formats':
        fmt = rng.choice(['epoch', 'iso8601', '%s'])
        stamps = [gen.from_epoch(t).strftime('%Y-%m-%dT%H:%M:%S+00:00') for t in ts] if fmt == 'iso8601' else ts
        if fmt == '%s':
            stamps, fmt = [gen.from_epoch(t).strftime('%Y%m%d%H%M%S') for t in ts], '%Y%m%d%H%M%S'
        # Epochs which look like something else, and the other way round
        lines = write(stamps)
        got = CSVFileStorage(path, timestamp_format=fmt, timestamp_column=rng.choice([0, 0, 'auto'])).get(force_points=True)
        same(got, ts, [dict(zip(labels, map(float, row))) if header else list(map(float, row)) for row in rows], lines=lines[:4], fmt=fmt)
    elif what == 'force_tz':
        lines = write(ts)
        other = rng.choice(gen.ZONES)
        got = CSVFileStorage(path, tz=zone).get(force_points=True, force_tz=other)
        same(got, ts, [dict(zip(labels, map(float, row))) if header else list(map(float, row)) for row in rows], lines=lines[:4])
        ctx.check(str(got.tz) == other and all(str(item.tz) == other for item in got), lambda: 'time zone %s instead of %s' % (got.tz, other), 'force-tz')
    else:
        lines = write(ts, with_header=True)
        how = rng.choice([{'timestamp_column': 'nope'}, {'date_column': 'nope', 'date_format': '%Y'}, {'time_column': 'nope', 'time_format': '%H'}, {'date_column': 'epoch'}, {'time_column': 'epoch'},
                          {'timestamp_column': 'epoch', 'date_column': 'a', 'date_format': '%Y'}, {'timestamp_column': 'epoch', 'time_column': 'a', 'time_format': '%H'}, {'timestamp_column': 1.5}, {'date_column': 1.5, 'date_format': '%Y'},
                          {'time_column': [0], 'time_format': '%H'}, {'data_labels': 'a'}, {'data_labels': ['nope']}, {'data_labels': [17]}, {'series_type': 'things'}, {'timestamp_format': '%Y'}, {'timestamp_format': 'iso8601'},
                          {'timestamp_column': None, 'data_labels': []}, {'timestamp_column': None}, {'get': {'id': 'x'}}, {'get': {'start': 1}}, {'get': {'end': 1}}, {'get': {'force_points': True, 'force_slots': True}},
                          {'get': {'filter_data_labels': ['nope']}}, {'tz': 'Nowhere/There'}, {'get': {'force_tz': 'Nowhere/There'}}, {'encoding': 'no-such-encoding'}])
        how = dict(how)
        get_kwargs = how.pop('get', {})
        error = ctx.raises(lambda: CSVFileStorage(path, **how).get(**get_kwargs))
        ctx.check(error is not None, lambda: 'asking for %s gave a series' % (how or get_kwargs), 'options-refused', lines=lines[:4])
    os.remove(path)
    ctx.sig('options', what, repr(lines)[:1000])


CASES = {'points': {'run': points, 'quick': 5000, 'thorough': 60000},
         'slots': {'run': slots, 'quick': 1500, 'thorough': 15000},
         'nothing': {'run': nothing, 'quick': 60, 'thorough': 200},
         'options': {'run': options, 'quick': 1500, 'thorough': 20000},
         'iso_fraction': {'run': iso_fraction, 'quick': 200, 'thorough': 2000}}
