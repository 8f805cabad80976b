import json
import math
import os
import re
import subprocess

import pytz

from timeseria.datastructures import Slot, TimeSeries

from .. import gen, models, obs

RULE = ('plots (as HTML, and saved) of point and slot series with any label, index, time zone, aggregation, precision, mark and range, evaluated by a JavaScript engine with a recorder in place of the Dygraphs library: every row, column label, '
        'mark and range given to it compared with the items of the series; distinct by series and options')
FLOORS = {'matplotlib': 100, 'plots': 1500, 'rows': 15000, 'aggregated': 300, 'marks': 200, 'indexes': 400, 'dst_rows': 200, 'partial_groups': 80, 'saved': 50, 'legends': 1500}

# What the browser would see: the arguments of the Dygraph object, the texts of the legend and where the mark is drawn
RECORDER = r'''
const fs = require('fs'), vm = require('vm');
const jobs = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = [];
for (const script of jobs) {
  const got = {};
  function Dygraph(div, data, options) {
    got.count = (got.count || 0) + 1;
    got.rows = data.map(r => r.map(x => Object.prototype.toString.call(x) === '[object Date]' ? x.getTime() : x));
    got.labels = options.labels;
    got.range = options.valueRange;
    got.bars = options.customBars === true;
    got.step = options.stepPlot;
    got.series = Object.keys(options.series);
    got.utc = options.labelsUTC;
    if (options.underlayCallback) {
      const coords = [], fills = [];
      options.underlayCallback({fillRect: (...a) => fills.push(a)}, {y: 0, h: 10}, {toDomCoords: (x, y) => { coords.push(x); return [x, y]; }});
      got.mark = coords;
      got.fills = fills;
    }
    const g = {getOption: name => ({showLabelsOnHighlight: true, labelsSeparateLines: false, legend: 'always'}[name])};
    const series = options.labels.slice(1).map((l, i) => ({label: l, labelHTML: l, isVisible: true, color: 'c', dashHTML: '', yHTML: String(i), y: i}));
    try {
      got.legend = options.legendFormatter({dygraph: g, series: series});
      got.hover = options.legendFormatter({dygraph: g, x: 1, xHTML: 'WHEN', series: series});
    } catch (e) { got.legend_error = String(e); }
  }
  Dygraph.defaultInteractionModel = {};
  try {
    vm.runInNewContext(script, {Dygraph: Dygraph, document: {getElementById: x => x}, console: {log: () => 0}}, {timeout: 20000});
  } catch (e) { got.error = String(e); }
  out.push(got);
}
fs.writeFileSync(process.argv[3], JSON.stringify(out));
'''


def setup(ctx):
    path = os.path.join(ctx.dir, 'recorder.js')
    with open(path, 'w') as f:
        f.write(RECORDER)


def evaluate(ctx, name, scripts):
    source, destination = os.path.join(ctx.dir, name + '.in'), os.path.join(ctx.dir, name + '.out')
    with open(source, 'w') as f:
        json.dump(scripts, f)
    done = subprocess.run(['node', os.path.join(ctx.dir, 'recorder.js'), source, destination], capture_output=True, text=True, timeout=300)
    if done.returncode != 0:
        raise RuntimeError('node failed: %s' % done.stderr[-500:])
    with open(destination) as f:
        out = json.load(f)
    os.remove(source)
    os.remove(destination)
    return out


def script_of(html):
    return re.findall(r'<script>(.*?)</script>', html, re.DOTALL)[-1]


def wall_ms(t, zone):
    """The milliseconds since the epoch of the local wall clock, read as it was UTC."""
    local = gen.from_epoch(t, zone)
    return gen.epoch(local.replace(tzinfo=pytz.UTC)) * 1000


def end_of(item):
    return item.end.t if isinstance(item, Slot) else item.t


LABELS = gen.LABELS + ['a,b', "l'acqua", 'say "hi"', 'è', 'back\\slash', 'Timestamp']


def new_series(rng):
    labels = rng.sample(LABELS, rng.randint(1, 3)) if rng.random() < 0.4 else gen.labels(rng)
    names = rng.choice([(), (), ('data_loss',), ('data_loss', 'anomaly'), ('data_loss', 'data_reconstructed', 'forecast', 'mine'), ("it's", 'say "hi"')])
    if rng.random() < 0.02:
        # Very many labels
        labels = ['label %s' % i for i in range(rng.choice([11, 20, 50]))]
    kind = rng.random()
    n = rng.choice([1, 2, 3, 5, 8, 13, 30])
    values = None
    if kind < 0.15:
        # A straight line
        v = rng.choice([0, -10, 10, 0.001, -2.5])
        values = lambda i, t: {label: v for label in labels}
    if rng.random() < 0.3:
        # Over a DST change
        zone = rng.choice(gen.ZONES[1:])
        t = rng.choice(gen.transitions(zone) or [0])
        spacing = rng.choice([600, 900, 1800, 3600])
        return gen.point_series(rng, n=n, spacing=spacing, irregular=rng.choice([0, 0.2]), the_labels=labels, as_list=False, tz=zone, index_names=names, values=values, start=t - spacing * rng.randint(0, n))
    series = gen.any_series(rng, n=n, the_labels=labels, index_names=names, values=values)
    if rng.random() < 0.12 and not isinstance(series[0], Slot):
        # Points on time zones of their own, and possibly another one set on the series
        mixed = TimeSeries(tz=rng.choice(gen.ZONES)) if rng.random() < 0.5 else TimeSeries()
        for item in series:
            item.change_tz(rng.choice(gen.ZONES))
            mixed.append(item)
        return mixed
    return series


def options_for(rng, series):
    labels = series.data_labels()
    indexes = sorted(set(k for item in series for k in item.data_indexes))
    options = {}
    if rng.random() < 0.3:
        options['data_labels'] = rng.sample(labels, rng.randint(1, len(labels)))
    if rng.random() < 0.3:
        options['data_indexes'] = rng.choice([None, [], rng.sample(indexes, rng.randint(0, len(indexes))), 'all'])
    if rng.random() < 0.35:
        options['aggregate_by'] = rng.choice([1, 2, 3, 7, 10])
        if rng.random() < 0.3:
            options['aggregate'] = rng.choice([True, False])
    elif rng.random() < 0.2:
        options['aggregate'] = False
    if rng.random() < 0.5:
        options['full_precision'] = True
    if rng.random() < 0.15:
        options['value_range'] = rng.choice([[0, 100], [-50, 50], [-20, -10], [0, 0.5]])
    if rng.random() < 0.25:
        times = [models.start_of(x) for x in series]
        a, b = sorted((rng.choice(times) + rng.choice([0, 0, -3600]), rng.choice(times) + rng.choice([0, 60, 86400])))
        zone = rng.choice(gen.ZONES + [str(series.tz)] * 3)
        options['mark'] = [gen.from_epoch(a, zone), gen.from_epoch(b, zone)]
        if rng.random() < 0.5:
            options['mark'] = tuple(options['mark'])
        if rng.random() < 0.3:
            options['mark_title'] = 'Marked'
    if rng.random() < 0.1:
        options['minimal_legend'] = True
    if rng.random() < 0.1:
        options['title'] = 'The title'
    return options


def judge(ctx, series, options, got, label, threshold=10000):
    n = len(series)
    ctx.check('error' not in got and got.get('count') == 1, lambda: '%s: the plot does not work: %s' % (label, got.get('error')), 'plot-broken')
    plotted = options.get('data_labels', series.data_labels())
    indexes = options.get('data_indexes', 'all')
    if indexes == 'all':
        indexes = obs.all_indexes(series)
    indexes = indexes or []
    is_list = not isinstance(series[0].data, dict)
    names = ['Timestamp'] + ((['value'] if len(plotted) == 1 else ['value %s' % x for x in plotted]) if is_list else list(plotted)) + list(indexes)
    ctx.check(got['labels'] == names, lambda: '%s: the columns are %s instead of %s' % (label, got['labels'], names), 'plot-labels')
    if indexes:
        ctx.count('indexes')
    by = options.get('aggregate_by')
    if by is None and n > threshold:
        by = 10 ** len(str(n // threshold))
    if options.get('aggregate') is False:
        by = None
    ctx.check(got['bars'] == bool(by), lambda: '%s: wrong kind of chart' % label, 'plot-bars')
    ctx.check(got['step'] == isinstance(series[0], Slot), lambda: '%s: wrong kind of chart' % label, 'plot-step')
    ctx.check(got['utc'] is True, lambda: '%s: the times would be moved to the time zone of the browser' % label, 'plot-utc')
    full = options.get('full_precision')

    def near(shown, v, decimals):
        return shown is not None and (obs.close(shown, v, rel=1e-9, abs_=1e-9) if full else abs(shown - v) <= 0.5000001 * 10 ** -decimals + 1e-12 * abs(v))
    items = list(series)
    groups = [[x] for x in items] if not by else [items[i:i + by] for i in range(0, n, by)]
    ctx.check(len(got['rows']) == len(groups), lambda: '%s: %s rows instead of %s' % (label, len(got['rows']), len(groups)), 'plot-rows')
    everything = []
    zone = str(series.tz)
    for row, group in zip(got['rows'], groups):
        ctx.count('rows')
        ctx.check(len(row) == len(names), lambda: '%s: a row with %s columns instead of %s' % (label, len(row), len(names)), 'plot-columns')
        if not by:
            want = wall_ms(models.start_of(group[0]), zone)
            ctx.check(abs(row[0] - want) < 1, lambda: '%s: an item at %s is plotted at %s instead of %s' % (label, models.start_of(group[0]), row[0], want), 'plot-time')
        else:
            # In any place of the group: as instants, since the wall clock goes back at DST changes
            low, high = models.start_of(group[0]), end_of(group[-1])
            inside = any(abs(row[0] - wall_ms(t, zone)) < 1 for t in (low, (low + high) / 2)) or wall_ms(low, zone) <= row[0] <= wall_ms(high, zone)
            ctx.check(inside, lambda: '%s: a group from %s to %s is plotted at %s' % (label, low, high, row[0]), 'plot-time')
        if gen.from_epoch(models.start_of(group[0]), zone).dst():
            ctx.count('dst_rows')
        for k, name in enumerate(plotted):
            values = [obs.value(x, name) for x in group]
            everything += values
            cell = row[1 + k]
            want = [min(values), math.fsum(values) / len(values), max(values)]
            if by:
                noise = 1e-12 * max(abs(v) for v in values)
                ctx.check(isinstance(cell, list) and len(cell) == 3 and all(near(a, b, 2) or abs(a - b) < noise for a, b in zip(cell, want)), lambda: '%s: label %s is plotted as %s instead of %s' % (label, name, cell, want), 'plot-values')
            else:
                ctx.check(near(cell, values[0], 2), lambda: '%s: label %s is plotted as %s instead of %s' % (label, name, cell, values[0]), 'plot-values')
        for k, name in enumerate(indexes):
            cell = row[1 + len(plotted) + k]
            values = [x.data_indexes.get(name) for x in group]
            present = [v for v in values if v is not None]
            if not by:
                ok = cell is None if values[0] is None else near(cell, values[0], 4)
            elif not present:
                ok = cell == [None] * 3 or cell == [0, 0, 0]
            else:
                # Those without a value can be left out or counted as zero
                ok = isinstance(cell, list) and len(cell) == 3 and cell[0] == 0 and cell[1] == cell[2] and any(near(cell[1], sum(present) / c, 4) for c in {len(present), len(values)})
            ctx.check(ok, lambda: '%s: index %s is plotted as %s for %s' % (label, name, cell, values), 'plot-indexes')
    if by:
        ctx.count('aggregated')
        if n % by:
            ctx.count('partial_groups')
    times = [r[0] for r in got['rows']]
    low, high = got['range']
    ctx.check(low < high, lambda: '%s: the value range is %s' % (label, got['range']), 'plot-range')
    wanted = options.get('value_range') or [min(everything), max(everything)]
    ctx.check(low <= wanted[0] and high >= wanted[1], lambda: '%s: the value range %s leaves out part of %s' % (label, got['range'], wanted), 'plot-range')
    if options.get('value_range'):
        margin = 0.05 * max(abs(x) for x in wanted)
        ctx.check(low >= wanted[0] - margin and high <= wanted[1] + margin, lambda: '%s: the value range is %s instead of about %s' % (label, got['range'], wanted), 'plot-range')
    if options.get('mark'):
        ctx.count('marks')
        want = [wall_ms(gen.epoch(x), str(series.tz)) for x in options['mark']]
        ctx.check('mark' in got and len(got['mark']) == 2 and all(abs(a - b) < 1 for a, b in zip(got['mark'], want)), lambda: '%s: the mark is drawn at %s instead of %s' % (label, got.get('mark'), want), 'plot-mark')
        ctx.check(len(got['fills']) == 1 and abs(got['fills'][0][0] - want[0]) < 1 and abs(got['fills'][0][2] - (want[1] - want[0])) < 1, lambda: '%s: the mark is drawn as %s' % (label, got['fills']), 'plot-mark')
    else:
        ctx.check('mark' not in got, lambda: '%s: there is a mark' % label, 'plot-mark')
    ctx.check('legend_error' not in got, lambda: '%s: the legend does not work: %s' % (label, got.get('legend_error')), 'plot-legend')
    ctx.count('legends')
    for k, name in enumerate(names[1:]):
        ctx.check(name in got['legend'] and name in got['hover'], lambda: '%s: %s is not in the legend %s' % (label, name, got['legend']), 'plot-legend')
    if not options.get('minimal_legend'):
        ctx.check('WHEN (%s)' % series.tz in got['hover'], lambda: '%s: the time zone is not in the legend %s' % (label, got['hover']), 'plot-legend')
        ctx.check('#%s ' % n in got['legend'], lambda: '%s: the number of items is not in the legend %s' % (label, got['legend']), 'plot-legend')
    return times


def plots(ctx, rng, index):
    jobs = []
    for k in range(40):
        series = new_series(rng)
        options = options_for(rng, series)
        how = rng.choice(['html'] * 9 + ['saved'])
        label = 'plot of %r with %s' % (series, options)
        if how == 'html':
            html = series.plot(html=True, **options)
        else:
            path = os.path.join(ctx.dir, 'plot_%s_%s%s' % (index, k, rng.choice(['.html', '.html', '.htm', ''])))
            series.plot(save_to=path, **options)
            with open(path) as f:
                html = f.read()
            os.remove(path)
            ctx.count('saved')
        ctx.check(isinstance(html, str) and html.count('_plotarea"') >= 1, '%s: no plot' % label, 'plot-html')
        if options.get('title'):
            ctx.check('The title' in html, '%s: no title' % label, 'plot-title')
        jobs.append((series, options, script_of(html), label))
    for (series, options, _, label), got in zip(jobs, evaluate(ctx, 'plots_%s' % index, [x[2] for x in jobs])):
        ctx.count('plots')
        judge(ctx, series, options, got, label)
    ctx.sig('plots', [x[3][:100] for x in jobs])
    ctx.sample([x[3] for x in jobs[:2]])


def large(ctx, rng, index):
    """Series over the threshold are aggregated on their own."""
    n = rng.choice([9999, 10000, 10001, 10007, 19999, 25003]) if index % 8 else 100005
    labels = ['a']
    t = gen.t0(rng)
    zone = rng.choice(gen.ZONES)
    series = TimeSeries()
    for i in range(n):
        series.append(gen.point(t + 60 * i, {'a': rng.randint(-100, 100)}, zone))
    options = {'aggregate': False} if rng.random() < 0.2 else {}
    label = 'plot of %r with %s' % (series, options)
    got = evaluate(ctx, 'large_%s' % index, [script_of(series.plot(html=True, **options))])[0]
    ctx.count('plots')
    judge(ctx, series, options, got, label)
    ctx.sig('large', n, zone, t, labels)


def refuse(ctx, rng, index):
    """What cannot be plotted is refused."""
    series = new_series(rng)
    wrong = rng.choice([{'data_labels': ['not there']}, {'data_labels': 'a'}, {'data_indexes': ['not there']}, {'data_indexes': 'x'}, {'image': True}, {'save_to': os.path.join(ctx.dir, 'x.html')},
                        {'mark': ['2019-01-01', '2019-01-02']}])
    before = obs.snap(series)
    error = ctx.raises(lambda: series.plot(html=True, **wrong))
    ctx.check(error is not None, 'plotting with %s is not refused' % wrong, 'plot-refuse')
    ctx.check(ctx.raises(lambda: TimeSeries().plot(html=True)) is not None, 'plotting an empty series is not refused', 'plot-refuse')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'refusing a plot altered the series', 'plot-refuse')
    ctx.sig('refuse', wrong, before['resolution'])


def matplotlib_engine(ctx, rng, index):
    """The other plotting engine: what is on the axes when the plot is shown."""
    from matplotlib import pyplot
    series = new_series(rng)
    shown = []
    def show(*args, **kwargs):
        shown.append([(list(line.get_xdata()), list(line.get_ydata())) for axes in pyplot.gcf().axes for line in axes.lines])
        pyplot.close('all')
    before = obs.snap(series)
    real, pyplot.show = pyplot.show, show
    try:
        series.plot(engine='mp')
    finally:
        pyplot.show = real
        pyplot.close('all')
    what = 'matplotlib plot of %r' % series
    ctx.check(len(shown) == 1, lambda: '%s: shown %s times' % (what, len(shown)), 'mp-shown')
    ctx.check(obs.diff(before, obs.snap(series)) is None, what + ' altered the series', 'mp-altered')
    lines = shown[0]
    items = list(series)
    times = [(x.start if hasattr(x, 'start') else x).t for x in items]
    labels = series.data_labels()
    lossy = any(x.data_loss is not None for x in items)
    ctx.check(len(lines) == len(labels) + (1 if lossy else 0), lambda: '%s: %s lines for %s labels' % (what, len(lines), len(labels)), 'mp-lines')
    columns = [[x.data[int(label) if isinstance(x.data, list) else label] for x in items] for label in labels]
    for xs, ys in lines:
        ctx.check(len(xs) == len(ys) == len(items) and all(abs(x.timestamp() - t) < 2e-6 for x, t in zip(xs, times)), lambda: '%s: wrong times' % what, 'mp-times')
    for label, column in zip(labels, columns):
        ctx.check(any(all(obs.close(y, v) for y, v in zip(ys, column)) for _, ys in lines), lambda: '%s: no line with the values of %s' % (what, label), 'mp-values')
    ctx.count('matplotlib')
    ctx.sig('mp', repr(series), columns)


CASES = {'matplotlib': {'run': matplotlib_engine, 'quick': 300, 'thorough': 3000},
         'plots': {'run': plots, 'quick': 160, 'thorough': 1600},
         'large': {'run': large, 'quick': 8, 'thorough': 64},
         'refuse': {'run': refuse, 'quick': 100, 'thorough': 600}}
SCALE = {'quick': 1, 'thorough': 1}
