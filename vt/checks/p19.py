import hashlib
import json
import os
import random
import subprocess
import sys

from timeseria.datastructures import DataTimePoint, DataTimeSlot, Slot, TimePoint, TimeSeries
from timeseria.units import TimeUnit

from .. import gen, models, obs, registry

RULE = ('random computations (queries, operations, transformations, conversions, storages, plots, interpolators, models) repeated on the same series after others, on series changed in place in the meanwhile, with reused transformers, interpolators and '
        'models, and in other processes with another hash seed, time zone, working directory and order: every outcome compared bit by bit with the one on a newly built equal series; distinct by series and computations')
FLOORS = {'histories': 300, 'repeated': 5000, 'mutations': 2000, 'after_mutations': 2000, 'reused': 500, 'refits': 150, 'in_other_processes': 1500, 'not_refused': 5000}


def rebuild(series):
    """An equal series, built anew from what can be seen of the given one."""
    out = TimeSeries()
    for item in series:
        data = dict(item.data) if isinstance(item.data, dict) else list(item.data)
        indexes = {'data_indexes': dict(item.data_indexes)} if item.data_indexes else {}
        if isinstance(item, Slot):
            out.append(DataTimeSlot(start=TimePoint(t=item.start.t, tz=str(item.start.tz)), end=TimePoint(t=item.end.t, tz=str(item.end.tz)), unit=TimeUnit(str(item.unit)), data=data, **indexes))
        else:
            out.append(DataTimePoint(t=item.t, tz=str(item.tz), data=data, **indexes))
    return out


def build(key):
    """The series and a drawer of (always the same) computations on it."""
    return registry.series(random.Random(key))


def drawn(key, series, path):
    return registry.draw(random.Random(key), series, path)


def history(ctx, rng, index):
    """The outcome of a computation does not depend on those before."""
    key = rng.random()
    series = build(key)
    keys = [rng.random() for _ in range(rng.randint(3, 6))]
    first = {}
    for k in keys:
        fresh = build(key)
        first[k] = registry.outcome(drawn(k, fresh, ctx.dir), fresh)
        if first[k][0] == 'result':
            ctx.count('not_refused')
    ctx.count('histories')
    # The other things going on in the meanwhile, on other series
    other = registry.series(rng)
    before = obs.snap(series)
    kept = {}
    done = []
    order = keys + [rng.choice(keys) for _ in range(rng.randint(1, 5))]
    rng.shuffle(order)
    for k in order:
        on = rng.choice(['same', 'same', 'same', 'duplicate', 'rebuilt'])
        target = series if on == 'same' else series.duplicate() if on == 'duplicate' else rebuild(series)
        task = kept.get(k) if rng.random() < 0.5 and k in kept else drawn(k, series, ctx.dir)
        kept[k] = task
        got = registry.outcome(task, target)
        done.append((task.name, on))
        ctx.count('repeated')
        ctx.check(got == first[k], lambda: '%s on %r (%s), after %s, does not give what it gives on a new and equal series: %s' % (task, series, on, done[:-1], obs.diff(first[k], got)),
                  'history:%s' % task.name, first=first[k], then=got)
        if rng.random() < 0.3:
            registry.outcome(registry.draw(rng, other, ctx.dir), other)
    d = obs.diff(before, obs.snap(series))
    ctx.check(d is None, lambda: 'the series changed: %s' % d, 'history-series')
    ctx.sig('history', [repr(x)[:100] for x in kept.values()], before['resolution'], len(series))
    ctx.sample({'series': repr(series), 'history': done})


def mutate(rng, series):
    """One change in place of a series. Returns what was done, or None if it was refused."""
    labels = obs.labels_of(series[0])
    is_dict = isinstance(series[0].data, dict)
    n = len(series)
    which = rng.choice(['append', 'append', 'pop', 'pop_first', 'set_data', 'set_data', 'set_value', 'set_value', 'index', 'rename', 'rename', 'remove_label', 'remove_index', 'remove_loss', 'tz', 'tz', 'insert', 'delete', 'replace',
                        'inplace', 'inplace', 'inplace', 'iadd', 'remove', 'rebuild'])
    new_data = (lambda: {label: round(rng.uniform(-50, 50), 3) for label in labels}) if is_dict else (lambda: [round(rng.uniform(-50, 50), 3) for _ in labels])

    def after(item, data):
        if isinstance(item, Slot):
            return DataTimeSlot(start=TimePoint(t=item.end.t, tz=str(item.end.tz)), unit=TimeUnit(str(item.unit)), data=data)
        step = rng.choice([60, 1, 0.5]) if n < 2 or rng.random() < 0.2 else series[-1].t - series[-2].t
        return DataTimePoint(t=item.t + step, tz=str(item.tz), data=data)
    try:
        if which == 'append':
            for _ in range(rng.randint(1, 3)):
                series.append(after(series[-1], new_data()))
        elif which == 'iadd':
            series += [after(series[-1], new_data())]
        elif which in ('pop', 'pop_first', 'delete', 'remove'):
            if n < 3:
                return None
            if which == 'pop':
                series.pop()
            elif which == 'pop_first':
                series.pop(0)
            elif which == 'delete':
                del series[rng.choice([0, n - 1, rng.randrange(n)])]
            else:
                series.remove(series[rng.choice([0, n - 1])])
        elif which == 'set_data':
            item = rng.choice(list(series))
            for label, v in (new_data().items() if is_dict else enumerate(new_data())):
                item.data[label] = v
        elif which == 'set_value':
            item = rng.choice(list(series))
            item.data[rng.choice(labels) if is_dict else 0] = rng.choice([-1000, 1000, 0, 0.5])
        elif which == 'index':
            rng.choice(list(series)).data_indexes[rng.choice(['data_loss', 'anomaly', 'extra'])] = rng.choice([None, 0, 1, 0.5])
        elif which == 'rename':
            series.rename_data_label(rng.choice(labels), 'renamed_%s' % rng.randrange(100))
        elif which == 'remove_label':
            if len(labels) < 2:
                return None
            series.remove_data_label(rng.choice(labels))
        elif which == 'remove_index':
            series.remove_data_index('anomaly')
        elif which == 'remove_loss':
            series.remove_data_loss()
        elif which == 'tz':
            series.change_tz(rng.choice(gen.ZONES))
        elif which == 'insert':
            if isinstance(series[0], Slot) or n < 2:
                return None
            i = rng.randrange(1, n)
            t = (series[i - 1].t + series[i].t) / 2
            series.insert(i, DataTimePoint(t=t, tz=str(series[i].tz), data=new_data()))
        elif which == 'replace':
            i = rng.randrange(n)
            item = series[i]
            series[i] = type(item)(start=item.start, end=item.end, unit=item.unit, data=new_data()) if isinstance(item, Slot) else DataTimePoint(t=item.t, tz=str(item.tz), data=new_data())
        elif which == 'inplace':
            name, args, kwargs = rng.choice([('rescale', [2], {}), ('offset', [-5], {}), ('normalize', [], {}), ('derivative', [], {}), ('integral', [], {}), ('csum', [], {}), ('diff', [], {})])
            getattr(series, name)(*args, inplace=True, **kwargs)
            which = 'inplace:' + name
        elif which == 'rebuild':
            i = rng.randrange(n)
            x = series[i]
            series.pop()
            series.append(x if i == n - 1 else after(series[-1], new_data()))
    except Exception as e:
        if isinstance(e, (AssertionError, MemoryError)):
            raise
        return None
    return which


def mutations(ctx, rng, index):
    """Nothing remembers what a series was before being changed in place."""
    series = registry.series(rng, n=rng.choice([None, 8, 13]))
    if rng.random() < 0.3:
        series = series.duplicate()
    done = []
    for _ in range(rng.randint(2, 6)):
        # Something which may leave something behind
        for _ in range(rng.randint(0, 3)):
            task = registry.draw(rng, series, ctx.dir)
            registry.outcome(task, series)
            done.append(task.name)
        for _ in range(rng.randint(1, 2)):
            change = mutate(rng, series)
            if change:
                done.append(change + '!')
                ctx.count('mutations')
        if not len(series):
            return
        fresh = rebuild(series)
        d = obs.diff(obs.snap_content(fresh), obs.snap_content(series))
        if d is not None:
            ctx.fail('the series cannot be built anew with the same items after %s: %s' % (done, d), 'mutated-content')
        for _ in range(rng.randint(1, 2)):
            k = rng.random()
            task = drawn(k, series, ctx.dir)
            want = registry.outcome(drawn(k, fresh, ctx.dir), rebuild(series))
            got = registry.outcome(task, series)
            if got[0] == 'result':
                ctx.count('not_refused')
            ctx.count('after_mutations')
            ctx.check(got == want, lambda: '%s on %r, after %s, does not give what it gives on a new and equal series: %s' % (task, series, done, obs.diff(want, got)), 'stale:%s' % task.name, new=want, changed=got)
            done.append(task.name)
    ctx.sig('mutations', done, len(series))
    ctx.sample({'series': repr(series), 'history': done})


def reuse(ctx, rng, index):
    """Transformers, interpolators and models do not remember the series on which they were used."""
    labels = gen.labels(rng)
    n = rng.choice([16, 24, 40])
    line = models.Line(rng, 3 * n)
    period = rng.choice([2, 3, 4])

    def part(first, other_values):
        rows = models.rows(rng, n, labels, period=period)
        lost = rng.sample(range(2, n - 2), 2)
        # Also the ones of which the items are at the same times, but not with the same data
        first = 0 if other_values else first
        return line.series(rows, first=first, losses=[1 if i in lost else 0.0 for i in range(n)])
    x, y = part(0, False), part(rng.choice([n, 2 * n]), rng.random() < 0.5)
    which, model, fit, options = registry.new_model(rng, labels)
    fit = None if fit is None else dict(fit, periodicity=period) if which != 'custom' else {}
    twin = registry.again(random.Random(1), which, labels, fit)[1]
    if which == 'pa':
        twin = type(model)('auto')
        model = type(model)('auto')
    elif which == 'custom':
        twin = type(model)()

    def ask(m, s):
        return registry.outcome(registry.Task('apply', [], lambda z: m.apply(z, **options)), s.duplicate())

    def evaluate(m, s):
        return registry.outcome(registry.Task('evaluate', [], lambda z: m.evaluate(z)), s.duplicate())
    try:
        if fit is not None:
            model.fit(x, **fit)
        ask(model, x)
    except (ValueError, NotImplementedError):
        return
    function = rng.choice([ask, evaluate]) if which not in ('detector', 'detector_r') else ask
    one = function(model, x)
    function(model, y)
    for other in (ask, evaluate):
        if which not in ('detector', 'detector_r'):
            other(model, y)
    two = function(model, x)
    ctx.count('reused')
    ctx.check(one == two, lambda: '%s: %s, on the same series, gives something else after being used on another: %s' % (which, function.__name__, obs.diff(one, two)), 'reuse:%s' % which, first=one, then=two)
    if fit is not None:
        # A new fit depends only on the series on which it is done
        options_y = dict(fit)
        if which != 'custom' and rng.random() < 0.5:
            options_y['periodicity'] = rng.choice([2, 3, 4, 5])
        a = registry.outcome(registry.Task('fit', [], lambda z: model.fit(z, **options_y)), y.duplicate())
        b = registry.outcome(registry.Task('fit', [], lambda z: twin.fit(z, **options_y)), y.duplicate())
        ctx.check(a == b, lambda: '%s: fitting again is not as fitting a new one: %s' % (which, obs.diff(b, a)), 'refit:%s' % which)
        if a[0] == 'result':
            a, b = function(model, x), function(twin, x)
            ctx.count('refits')
            ctx.check(a == b, lambda: '%s: fitted again does not behave as a new one fitted on the same: %s' % (which, obs.diff(b, a)), 'refit:%s' % which, new=b, again=a)
    ctx.sig('reuse', which, labels, line.describe(), n)


def run_keys(keys, path):
    """Outcome of some computations, by key."""
    out = {}
    for key in keys:
        rng = random.Random(key)
        series = registry.series(rng)
        task = registry.draw(rng, series, path)
        got = registry.outcome(task, series)
        text = json.dumps(got).replace(path, 'DIR')
        out[key] = [repr(task)[:200].replace(path, 'DIR'), got[0], hashlib.blake2b(text.encode(), digest_size=12).hexdigest(), text[:3000]]
    return out


PROGRAM = '''
import json, logging, sys, warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
from vt.checks import p19
with open(sys.argv[1]) as f:
    keys = json.load(f)
out = p19.run_keys(keys, sys.argv[2])
with open(sys.argv[3], 'w') as f:
    json.dump(out, f)
'''


ENVIRONMENTS = [{'PYTHONHASHSEED': '1', 'TZ': 'UTC'}, {'PYTHONHASHSEED': '4242', 'TZ': 'XXX-5:30'}, {'PYTHONHASHSEED': '77', 'TZ': 'EST5EDT,M3.2.0,M11.1.0', 'PYTHONUTF8': '1'},
                {'PYTHONHASHSEED': '5', 'TZ': 'CET-1CEST,M3.5.0,M10.5.0/3', 'LC_ALL': 'C'}]


def processes(ctx, rng, index):
    """The same in any process."""
    keys = [repr(rng.random()) for _ in range(300)]
    path = os.path.join(ctx.dir, 'p%s' % index)
    results = []
    running = []
    environments = [ENVIRONMENTS[index % len(ENVIRONMENTS)], ENVIRONMENTS[(index + 1) % len(ENVIRONMENTS)]]
    for i, changes in enumerate(environments):
        work = '%s_%s' % (path, i)
        os.makedirs(work)
        ordered = list(keys)
        rng.shuffle(ordered)
        with open(work + '.json', 'w') as f:
            json.dump(ordered, f)
        env = dict(os.environ)
        env.update(changes)
        running.append((subprocess.Popen([sys.executable, '-W', 'ignore', '-c', PROGRAM, work + '.json', work, work + '.out'], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), work))
    for process, work in running:
        output = process.communicate(timeout=600)[0]
        if process.returncode != 0:
            raise RuntimeError('the other process failed: %s' % output.decode(errors='replace')[-1500:])
        with open(work + '.out') as f:
            results.append(json.load(f))
    for key in keys:
        a, b = results[0][key], results[1][key]
        ctx.count('in_other_processes')
        if a[1] == 'result':
            ctx.count('not_refused')
        ctx.check(a[2] == b[2], lambda: '%s does not give the same in two processes (%s)' % (a[0], environments), 'processes:%s' % a[0].split('(')[0], first=a[3], second=b[3])
    ctx.sig('processes', keys[0])


CASES = {'history': {'run': history, 'quick': 700, 'thorough': 6000},
         'mutations': {'run': mutations, 'quick': 1200, 'thorough': 12000},
         'reuse': {'run': reuse, 'quick': 800, 'thorough': 6000},
         'processes': {'run': processes, 'quick': 8, 'thorough': 32, 'cpu_limit': 300}}
SCALE = {'quick': 1, 'thorough': 1}
