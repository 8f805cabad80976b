import contextlib
import gc
import io
import json
import logging
import os
import shutil
import time

from timeseria.datastructures import TimeSeries
from timeseria.storages import CSVFileStorage

from .. import footprint, gen, models, obs, registry

RULE = ('random computations (queries, operations, transformations, conversions, storages, plots, interpolators, models), also failing ones and on files which are broken or carry code, with the settings of the process, the open files, the requests to the operating '
        'system (audited by the interpreter), the objects left alive and the log messages monitored; distinct by computation and series')
FLOORS = {'computations': 1500, 'failed': 50, 'silent': 1000, 'repetitions': 2000, 'logged': 2000, 'files_read': 500, 'refused_files': 100, 'strings_accepted': 100, 'strings_refused': 300, 'model_uses': 60}


PRINTING = ('query:inspect',)


def quietly(function):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return function()


def inside(path, folder):
    return path == folder or path.startswith(folder + os.sep)


def settings(ctx, rng, index):
    """What a computation leaves in the process, and what it asks to the operating system"""
    s = registry.series(rng)
    task = registry.draw(rng, s, ctx.dir)
    registry.outcome(task, s.duplicate())  # what is loaded only when used
    there = sorted(os.listdir(ctx.dir))
    with footprint.users(rng):
        before = footprint.state()
        with footprint.Requests() as requests:
            got = registry.outcome(task, s)
        after = footprint.state()
    ctx.count('computations')
    if got[0] == 'error':
        ctx.count('failed')
    elif task.name not in PRINTING:
        ctx.check(not got[2], lambda: '%s printed %r' % (task, got[2][:200]), 'printed:%s' % task.name)
        ctx.count('silent')
    ctx.count('requests', len(requests.events))
    d = footprint.changes(before, after)
    for _ in range(2):
        if d:
            # Once more: the threads left by the fitting library may finish at any time
            time.sleep(0.05)
            with footprint.users(rng):
                before = footprint.state()
                registry.outcome(task, s)
                again = footprint.changes(before, footprint.state())
            d = [x for x in d if x.split(':')[0] in [y.split(':')[0] for y in again]]
    ctx.check(not d, lambda: '%s (%s) changed the process: %s' % (task, got[0], d), 'settings:%s' % task.name)
    asked = requests.of('process', 'network', 'code')
    ctx.check(not asked, lambda: '%s asked the operating system for %s' % (task, asked[:5]), 'requests:%s' % task.name)
    writes = task.name in ('to_csv', 'save', 'storage')
    written = [e for e in requests.written() if not (writes and inside(e[1], ctx.dir))]
    ctx.check(not written, lambda: '%s wrote to %s' % (task, written[:5]), 'written:%s' % task.name)
    if not writes:
        ctx.check(sorted(os.listdir(ctx.dir)) == there, lambda: '%s left files' % task, 'files:%s' % task.name)
    ctx.sig('settings', task.name, repr(task.args)[:300], len(s), str(s.resolution))
    ctx.sample({'computation': repr(task)[:200], 'series': repr(s), 'outcome': got[0], 'requests': requests.events[:5]})


def accumulation(ctx, rng, index):
    """Doing the same again and again does not take more and more memory"""
    s = registry.series(rng)
    if rng.random() < 0.7:
        task = registry.draw(rng, s, ctx.dir)
        what = repr(task)

        def use():
            registry.outcome(task, s)
        name = task.name
    else:
        labels = gen.labels(rng)
        n = rng.choice([16, 24])
        line = models.Line(rng, 2 * n)
        period = rng.choice([2, 3, 4])
        rows = models.rows(rng, 2 * n, labels, period=period)
        losses = [0.0] * n
        for i in rng.sample(range(2, n - 2), 2):
            losses[i] = 1
        train, test = line.series(rows[:n]), line.series(rows[n:], first=n, losses=losses)
        name, model, fit, options = registry.new_model(rng, labels)
        if name == 'custom':
            return  # it keeps a record of its calls, on purpose
        fit = (dict(fit, periodicity=period) if name != 'custom' else {}) if fit is not None else None
        refit = fit is not None and rng.random() < 0.5
        what = 'using %s%s' % (name, ' (and fitting it again)' if refit else '')
        try:
            if fit is not None:
                quietly(lambda: model.fit(train, **fit))
        except Exception:
            return  # what is refused, it is not decided here

        def use():
            try:
                if refit:
                    model.fit(train, **fit)
                model.apply(test, **options)
                model.evaluate(test)
            except Exception:
                pass
        ctx.count('model_uses')
    counts = []
    for i in range(8):
        quietly(use)
        counts.append(footprint.live_objects())
        ctx.count('repetitions')
        if i >= 3 and any(b <= a for a, b in zip(counts[2:], counts[3:])):
            break
    else:
        ctx.fail('%s, repeated, leaves more and more objects: %s' % (what, counts), 'accumulation:%s' % name)
    ctx.sig('accumulation', what[:300], len(s), str(s.resolution))


def messages(ctx, rng, index):
    """The log level makes no difference, and the messages can be written"""
    s = registry.series(rng, n=rng.choice([4, 8, 13]))
    task = registry.draw(rng, s, ctx.dir)
    before = obs.snap(s)
    want = registry.outcome(task, s.duplicate())
    level = rng.choice([logging.DEBUG, logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING])
    with footprint.Messages(level) as log:
        got = registry.outcome(task, s)
    ctx.count('logged')
    ctx.count('messages', log.n)
    ctx.check(got == want, lambda: '%s gives something else if the log level is %s: %s' % (task, logging.getLevelName(level), obs.diff(want, got)), 'log-level:%s' % task.name, want=want, got=got)
    ctx.check(not log.broken, lambda: '%s has log messages which cannot be written: %s' % (task, log.broken[:3]), 'log-message:%s' % task.name)
    d = obs.diff(before, obs.snap(s))
    ctx.check(d is None, lambda: '%s altered the series, with log level %s: %s' % (task, logging.getLevelName(level), d), 'log-level-source:%s' % task.name)
    ctx.sig('messages', task.name, repr(task.args)[:300], len(s), str(s.resolution), level)


HOSTILE = ['(__import__("os").mkdir("canary"))', 'open("canary"+"y"\\"w")', '${HOME}', '`touch canary`', '$(touch canary)', '=cmd|canary', '../../canary', '%(canary)s', '{canary.__class__}', '!!python/object:canary', '@canary', 'canary; rm canary']


def files(ctx, rng, index):
    """Reading a file opens that file only, does not run what is in it, and closes it, also if it cannot be read"""
    n = rng.choice([2, 5, 9])
    labels = rng.sample(HOSTILE, rng.randint(1, 3))
    labels = [x.replace(',', ';') for x in labels]
    how = rng.choice(['csv', 'csv', 'load', 'json', 'model'])
    name = os.path.join(ctx.dir, 'f_%s' % index)
    series = TimeSeries(*[gen.point(t, {label: round(rng.uniform(-9, 9), 2) for label in labels}) for t in gen.times(rng, n)])
    if how == 'csv':
        series.to_csv(name)
        storage = CSVFileStorage(name)
        read = rng.choice([storage.get, storage.get, lambda: TimeSeries.from_csv(name)])
    elif how == 'load':
        series.save(name)
        read = lambda: TimeSeries.load(name)
    elif how == 'json':
        text = series.to_json()
        with open(name, 'w') as f:
            f.write(text)

        def read():
            with open(name) as f:
                return TimeSeries.from_json(f.read())
    else:
        from timeseria.models.forecasters import PeriodicAverageForecaster
        line = models.Line(rng, 24)
        train = line.series(models.rows(rng, 24, labels, period=3))
        model = PeriodicAverageForecaster()
        try:
            quietly(lambda: model.fit(train, periodicity=3))
        except ValueError:
            return
        quietly(lambda: model.save(name))
        target = os.path.join(name, 'data.json')
        read = lambda: PeriodicAverageForecaster.load(name)
    target = os.path.join(name, 'data.json') if how == 'model' else name
    broken = rng.choice([None, None, 'cut', 'text', 'bytes', 'missing'])
    if broken == 'missing':
        os.remove(target)
    elif broken:
        with open(target, 'rb') as f:
            content = f.read()
        at = rng.randrange(len(content) + 1)
        content = {'cut': content[:at], 'text': content[:at] + rng.choice(HOSTILE).encode() + content[at:], 'bytes': content[:at] + b'\xff\xfe\x00\xc3' + content[at:]}[broken]
        with open(target, 'wb') as f:
            f.write(content)
    if index < 3:
        try:
            quietly(read)
        except Exception:
            pass
    where = os.path.join(ctx.dir, 'here')
    os.makedirs(where, exist_ok=True)
    with footprint.users(rng, where):
        before = footprint.state()
        there = sorted(os.listdir(ctx.dir)), []
        try:
            with footprint.Requests() as requests:
                quietly(read)
            ctx.count('files_read')
        except Exception:
            # To be refused or not, it is not decided here
            ctx.count('refused_files')
        d = footprint.changes(before, footprint.state())
    ctx.check(not d, lambda: 'reading %s (%s) changed the process: %s' % (how, broken, d), 'reading-settings:%s' % how)
    asked = requests.of('process', 'network', 'code') + requests.written()
    ctx.check(not asked, lambda: 'reading %s (%s) asked the operating system for %s' % (how, broken, asked[:5]), 'reading-requests:%s' % how)
    run = [e for e in requests.of('compile') if 'canary' in e[1] or 'HOME' in e[1]]
    ctx.check(not run, lambda: 'reading %s (%s) compiled what is in it: %s' % (how, broken, run[:5]), 'reading-code:%s' % how)
    others = [e for e in requests.of('read') if not inside(e[1], ctx.dir) and 'canary' in e[1]]
    ctx.check(not others, lambda: 'reading %s opened %s' % (how, others), 'reading-others:%s' % how)
    ctx.check((sorted(os.listdir(ctx.dir)), sorted(os.listdir(where))) == there, lambda: 'reading %s left files' % how, 'reading-files:%s' % how)
    ctx.sig('files', how, broken, labels, n)


def strings(ctx, rng, index):
    """The strings given as parameters are not run either, nor taken as files"""
    text = rng.choice(HOSTILE)
    labels = rng.sample(HOSTILE, 2)
    s = TimeSeries(*[gen.point(t, {label: round(rng.uniform(-9, 9), 2) for label in labels}) for t in gen.times(rng, rng.choice([3, 6]))])
    from timeseria.units import TimeUnit
    # The same with a harmless text, first, for what is loaded only when used
    uses = {'select': lambda x: s.select('%s=%s' % (rng.choice(labels), x)), 'select-label': lambda x: s.select('%s=1' % x), 'unit': lambda x: TimeUnit(x), 'add': lambda x: s[0] + TimeUnit(x),
            'tz': lambda x: s.duplicate().change_tz(x), 'filter': lambda x: s.filter(x), 'resample': lambda x: s.resample(x), 'aggregate': lambda x: s.aggregate(x),
            'slice': lambda x: s.duplicate().rename_data_label(labels[0], x), 'data_loss': lambda x: [i for i in s.data_labels()] and s.data_indexes(), 'avg': lambda x: s.avg(data_label=x),
            'from_json': lambda x: TimeSeries.from_json(x), 'to_csv-label': lambda x: repr(s) + str(s) + repr(s[0]), 'storage-column': lambda x: CSVFileStorage('nofile', time_column=x, time_format=x).get(),
            'plot': lambda x: s.plot(html=True, title=x)}
    how = rng.choice(sorted(uses))
    for given in ('something', text):
        where = os.path.join(ctx.dir, 'strings')
        os.makedirs(where, exist_ok=True)
        with footprint.users(rng, where):
            before = footprint.state()
            with footprint.Requests() as requests:
                try:
                    quietly(lambda: uses[how](given))
                    ctx.count('strings_accepted')
                except Exception:
                    ctx.count('strings_refused')
            d = footprint.changes(before, footprint.state())
            left = os.listdir(where)
        shutil.rmtree(where)
    ctx.check(not d, lambda: '%s with %r changed the process: %s' % (how, text, d), 'string-settings:%s' % how)
    asked = requests.of('process', 'network', 'code') + requests.written()
    ctx.check(not asked, lambda: '%s with %r asked the operating system for %s' % (how, text, asked[:5]), 'string-requests:%s' % how)
    run = [e for e in requests.of('compile') if 'canary' in e[1] or 'HOME' in e[1]]
    ctx.check(not run, lambda: '%s with %r compiled it: %s' % (how, text, run[:5]), 'string-code:%s' % how)
    opened = [e for e in requests.of('read') if 'canary' in e[1] or 'HOME' in e[1]]
    ctx.check(not opened or how == 'tz', lambda: '%s with %r opened %s' % (how, text, opened[:5]), 'string-read:%s' % how)
    ctx.check(not left, lambda: '%s with %r left %s' % (how, text, left), 'string-files:%s' % how)
    ctx.sig('strings', how, text, labels)


def setup(ctx):
    gc.collect()
    gc.freeze()


CASES = {'settings': {'run': settings, 'quick': 2500, 'thorough': 40000, 'cpu_limit': 120},
         'accumulation': {'run': accumulation, 'quick': 900, 'thorough': 12000, 'cpu_limit': 120},
         'messages': {'run': messages, 'quick': 2500, 'thorough': 40000, 'cpu_limit': 120},
         'strings': {'run': strings, 'quick': 900, 'thorough': 10000},
         'files': {'run': files, 'quick': 2500, 'thorough': 30000}}
