import contextlib
import io

from .. import gen, inject, models, obs, registry

RULE = ('random computations, not in place, on the same series (or with the same fitted model) going on together in two to four threads, which are switched at random lines of the library (one at a time, as by the interpreter, always in the same way for the same seed): '
        'each has to give bit by bit what it gives alone, and the series and the models have to be as they were; distinct by computations and interleaving')
FLOORS = {'threads': 3000, 'switches': 50000, 'not_refused': 2000, 'interleaved': 1000, 'models': 150, 'same_objects': 200}


def outcome(function):
    try:
        return ['result', registry.canon(function())]
    except Exception as e:
        return ['error', type(e).__name__, registry.clean(str(e))]


def together(ctx, rng, functions):
    schedule = inject.Schedule(rng, functions, rng.choice([0.5, 0.2, 0.05, 0.01, 0.002]))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        results = schedule.run()
    ctx.count('threads', len(functions))
    ctx.count('switches', schedule.switches)
    if schedule.switches > 1:
        ctx.count('interleaved')
    return results, schedule


def threads(ctx, rng, index):
    s = registry.series(rng)
    before = obs.snap(s)
    tasks = [registry.draw(rng, s, ctx.dir) for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.3:
        # The same computation, on its own object
        state = rng.getstate()
        tasks = []
        for _ in range(2):
            rng.setstate(state)
            tasks.append(registry.draw(rng, s, ctx.dir, [(g, w) for g, w in registry.GROUPS if g is not registry.task_conversion]))
    elif rng.random() < 0.3:
        # The same computation with the same objects (as transformers, arguments and so on)
        tasks = [registry.draw(rng, s, ctx.dir, [(g, w) for g, w in registry.GROUPS if g is not registry.task_conversion])] * 2
        ctx.count('same_objects')
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        want = [outcome(lambda: task.run(s.duplicate())) for task in tasks]
    fresh = s.duplicate()
    got, schedule = together(ctx, rng, [lambda task=task: outcome(lambda: task.run(fresh)) for task in tasks])
    names = [task.name for task in tasks]
    for task, w, g in zip(tasks, want, got):
        if w[0] == 'result':
            ctx.count('not_refused')
        ctx.check(w == g, lambda: '%s, while other threads run %s, does not give what it gives alone: %s' % (task, names, obs.diff(w, g)), 'threads:%s' % task.name, want=w, got=g, switches=schedule.where[:200])
    d = obs.diff(before, obs.snap(fresh))
    ctx.check(d is None, lambda: 'computing %s in threads altered the series: %s' % (names, d), 'threads-source')
    for name in ('avg', 'sum', 'duplicate'):
        w, g = [registry.canon(getattr(x, name)()) for x in (s, fresh)]
        ctx.check(w == g, lambda: 'after %s in threads, %s does not give what it gives on an equal series: %s' % (names, name, obs.diff(w, g)), 'threads-then')
    ctx.sig([repr(task)[:200] for task in tasks], before['resolution'], len(s), schedule.where[:50])
    ctx.sample({'computations': [repr(task)[:150] for task in tasks], 'series': repr(s), 'switches': schedule.switches})


def shared_model(ctx, rng, index):
    labels = gen.labels(rng)
    n = rng.choice([16, 24, 40])
    line = models.Line(rng, 2 * n)
    period = rng.choice([2, 3, 4])
    rows = models.rows(rng, 2 * n, labels, period=period)
    losses = [[0.0] * n, [0.0] * (n - 4)]
    for x in losses:
        for i in rng.sample(range(2, len(x) - 2), 2):
            x[i] = 1
    train = line.series(rows[:n])
    others = [{label: value * 3 - 7 for label, value in row.items()} for row in rows]
    tests = [line.series(rows[n:], first=n, losses=losses[0]), line.series(others[n:2 * n - 4], first=n, losses=losses[1])]
    which, model, fit, options = registry.new_model(rng, labels)
    if fit is not None:
        fit = dict(fit, periodicity=period) if which != 'custom' else {}
    try:
        if fit is not None:
            model.fit(train, **fit)
    except (ValueError, NotImplementedError):
        ctx.count('not_supported')
        return
    uses = []
    first = rng.randrange(2)
    for i in range(rng.choice([2, 2, 3])):
        name = rng.choice(['apply', 'apply', 'predict', 'evaluate', 'save'])
        test = tests[(first + i) % 2]
        if name == 'save':
            uses.append((name, lambda: models.saved(model, ctx.dir)))
        elif name == 'apply':
            uses.append((name, lambda test=test: model.apply(test, **options)))
        elif name == 'predict':
            uses.append((name, (lambda test=test: model.predict(test)) if which in ('pa', 'custom') else lambda test=test: model.predict(test, from_i=3, to_i=4)))
        else:
            uses.append((name, lambda test=test: model.evaluate(test)))
    data = registry.canon(model)
    before = [obs.snap(x) for x in tests]
    want = [outcome(function) for _, function in uses]
    got, schedule = together(ctx, rng, [lambda function=function: outcome(function) for _, function in uses])
    ctx.count('models')
    names = [name for name, _ in uses]
    for name, w, g in zip(names, want, got):
        ctx.check(w == g, lambda: '%s with a model %s, while other threads use it for %s, does not give what it gives alone: %s' % (name, which, names, obs.diff(w, g)), 'threads-model:%s' % which, want=w, got=g, switches=schedule.where[:200])
    ctx.check(registry.canon(model) == data, lambda: 'using a model %s in threads altered it' % which, 'threads-model-altered:%s' % which)
    for b, x in zip(before, tests):
        d = obs.diff(b, obs.snap(x))
        ctx.check(d is None, lambda: 'using a model %s in threads altered a series: %s' % (which, d), 'threads-model-source:%s' % which)
    ctx.sig(which, options, names, n, line.kind, schedule.where[:50])


CASES = {'threads': {'run': threads, 'quick': 1500, 'thorough': 20000, 'cpu_limit': 120},
         'shared_model': {'run': shared_model, 'quick': 400, 'thorough': 6000, 'cpu_limit': 120}}
