from .. import gen, inject, models, obs, registry

RULE = ('random computations, not in place, interrupted (as with Ctrl-C, or by an error) at random points of their execution, also several in a row on the same series: the series has to be as it was, and what is computed on it afterwards has to be bit by bit what is '
        'computed on a series never used; distinct by computation and point of the interruption')
FLOORS = {'interruptions': 2500, 'computed_after': 2500, 'others_after': 1500, 'uses_interrupted': 500, 'used_after': 1000}


def interruptions(ctx, rng, index):
    s = registry.series(rng)
    before = obs.snap(s)
    identities = [id(x) for x in s]
    pristine = s.duplicate()
    task = registry.draw(rng, s, ctx.dir)
    with inject.Lines() as lines:
        reference = registry.outcome(task, s.duplicate())
    if not lines.n:
        return
    done = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, lines.n)
        interrupt = inject.Interrupt(n, rng.choice([KeyboardInterrupt, KeyboardInterrupt, inject.Fault]))
        try:
            with interrupt:
                registry.outcome(task, s)
        except (KeyboardInterrupt, inject.Fault):
            pass
        if not interrupt.done:
            # The second time there can be something less to do
            continue
        done.append(interrupt.done)
        ctx.count('interruptions')
        ctx.count('in ' + interrupt.done)
        d = obs.diff(before, obs.snap(s))
        ctx.check(d is None, lambda: '%s interrupted in %s altered the series: %s' % (task, done, d), 'interrupted-source:%s' % task.name)
        ctx.check(identities == [id(x) for x in s], lambda: '%s interrupted in %s replaced the items of the series' % (task, done), 'interrupted-items:%s' % task.name)
    if not done:
        return
    if rng.random() < 0.6:
        other = registry.draw(rng, s, ctx.dir)
        want = registry.outcome(other, pristine.duplicate())
        got = registry.outcome(other, s)
        ctx.count('others_after')
        ctx.check(got == want, lambda: 'after %s interrupted in %s, %s does not give what it gives on an equal series: %s' % (task, done, other, obs.diff(want, got)), 'interrupted-then:%s' % task.name, want=want, got=got)
    for name in ('avg', 'sum', 'duplicate'):
        want, got = [registry.canon(getattr(x, name)()) if len(x) else None for x in (pristine, s)]
        ctx.check(got == want, lambda: 'after %s interrupted in %s, %s does not give what it gives on an equal series: %s' % (task, done, name, obs.diff(want, got)), 'interrupted-then:%s' % task.name, want=want, got=got)
    got = registry.outcome(task, s)
    ctx.count('computed_after')
    ctx.check(got == reference, lambda: '%s, after it was interrupted in %s, does not give what it gives if it was not: %s' % (task, done, obs.diff(reference, got)), 'interrupted-again:%s' % task.name, want=reference, got=got)
    ctx.sig(task.name, repr(task.args)[:300], before['resolution'], len(s), done)
    ctx.sample({'computation': repr(task)[:200], 'series': repr(s), 'interrupted in': done})


def fitted(ctx, rng, index):
    """A fitted model interrupted while it is used."""
    labels = gen.labels(rng)
    n = rng.choice([16, 24, 40])
    line = models.Line(rng, 2 * n)
    period = rng.choice([2, 3, 4])
    rows = models.rows(rng, 2 * n, labels, period=period)
    losses = [0.0] * n
    for i in rng.sample(range(2, n - 2), 2):
        losses[i] = 1
    train = line.series(rows[:n])
    test = line.series(rows[n:], first=n, losses=losses)
    which, model, fit, options = registry.new_model(rng, labels)
    if fit is not None:
        fit = dict(fit, periodicity=period) if which != 'custom' else {}

    def use(name):
        if name == 'apply':
            return lambda: model.apply(test, **options)
        if name == 'predict':
            return (lambda: model.predict(test)) if which in ('pa', 'custom') else lambda: model.predict(test, from_i=3, to_i=4)
        if name == 'mark':
            return lambda: model.mark_events(model.apply(test), 0.5)
        if name == 'save':
            return lambda: models.saved(model, ctx.dir)
        return lambda: model.evaluate(test)

    def outcome(function):
        try:
            return ['result', registry.canon(function())]
        except Exception as e:
            if isinstance(e, inject.Fault):
                raise
            return ['error', type(e).__name__, registry.clean(str(e))]
    try:
        if fit is not None:
            model.fit(train, **fit)
    except (ValueError, NotImplementedError):
        ctx.count('not_supported')
        return
    uses = {name: use(name) for name in ('apply', 'predict', 'evaluate', 'mark', 'save')}
    data = registry.canon(model)
    reference, length = {}, {}
    for name, function in uses.items():
        with inject.Lines() as lines:
            reference[name] = outcome(function)
        length[name] = lines.n
    before = [obs.snap(x) for x in (train, test)]
    done = []
    for _ in range(rng.randint(1, 4)):
        name = rng.choice(['apply', 'predict', 'evaluate', 'mark', 'save', 'save'])
        if not length[name] or reference[name][0] == 'error' and rng.random() < 0.8:
            continue
        interrupt = inject.Interrupt(rng.randint(1, length[name]), rng.choice([KeyboardInterrupt, inject.Fault]))
        try:
            with interrupt:
                outcome(uses[name])
        except (KeyboardInterrupt, inject.Fault):
            pass
        if not interrupt.done:
            continue
        done.append((name, interrupt.done))
        ctx.count('uses_interrupted')
    if not done:
        return
    for b, x in zip(before, (train, test)):
        d = obs.diff(b, obs.snap(x))
        ctx.check(d is None, lambda: '%s interrupted in %s altered a series: %s' % (which, done, d), 'interrupted-model-source:%s' % which)
    ctx.check(registry.canon(model) == data, lambda: '%s interrupted in %s altered the model' % (which, done), 'interrupted-model:%s' % which)
    for name, function in uses.items():
        got = outcome(function)
        ctx.count('used_after')
        ctx.check(got == reference[name], lambda: 'after %s of the model %s, %s does not give what it gave before: %s' % (done, which, name, obs.diff(reference[name], got)), 'interrupted-use:%s' % which, want=reference[name], got=got)
    ctx.sig(which, options, labels, n, line.kind, done)


CASES = {'interruptions': {'run': interruptions, 'quick': 3000, 'thorough': 40000, 'cpu_limit': 120},
         'fitted': {'run': fitted, 'quick': 900, 'thorough': 9000, 'cpu_limit': 120}}
