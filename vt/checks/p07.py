import copy

from timeseria.datastructures import Point, Series, Slot

from .. import gen, models, obs, registry

RULE = ('random computations not in place (queries, operations, transformations, conversions, storages, plots, interpolators, models) on point and slot series, with full snapshots of source and arguments before and after, and with '
        'the result, or the source, or the arguments then altered in every part to see if the others follow; distinct by computation, arguments and series')
FLOORS = {'computations': 4000, 'not_refused': 2500, 'results_with_items': 700, 'altered_results': 800, 'altered_sources': 800, 'altered_arguments': 300, 'models': 150, 'views': 500}


def altered(x, depth=0):
    """Alter in every part whatever can be altered in a result. Returns how many changes were made."""
    n = 0
    if depth > 8:
        return 0
    if isinstance(x, (Point, Slot)):
        if hasattr(x, 'data'):
            n += altered(x.data, depth + 1)
            if x.data_indexes is not None:
                x.data_indexes['probe'] = 0.123
                for key in list(x.data_indexes):
                    x.data_indexes[key] = 0.321
                n += 1
        if hasattr(x, 'change_tz'):
            x.change_tz('Asia/Tokyo')
            n += 1
        return n
    if isinstance(x, Series):
        for item in list(x):
            n += altered(item, depth + 1)
        if type(x).__name__.endswith('View'):
            return n
        if len(x):
            list.append(x, x[0]) if not isinstance(x, Series) else None
            try:
                x.rename_data_label(x.data_labels()[0], 'renamed')
            except Exception:
                pass
            x.pop()
            n += 1
        return n
    if isinstance(x, dict):
        for key in list(x):
            if isinstance(x[key], (int, float, str, bool)) or x[key] is None:
                x[key] = 98765.25
            else:
                n += altered(x[key], depth + 1)
        x['probe'] = 1
        return n + 1
    if isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (int, float, str, bool)) or v is None:
                x[i] = 98765.25
            else:
                n += altered(v, depth + 1)
        x.append('probe')
        return n + 1
    if isinstance(x, tuple):
        return sum(altered(v, depth + 1) for v in x)
    if hasattr(x, 'iloc'):
        for column in x.columns:
            x[column] = 98765.25
        return 1
    return n


def container_altered(x):
    """Alter a result whose items are those of the source, but which is a container on its own."""
    if isinstance(x, Series):
        if len(x) and not type(x).__name__.endswith('View'):
            x.pop()
            return 1
    elif isinstance(x, list):
        x.append('probe')
        if len(x) > 1:
            x.pop(0)
        return 1
    return 0


def has_items(x):
    return isinstance(x, Series) or isinstance(x, (list, tuple)) and any(has_items(v) for v in x) or isinstance(x, (Point, Slot))


def compute(ctx, rng, index, groups=registry.GROUPS):
    s = registry.series(rng)
    base = None
    if rng.random() < 0.15 and len(s) > 3:
        # A view, which must not be a way to alter the series behind it
        base = s
        first = rng.randrange(len(base) - 2)
        s = base.view(first, rng.randint(first + 2, len(base)))
        base_before = obs.snap(base)
        ctx.count('views')
    task = registry.draw(rng, s, ctx.dir, groups)
    before = obs.snap(s)
    identities = [id(x) for x in s]
    args_before = registry.canon(task.args)
    default_before = registry.canon(s.duplicate())
    outcome, result = registry.outcome(task, s, keep=True)
    ctx.count('computations')
    if outcome[0] == 'result':
        ctx.count('not_refused')
    d = obs.diff(before, obs.snap(s))
    ctx.check(d is None, lambda: '%s, not in place, altered the series: %s' % (task, d), 'source-altered:%s' % task.name, outcome=outcome)
    if base is not None:
        d = obs.diff(base_before, obs.snap(base))
        ctx.check(d is None, lambda: '%s on a view altered the series behind: %s' % (task, d), 'base-altered:%s' % task.name)
    ctx.check(identities == [id(x) for x in s], lambda: '%s, not in place, replaced the items of the series' % task, 'source-items:%s' % task.name)
    ctx.check(registry.canon(task.args) == args_before, lambda: '%s altered its arguments: %s before' % (task, args_before), 'arguments-altered:%s' % task.name)
    if outcome[0] != 'result':
        ctx.sig(task.name, repr(task.args)[:500], before['resolution'], len(s), 'refused')
        return
    reference = registry.canon(result)
    if has_items(result):
        ctx.count('results_with_items')
    which = rng.choice(['result', 'source', 'arguments'])
    if which == 'result':
        n = container_altered(result) if task.shares else altered(result)
        if n:
            ctx.count('altered_results')
            d = obs.diff(before, obs.snap(s))
            ctx.check(d is None, lambda: 'altering the result of %s altered the series: %s' % (task, d), 'result-shared:%s' % task.name)
            ctx.check(registry.canon(task.args) == args_before, lambda: 'altering the result of %s altered its arguments' % task, 'result-shared-arguments:%s' % task.name)
            again = registry.outcome(task, s)
            ctx.check(again == outcome, lambda: 'altering the result of %s changed what it gives' % task, 'result-kept:%s' % task.name, first=outcome, second=again)
    elif which == 'source':
        n = container_altered(s) if task.shares else altered(s)
        ctx.count('altered_sources')
        ctx.check(registry.canon(result) == reference, lambda: 'altering the series altered the result of %s' % task, 'source-shared:%s' % task.name, before=reference, after=registry.canon(result))
    else:
        if altered([a for a in task.args if isinstance(a, (dict, list, Series))]) > 1:
            ctx.count('altered_arguments')
            ctx.check(registry.canon(result) == reference, lambda: 'altering the arguments of %s altered its result' % task, 'arguments-shared:%s' % task.name, before=reference, after=registry.canon(result))
            d = obs.diff(before, obs.snap(s))
            ctx.check(d is None, lambda: 'altering the arguments of %s altered the series: %s' % (task, d), 'arguments-shared-source:%s' % task.name)
    ctx.sig(task.name, repr(task.args)[:500], before['resolution'], len(s), which)
    ctx.sample({'computation': repr(task)[:200], 'series': repr(s), 'then altered': which})


def retention(ctx, rng, index):
    """A fitted model does not depend on what becomes of the series on which it was fitted or of what it gave."""
    labels = gen.labels(rng)
    n = rng.choice([16, 24, 40])
    line = models.Line(rng, 2 * n)
    period = rng.choice([2, 3, 4])
    rows = models.rows(rng, 2 * n, labels, period=period)
    losses = [0.0] * n
    for i in rng.sample(range(2, n - 2), 2):
        losses[i] = 1
    train = line.series(rows[:n])
    test = line.series(rows[n:], first=n, losses=losses)
    state = rng.getstate()
    which, model, fit, options = registry.new_model(rng, labels)
    if fit is None:
        return
    fit = dict(fit, periodicity=period) if which != 'custom' else {}
    args = copy.deepcopy(fit)
    try:
        model.fit(train, **fit)
        model.apply(test.duplicate(), **options)
    except (ValueError, NotImplementedError):
        # As multivariate series for some, or errors for which there is no index
        ctx.count('not_supported')
        return
    ctx.check(fit == args, 'the options of the fit were altered', 'fit-arguments')
    ctx.count('models')
    data = registry.canon(model)
    first = model.apply(test.duplicate(), **options)
    want = registry.canon(first)
    ctx.check(registry.canon(model) == data, lambda: 'applying %s altered the model' % which, 'apply-model:%s' % which)
    altered(train)
    altered(fit)
    ctx.check(registry.canon(model) == data, lambda: 'altering the series altered the model %s fitted on it' % which, 'fit-shared:%s' % which)
    altered(first)
    second = model.apply(test.duplicate(), **options)
    ctx.check(registry.canon(second) == want, lambda: 'altering what was used with %s altered what it gives' % which, 'model-shared:%s' % which, first=want, second=registry.canon(second))
    altered(first)
    ctx.check(registry.canon(second) == want, lambda: 'two applications of %s share their result' % which, 'apply-shared:%s' % which)
    ctx.sig(which, labels, line.describe(), n)


CASES = {'compute': {'run': compute, 'quick': 3600, 'thorough': 40000},
         'retention': {'run': retention, 'quick': 300, 'thorough': 3000}}
SCALE = {'quick': 2, 'thorough': 2}
