from timeseria.datastructures import Slot, TimeSeries

from .. import gen, obs

RULE = ('chains of filters by data label, selections by value, label renamings and label, index and data loss removals on generated point and slot series, each followed by a full '
        'comparison with a model made of plain dictionaries and by an append in the new form (and one in the old, refused); distinct by chain and content')
FLOORS = {'filter': 300, 'select': 300, 'selected_items': 300, 'rename': 300, 'remove_label': 200, 'remove_index': 200, 'appends': 500, 'refused': 300, 'refused_renames': 100}


def model_of(series):
    return [(x.start.t if isinstance(x, Slot) else x.t, dict(x.data), dict(x.data_indexes)) for x in series]


def compare(ctx, series, model, what):
    ctx.check(len(series) == len(model), 'items lost or added by ' + what, what + '-length')
    for item, (t, d, indexes) in zip(series, model):
        where = item.start.t if isinstance(item, Slot) else item.t
        ctx.check(where == t, lambda: '%s moved an item' % what, what + '-times')
        ctx.check(dict(item.data) == d, lambda: '%s gave data %r instead of %r' % (what, item.data, d), what + '-data')
        ctx.check(dict(item.data_indexes) == indexes, lambda: '%s gave indexes %r instead of %r' % (what, item.data_indexes, indexes), what + '-indexes')
        ctx.check(sorted(item.data_labels()) == sorted(d), 'wrong labels after ' + what, what + '-labels')
        ctx.check(item.data_loss == indexes.get('data_loss'), 'wrong data loss after ' + what, what + '-loss')
    ctx.check(sorted(series.data_labels()) == sorted(model[0][1]), 'wrong series labels after ' + what, what + '-labels')


def chain(ctx, rng, index):
    index_names = rng.choice([(), ('data_loss',), ('data_loss', 'anomaly')])
    the_labels = gen.labels(rng, 4)
    few = rng.random() < 0.5
    values = (lambda i, t: {label: rng.choice([0, 1, 2.5, -3]) for label in the_labels}) if few else None
    series = gen.any_series(rng, the_labels=the_labels, as_list=False, index_names=index_names, values=values, n=rng.choice([2, 3, 8, 20]))
    model = model_of(series)
    zone, first = str(series.tz), series[0]
    old = None
    path = []
    for _ in range(rng.randint(1, 4)):
        labels = sorted(model[0][1])
        what = rng.choice(['filter', 'filter', 'select', 'rename', 'remove_label', 'remove_index', 'remove_loss'])
        if what == 'remove_label' and len(labels) < 2:
            what = 'rename'
        path.append(what)
        ctx.count(what)
        if what == 'filter':
            keep = rng.sample(labels, rng.randint(1, len(labels)))
            before = obs.snap(series)
            got = series.filter(*keep)
            ctx.check(obs.diff(before, obs.snap(series)) is None, 'filtering changed the series', 'filter-pure')
            ctx.check(type(got) is TimeSeries and str(got.resolution) == str(series.resolution) and str(got.tz) == str(series.tz), 'filtering changed type, resolution or time zone', 'filter-series')
            # Independent from the source
            for item in series:
                item.data[keep[0]] = -12345
            series = got
            if len(keep) < len(labels):
                old = dict(model[0][1])
            model = [(t, {k: v for k, v in d.items() if k in keep}, i) for t, d, i in model]
            error = ctx.raises(lambda: series.filter('not there'))
            ctx.check(error is not None, 'filtering by a label which does not exist gave a series', 'filter-no-label')
        elif what == 'select':
            label = rng.choice(labels)
            if '=' in label:
                continue
            v = rng.choice(model)[1][label] if rng.random() < 0.85 else 4.75
            query = rng.choice(['%s=%r', '%s = %r', '"%s"=%r', '"%s" = %r']) % (label, v)
            got = series.select(query)
            want = [item for item, (t, d, i) in zip(series, model) if d[label] == v]
            got = [] if got is None else list(got)
            ctx.count('selected_items', len(want))
            ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: 'selecting %s gave %s items instead of %s' % (query, len(got), len(want)), 'select-items')
        elif what == 'rename':
            label = rng.choice(labels)
            new = label + '_new'
            if len(labels) > 1 and rng.random() < 0.4:
                # On another label, or from one which is not there
                other = rng.choice([l for l in labels if l != label])
                error = ctx.raises(lambda: series.rename_data_label(label, other) if rng.random() < 0.7 else series.rename_data_label('not_there', rng.choice([other, 'new'])))
                ctx.count('refused_renames')
                ctx.check(isinstance(error, (ValueError, KeyError)), lambda: 'renaming %s as %s gave %r' % (label, other, error), 'rename-refused')
                compare(ctx, series, model, 'refused rename')
            old = dict(model[0][1])
            series.rename_data_label(label, new)
            model = [(t, {(new if k == label else k): v for k, v in d.items()}, i) for t, d, i in model]
        elif what == 'remove_label':
            label = rng.choice(labels)
            old = dict(model[0][1])
            series.remove_data_label(label)
            model = [(t, {k: v for k, v in d.items() if k != label}, i) for t, d, i in model]
        elif what == 'remove_index':
            name = rng.choice(['data_loss', 'anomaly', 'not_there'])
            series.remove_data_index(name)
            model = [(t, d, {k: v for k, v in i.items() if k != name}) for t, d, i in model]
        else:
            series.remove_data_loss()
            model = [(t, d, {k: v for k, v in i.items() if k != 'data_loss'}) for t, d, i in model]
        compare(ctx, series, model, what)
    # Still usable, in the current form and not in the old one
    last = series[-1]

    def following(d):
        if isinstance(last, Slot):
            return type(last)(start=last.end, unit=last.unit, data=dict(d))
        return gen.point(last.t + 60, dict(d), str(last.tz))
    n = len(series)
    if old is not None and sorted(old) != sorted(model[0][1]):
        error = ctx.raises(lambda: series.append(following(old)))
        ctx.check(error is not None and len(series) == n, 'an item with the old labels was accepted', 'old-labels')
        ctx.count('refused')
    series.append(following(model[0][1]))
    ctx.count('appends')
    ctx.check(len(series) == n + 1, 'an item with the current labels was not appended', 'new-labels')
    ctx.sig(path, repr(model)[:1500])
    ctx.sample({'chain': path, 'series': repr(series)})


CASES = {'chain': {'run': chain, 'quick': 4000, 'thorough': 60000}}
