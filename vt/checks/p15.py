import os

from timeseria.datastructures import DataTimePoint, TimePoint, TimeSeries, TimeSlot
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import PeriodicAverageReconstructor
from timeseria.storages import CSVFileStorage

from .. import gen, obs

RULE = ('sequences of puts, saves, CSV conversions and gets on the files of a scratch directory, with and without overwriting, of series which can and cannot be stored (empty, with no data, with labels '
        'or values which cannot be written or encoded), with the bytes of every file compared with what they should be after every step; and saves of models; distinct by sequence')
FLOORS = {'steps': 3000, 'refused_overwrites': 200, 'refused_series': 200, 'overwrites': 200, 'reads': 300, 'loads_back': 300, 'model_saves': 20}


class Unwritable(float):
    def __str__(self):
        raise RuntimeError('cannot be written')
    __repr__ = __str__


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def listing(directory):
    return {name: read(os.path.join(directory, name)) for name in sorted(os.listdir(directory))}


def storable(rng):
    return gen.any_series(rng, n=rng.choice([1, 2, 5, 20]), index_names=rng.choice([(), ('data_loss',)]))


def unstorable(rng):
    """Series which cannot be stored, with the arguments."""
    kind = rng.choice(['empty', 'no_data_points', 'no_data_slots', 'label', 'value', 'encoding', 'id'])
    if kind == 'empty':
        return kind, TimeSeries(), {}
    if kind == 'no_data_points':
        return kind, TimeSeries(TimePoint(t=0), TimePoint(t=60)), {}
    if kind == 'no_data_slots':
        return kind, TimeSeries(TimeSlot(start=TimePoint(t=0), end=TimePoint(t=60))), {}
    if kind == 'label':
        return kind, gen.point_series(rng, the_labels=['a', rng.choice(['b,c', 'nan', '__x', 'a\nb'])], as_list=False), {}
    if kind == 'value':
        series = gen.point_series(rng, n=rng.choice([2, 5, 60]), the_labels=['a', 'b'], as_list=False)
        series[rng.choice([0, -1])].data['b'] = Unwritable(1)
        return kind, series, {}
    if kind == 'encoding':
        return kind, gen.point_series(rng, n=5, the_labels=['a', '温度'], as_list=False), {'encoding': rng.choice(['ascii', 'latin-1'])}
    return kind, storable(rng), {}


def files(ctx, rng, index):
    directory = os.path.join(ctx.dir, 'files_%s' % index)
    os.makedirs(directory)
    shadow = {}
    log = []
    held = {}
    for _ in range(rng.randint(4, 14)):
        name = rng.choice(['a.csv', 'b.csv', 'c.csv'])
        path = os.path.join(directory, name)
        action = rng.choice(['put', 'put', 'put', 'bad', 'bad', 'read', 'foreign'])
        if action == 'foreign':
            # Some other content
            content = rng.choice([b'', b'hello\n', b'\xff\xfe\x00garbage', b'epoch,value\n0,1\n60,2\n', b'# comment\nepoch,value\n0,1\n60,x\n'])
            with open(path, 'wb') as f:
                f.write(content)
            shadow[name] = content
            held.pop(name, None)
        elif action in ('put', 'bad'):
            overwrite = rng.random() < 0.5
            kwargs = {}
            why, the_id = None, None
            if action == 'bad':
                why, series, kwargs = unstorable(rng)
                if why == 'id':
                    the_id = 'some'
            else:
                series = storable(rng)
            how = rng.choice(['put', 'save', 'to_csv']) if the_id is None else 'put'
            before = obs.snap(series) if why not in ('value',) else None
            exists = name in shadow
            if how == 'put':
                error = ctx.raises(lambda: CSVFileStorage(path, **kwargs).put(series, overwrite=overwrite, **({'id': the_id} if the_id else {})))
            elif how == 'save':
                error = ctx.raises(lambda: series.save(path, overwrite=overwrite, **kwargs) if overwrite or rng.random() < 0.5 else series.save(path, **kwargs))
            else:
                error = ctx.raises(lambda: series.to_csv(path, overwrite=overwrite, **kwargs))
            log.append((how, name, overwrite, why))
            if why:
                ctx.count('refused_series')
                ctx.check(error is not None, lambda: 'a series which cannot be stored (%s) was' % why, 'stored-%s' % why)
            elif exists and not overwrite:
                ctx.count('refused_overwrites')
                ctx.check(error is not None, 'an existing file was overwritten without being asked to', 'overwritten')
            else:
                ctx.check(error is None, lambda: 'storing failed: %r' % error, 'refused')
                ctx.count('overwrites' if exists else 'writes')
                shadow[name] = read(path)
                held[name] = series
            if before is not None:
                ctx.check(obs.diff(before, obs.snap(series)) is None, 'storing changed the series', 'pure')
        elif name in shadow:
            # Reading, also of something which makes no sense, does not change it
            how = rng.choice(['load', 'get', 'from_csv'])
            log.append((how, name))
            ctx.raises(lambda: TimeSeries.load(path) if how == 'load' else (CSVFileStorage(path).get() if how == 'get' else TimeSeries.from_csv(path)))
            ctx.count('reads')
        found = listing(directory)
        ctx.count('steps')
        for other in set(found) | set(shadow):
            ctx.check(other in found, lambda: '%s lost after %s' % (other, log[-1]), 'lost')
            ctx.check(other in shadow, lambda: '%s created by %s' % (other, log[-1]), 'created')
            ctx.check(found[other] == shadow[other], lambda: '%s changed from %s to %s after %s' % (other, shadow[other][:200], found[other][:200], log[-1]), 'changed')
        # What is in the file is all and only the last series put in it
        if name in held:
            loaded = TimeSeries.load(path)
            series = held[name]
            ctx.count('loads_back')
            ctx.check(len(loaded) == len(series) and [x.t for x in loaded] == [x.t for x in series] and sorted(loaded.data_labels()) == sorted(series.data_labels()),
                      lambda: 'the file has %s instead of %s' % (loaded, series), 'content')
            label = loaded.data_labels()[0]
            ctx.check(obs.column(loaded, label) == obs.column(series, label), 'the file has other values', 'content')
    ctx.sig(log)
    ctx.sample(log)


def models(ctx, rng, index):
    """Models are saved only on paths which do not exist, leaving what is there alone."""
    directory = os.path.join(ctx.dir, 'models_%s' % index)
    os.makedirs(directory)
    series = gen.point_series(rng, n=48, spacing=3600, irregular=0, the_labels=['value'], as_list=False, start=0, tz='UTC', values=lambda i, t: {'value': (i % 6) + rng.random() / 10})
    model = rng.choice([PeriodicAverageForecaster, PeriodicAverageReconstructor])()
    path = os.path.join(directory, 'model')
    kind = rng.choice(['file', 'directory', 'model', 'unfitted', 'new', 'empty'])
    if kind != 'unfitted':
        model.fit(series, periodicity=6)
    if kind == 'file':
        with open(path, 'w') as f:
            f.write('something')
    elif kind == 'directory':
        os.makedirs(path)
        with open(os.path.join(path, 'data.json'), 'w') as f:
            f.write('something')
    elif kind == 'model':
        model.save(path)
        model = model.__class__()
        model.fit(series, periodicity=8)
    def tree():
        return {os.path.join(root, name): read(os.path.join(root, name)) for root, _, names in os.walk(directory) for name in names}
    before = tree()
    error = ctx.raises(lambda: model.save(path if kind != 'empty' else ''))
    ctx.count('model_saves')
    if kind == 'new':
        ctx.check(error is None and os.path.isfile(os.path.join(path, 'data.json')), lambda: 'saving failed: %r' % error, 'model-save')
    else:
        ctx.check(error is not None, 'saving a model on something which exists (or unfitted) was not refused', 'model-overwritten')
        ctx.check(tree() == before and os.path.exists(path) == (kind in ('file', 'directory', 'model')), 'refusing to save a model changed the files', 'model-changed')
    ctx.sig('models', kind, model.__class__.__name__, index % 10)


CASES = {'files': {'run': files, 'quick': 1500, 'thorough': 20000},
         'models': {'run': models, 'quick': 60, 'thorough': 600}}
