import math

from timeseria.datastructures import TimeSeries
from timeseria.units import TimeUnit
from timeseria.utilities import detect_periodicity, detect_sampling_interval

from .. import gen, obs

RULE = ('sampling intervals detected on point series with gaps, jitter, noise and any spacing (also while the series grows and shrinks, on views, slices and duplicates), against the spacing they were generated '
        'with and against the counts of their spacings; and periodicities detected on periodic signals; distinct by series')
FLOORS = {'detections': 1500, 'undetectable': 20, 'grown': 200, 'jittered': 200, 'guesses': 300, 'guesses_refused': 100, 'periodicities': 200}


def counts_of(ts):
    counts = {}
    for a, b in zip(ts, ts[1:]):
        counts[b - a] = counts.get(b - a, 0) + 1
    return counts


def judge(ctx, series, ts, what):
    """The most common spacing, and the confidence in it."""
    counts = counts_of(ts)
    ctx.count('detections')
    if len(counts) >= 0.5 * len(ts):
        # Too spread for this oracle
        ctx.count('spread')
        return
    value, confidence = detect_sampling_interval(series, confidence=True)
    top = max(counts.values())
    ctx.check(counts.get(value) == top, lambda: '%s: detected %s (%s times) while the most common spacing is there %s times' % (what, value, counts.get(value), top), 'interval')
    ctx.check(detect_sampling_interval(series) == value, 'different interval with and without the confidence', 'interval')
    ctx.check(0 <= confidence <= 1 and (confidence == 1) == (len(counts) == 1), lambda: '%s: confidence %s with spacings %s' % (what, confidence, counts), 'confidence')
    if isinstance(series, TimeSeries) and sorted(counts.values())[-1] > (sorted(counts.values())[-2] if len(counts) > 1 else 0):
        used = getattr(series, '_autodetected_sampling_interval', value)
        ctx.check(used == value, lambda: '%s: the interval used for computing is %s instead of %s' % (what, used, value), 'stale')
        if series.resolution == 'variable':
            guess = series.guess_resolution()
            ctx.count('guesses')
            ctx.check(isinstance(guess, TimeUnit) and obs.close(guess.as_seconds(), value, abs_=1e-6), lambda: '%s: guessed resolution %s with interval %s' % (what, guess, value), 'guess')
            both = series.guess_resolution(confidence=True)
            ctx.check(both['value'] == guess and obs.close(both['confidence'], confidence), 'wrong confidence of the guess', 'guess')
        elif series.resolution is not None:
            error = ctx.raises(series.guess_resolution)
            ctx.check(isinstance(error, ValueError), lambda: '%s: guessing the resolution of a series at %s gave %r' % (what, series.resolution, error), 'guess')
            ctx.count('guesses_refused')


def interval(ctx, rng, index):
    n = rng.choice([4, 6, 10, 30, 80])
    spacing = rng.choice(gen.SPACINGS + [0.5, 30, 300, 7200])
    irregular = rng.choice([0, 0.05, 0.15, 0.3])
    series = gen.point_series(rng, n=n, spacing=spacing, irregular=irregular, as_list=False, start=rng.choice([None, 0]) )
    ts = [x.t for x in series]
    judge(ctx, series, ts, 'new series')
    if len(counts_of(ts)) == 1:
        ctx.check(detect_sampling_interval(series) == spacing, 'wrong interval on a regular series', 'interval')
    # Change it
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(['append', 'append', 'pop', 'slice', 'duplicate', 'remove', 'tz'])
        if how == 'append':
            new = rng.choice([spacing, spacing, spacing * 2, spacing * 4])
            for _ in range(rng.choice([1, 5, 2 * n])):
                series.append(gen.point(series[-1].t + new, gen.data(rng, series.data_labels())))
            ctx.count('grown')
        elif len(series) > 6:
            if how == 'pop':
                for _ in range(rng.randint(1, len(series) - 5)):
                    series.pop() if rng.random() < 0.5 else series.pop(0)
            elif how == 'slice':
                i = rng.randint(0, len(series) - 5)
                series = series[i:rng.randint(i + 4, len(series))]
            elif how == 'duplicate':
                series = series.duplicate()
            elif how == 'remove':
                series.remove(rng.choice([x for x in series]))
            else:
                series.change_tz('Europe/Rome')
        ts = [x.t for x in series]
        judge(ctx, series, ts, 'after %s' % how)
        view = series.view(0, len(series))
        judge(ctx, view, ts, 'on a view')
    ctx.sig(ts)
    ctx.sample({'points': n, 'spacing': spacing, 'irregular': irregular})


def jittered(ctx, rng, index):
    """Sampled on regular intervals, but for noise below half a second"""
    spacing = rng.choice([5, 10, 60, 300, 600, 3600])
    n = rng.choice([12, 30, 100])
    noise = rng.choice([0.2, 0.05, 0.01])
    series = TimeSeries()
    t = gen.t0(rng)
    ts = []
    for i in range(n):
        x = round(t + rng.uniform(-noise, noise), 6)
        ts.append(x)
        series.append(gen.point(x, {'a': i}))
        t += spacing
    value = detect_sampling_interval(series)
    ctx.count('jittered')
    ctx.count('detections')
    ctx.check(obs.close(value, spacing, abs_=2 * noise + 1e-3), lambda: 'detected %s on a series sampled every %s seconds plus at most %s' % (value, spacing, noise), 'jittered')
    ctx.sig('jittered', ts)


def hostile(ctx, rng, index):
    """Anything else: either an interval which is one of the spacings (or rounds one), or an error, and always an answer"""
    n = rng.randint(2, 40)
    how = rng.choice(['random', 'growing', 'tiny', 'two', 'huge'])
    t = gen.t0(rng)
    ts = []
    for i in range(n):
        ts.append(t)
        t += {'random': rng.uniform(0.001, 10000), 'growing': 1.5 ** (i % 60), 'tiny': rng.randint(1, 50) / 64, 'two': rng.choice([0.25, 3]), 'huge': rng.randint(1, 10) * 1e7 }[how]
        t = round(t * 1024) / 1024
        if t <= ts[-1]:
            t = ts[-1] + 1 / 1024
    series = TimeSeries()
    for x in ts:
        series.append(gen.point(x, {'a': 1}))
    value = None
    error = None
    try:
        value, confidence = detect_sampling_interval(series, confidence=True)
    except Exception as e:
        error = e
    ctx.count('detections')
    spacings = [b - a for a, b in zip(ts, ts[1:])]
    if error is not None:
        ctx.count('undetectable')
        ctx.check(len(set(spacings)) >= 0.5 * len(spacings), lambda: 'interval not detected (%r) with spacings %s' % (error, spacings), 'undetected')
    else:
        ctx.check(any(x == value or round(x) == value for x in spacings), lambda: 'detected %s, which is none of the spacings %s' % (value, spacings), 'invented')
        ctx.check(0 <= confidence <= 1, lambda: 'confidence %s' % confidence, 'confidence')
    str(series), repr(series)
    ctx.sig('hostile', ts)


def periodicity(ctx, rng, index):
    period = rng.choice([4, 6, 8, 12, 20, 24, 48])
    cycles = rng.randint(6, 12)
    amplitude = rng.choice([1, 10, 0.1])
    offset = rng.choice([0, 5, -100])
    phase = rng.uniform(0, 6.28)
    signal = lambda i, t: {'value': offset + amplitude * math.sin(2 * math.pi * i / period + phase)}
    if rng.random() < 0.5:
        series = gen.point_series(rng, n=period * cycles, spacing=rng.choice([1, 600, 3600]), irregular=0, the_labels=['value'], as_list=False, values=signal)
    else:
        series = gen.slot_series(rng, n=period * cycles, unit=rng.choice(['1h', '15m', '1D']), zone=rng.choice(['UTC', 'Europe/Rome']), the_labels=['value'], as_list=False, values=signal)
    before = obs.snap(series)
    value = detect_periodicity(series)
    ctx.count('periodicities')
    ctx.check(value == period, lambda: 'detected a periodicity of %s on a sine with period %s (%s cycles)' % (value, period, cycles), 'periodicity')
    ctx.check(obs.diff(before, obs.snap(series)) is None, 'detecting changed the series', 'pure')
    ctx.sig('periodicity', period, cycles, phase)


CASES = {'interval': {'run': interval, 'quick': 1500, 'thorough': 20000},
         'jittered': {'run': jittered, 'quick': 400, 'thorough': 4000, 'cpu_limit': 20},
         'hostile': {'run': hostile, 'quick': 800, 'thorough': 10000, 'cpu_limit': 20},
         'periodicity': {'run': periodicity, 'quick': 400, 'thorough': 4000}}
