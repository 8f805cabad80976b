from timeseria.datastructures import TimeSeries

from .. import gen
from ..machine import Machine

RULE = ('random histories of changes on point and slot series, with the resolution re-computed from the items after every step, plus two-points '
        'series with decimal spacings; non trivial: at least five accepted operations, distinct by sequence of operations')
FLOORS = {'resolution_observations': 500, 'resolution:variable': 50, 'resolution:seconds': 50, 'resolution:unit': 50}


def history(ctx, rng, index):
    machine = Machine(ctx, rng, {'resolution'}).run(rng.randint(10, 60))
    if machine.accepted < 5:
        ctx._sig = None
    ctx.sample(machine.log)


def decimals(ctx, rng, index):
    """The spacing between two points is the resolution, up to the microsecond"""
    spacing = rng.choice([1.05, 10.05, 0.1, 0.01, 100.05, 0.001, 0.0001, 0.00005, 60.06, 3600.05, 600.5, 20.07, 0.5,
                          round(rng.uniform(0.001, 200), rng.randint(1, 5)), rng.randint(1, 100000), float(rng.randint(1, 5000)), rng.randint(1, 200) * 10])
    if spacing <= 0:
        return
    series = TimeSeries(gen.point(0, {'a': 1}), gen.point(spacing, {'a': 1}))
    got = series.resolution
    ctx.count('resolution_observations')
    ctx.check(abs(got.as_seconds() - spacing) < 1.5e-6, lambda: 'resolution is %s instead of %s seconds' % (got, spacing), 'resolution-decimals')
    ctx.sig(spacing)


CASES = {'history': {'run': history, 'quick': 3000, 'thorough': 40000},
         'decimals': {'run': decimals, 'quick': 800, 'thorough': 4000}}
