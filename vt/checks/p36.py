import contextlib
import decimal
import fractions
import io
import math
import random

import numpy

from timeseria.utilities import (DistributionFunction, ensure_reproducibility, is_numerical, max_absolute_error, max_absolute_log_error, max_absolute_percentage_error, mean_absolute_error,
                                 mean_absolute_log_error, mean_absolute_percentage_error, mean_squared_error, os_shell, rescale)

from .. import obs

RULE = ('random values: error metrics of lists of them, rescalings of numbers, probability distributions and their inversion, shell commands with any output and exit code, seeds of the random generators, and what is a number; against their definitions, '
        'computed with fractions or closed forms; distinct by content')
FLOORS = {'metrics': 4000, 'rescaled': 500, 'rescale_refused': 200, 'densities': 1000, 'inverted': 300, 'commands': 30, 'failed_commands': 10, 'reseeded': 50, 'kinds': 500}


def numbers(rng, n, positive=False):
    kind = rng.choice(['int', 'small', 'wide', 'mixed'])
    out = []
    while len(out) < n:
        x = {'int': lambda: rng.randint(-20, 20), 'small': lambda: round(rng.uniform(-1, 1), 3), 'wide': lambda: rng.uniform(-1, 1) * 10 ** rng.randint(-3, 8),
             'mixed': lambda: rng.choice([rng.randint(-5, 5), rng.uniform(-5, 5), 1000000])}[kind]()
        x = abs(x) if positive else x
        if x != 0:
            out.append(x)
    return out


def metrics(ctx, rng, index):
    n = rng.choice([1, 1, 2, 3, 10, 50])
    positive = rng.random() < 0.5
    a = numbers(rng, n, positive)
    b = [x if rng.random() < 0.2 else y for x, y in zip(a, numbers(rng, n, positive))]
    pairs = [(fractions.Fraction(x), fractions.Fraction(y)) for x, y in zip(a, b)]
    absolute = [abs(x - y) for x, y in pairs]
    percentage = [abs((x - y) / x) for x, y in pairs]
    wanted = [(mean_absolute_error, float(sum(absolute) / n)), (mean_squared_error, float(sum(x * x for x in absolute) / n)), (max_absolute_error, float(max(absolute))),
              (mean_absolute_percentage_error, float(sum(percentage) / n)), (max_absolute_percentage_error, float(max(percentage)))]
    if positive:
        logs = [abs(math.log(x / y)) for x, y in zip(a, b)]
        wanted += [(mean_absolute_log_error, math.fsum(logs) / n), (max_absolute_log_error, max(logs))]
    copies = list(a), list(b)
    for function, want in wanted:
        got = function(a, b)
        ctx.count('metrics')
        ctx.check(obs.close(got, want, rel=1e-9, abs_=1e-12 * max(abs(x) for x in a + b)), lambda: '%s of %s with respect to %s is %s instead of %s' % (function.__name__, b, a, got, want), 'metric:%s' % function.__name__)
    ctx.check((a, b) == copies, 'the lists were altered', 'metric-pure')
    short = a + [1]
    for function, _ in wanted:
        error = ctx.raises(lambda: function(a, short))
        ctx.check(isinstance(error, ValueError), lambda: '%s of lists with different lengths gave %r' % (function.__name__, error), 'metric-lengths')
    ctx.sig('metrics', a, b)


def rescalings(ctx, rng, index):
    source = sorted(rng.sample(range(0, 50), 2)) if rng.random() < 0.5 else sorted(round(rng.uniform(0, 100), 2) for _ in range(2))
    if source[0] == source[1]:
        return
    target = rng.choice([None, (0, 1), (0, 10), (5, 6), (10, 3), (2.5, 100), (0, 2), (1, 2), (0.5, 1)])
    options = {} if target is None else {'target_from': target[0], 'target_to': target[1]}
    first, last = target or (0, 1)
    for _ in range(3):
        x = rng.choice([source[0], source[1], rng.uniform(*source)])
        got = rescale(x, source[0], source[1], **options)
        want = first + (x - source[0]) / (source[1] - source[0]) * (last - first)
        ctx.count('rescaled')
        ctx.check(obs.close(got, want, rel=1e-9), lambda: 'rescaling %s from %s to %s gave %s instead of %s' % (x, source, target, got, want), 'rescale')
    for x in (source[0] - rng.choice([1, 0.25]), source[1] + rng.choice([1, 0.25])):
        error = ctx.raises(lambda: rescale(x, source[0], source[1], **options))
        ctx.count('rescale_refused')
        ctx.check(isinstance(error, ValueError), lambda: 'rescaling %s, outside %s, gave %r' % (x, source, error), 'rescale-outside')
    ctx.sig('rescalings', source, target)


def distributions(ctx, rng, index):
    name = rng.choice(['norm', 'norm', 'laplace', 'logistic', 'cauchy', 'gennorm'])
    loc, scale = rng.choice([0, 0, round(rng.uniform(-5, 5), 2)]), rng.choice([1, 0.25, round(rng.uniform(0.1, 8), 2)])
    params = {'loc': loc, 'scale': scale}
    if name == 'gennorm':
        params['beta'] = rng.choice([1, 2, 1.5])
    function = DistributionFunction(name, params)

    def density(x):
        z = (x - loc) / scale
        if name == 'norm':
            return math.exp(-z * z / 2) / math.sqrt(2 * math.pi) / scale
        if name == 'laplace':
            return math.exp(-abs(z)) / 2 / scale
        if name == 'logistic':
            return math.exp(-z) / (1 + math.exp(-z)) ** 2 / scale
        if name == 'cauchy':
            return 1 / (math.pi * (1 + z * z)) / scale
        beta = params['beta']
        return beta / (2 * scale * math.gamma(1 / beta)) * math.exp(-abs(z) ** beta)
    for _ in range(4):
        x = loc + scale * rng.choice([0, 1, -1, rng.uniform(-6, 6)])
        got = function(x)
        ctx.count('densities')
        ctx.check(obs.close(float(got), density(x), rel=1e-7, abs_=1e-12), lambda: 'the density of %s %s in %s is %s instead of %s' % (name, params, x, got, density(x)), 'density')
    side = rng.choice(['right', 'left', None])
    z = rng.uniform(0.05, 4)
    y = density(loc + scale * z)
    got = function.find_x(y) if side is None else function.find_x(y, side=side)
    want = loc + scale * z * (-1 if side == 'left' else 1)
    ctx.count('inverted')
    # Up to how much the density can tell the points
    ctx.check(abs(got - want) < 1e-5 * scale * (1 + 1 / z), lambda: 'the point of %s %s on the %s with density %s is %s instead of %s' % (name, params, side, y, got, want), 'find-x')
    if name == 'norm' and loc == 0:
        got = function.adherence(want)
        ctx.check(obs.close(float(got), math.erfc(z / math.sqrt(2)), rel=1e-6, abs_=1e-9), lambda: 'the adherence of %s to %s %s is %s' % (want, name, params, got), 'adherence')
    error = ctx.raises(lambda: function.find_x(y, side='up'))
    ctx.check(isinstance(error, ValueError), lambda: 'the side "up" gave %r' % error, 'find-x-side')
    ctx.sig('distributions', name, params, z)


def shell(ctx, rng, index):
    code = rng.choice([0, 0, 1, 3, 127])
    text, error = ['' if rng.random() < 0.3 else rng.choice(['some text', 'two\nlines', 'caffè ☕', ' spaces  ', '100%', '"quoted"']) for _ in range(2)]
    command = "printf '%%s\\n' '%s'; printf '%%s\\n' '%s' >&2; exit %s" % (text, error, code)
    out = io.StringIO()
    how = rng.choice(['capture', 'capture', 'silent', 'plain'])
    with contextlib.redirect_stdout(out):
        got = os_shell(command, **{'capture': {'capture': True}, 'silent': {'silent': True}, 'plain': {}}[how])
    ctx.count('commands')
    if code:
        ctx.count('failed_commands')
    if how == 'capture':
        ctx.check((got.stdout, got.stderr, got.exit_code) == (text, error, code), lambda: 'the command %s gave %r' % (command, got), 'shell-capture')
    else:
        ctx.check(got is (code == 0), lambda: 'the command %s, with exit code %s, gave %r' % (command, code, got), 'shell-result')
        if how == 'plain' or code:
            ctx.check(text in out.getvalue() and error in out.getvalue(), lambda: 'the command %s printed %r' % (command, out.getvalue()), 'shell-printed')
        else:
            ctx.check(out.getvalue() == '', lambda: 'the command %s printed %r' % (command, out.getvalue()), 'shell-printed')
    ctx.sig('shell', command, how)


def seeds(ctx, rng, index):
    def draw():
        ensure_reproducibility()
        return [random.random() for _ in range(3)], list(numpy.random.rand(3)), random.sample(range(1000), 5)
    first = draw()
    for _ in range(rng.randint(0, 5)):
        random.random(), numpy.random.rand(rng.randint(1, 9))
    random.seed(rng.random())
    numpy.random.seed(rng.randint(0, 10 ** 6))
    ctx.count('reseeded')
    ctx.check(draw() == first, 'the random generators do not start again from the same state', 'seeds')
    ctx.sig('seeds', rng.random())


def kinds(ctx, rng, index):
    x, want = rng.choice([(lambda: rng.randint(-10, 10), True), (lambda: rng.uniform(-10, 10), True), (lambda: numpy.float64(rng.random()), True), (lambda: numpy.int32(rng.randint(0, 9)), True),
                          (lambda: decimal.Decimal(rng.randint(0, 9)), True), (lambda: fractions.Fraction(1, rng.randint(1, 9)), True), (lambda: str(rng.random()), False), (lambda: None, False), (lambda: [rng.random()], False),
                          (lambda: {'a': rng.random()}, False), (lambda: (1, rng.random()), False), (lambda: b'%d' % rng.randint(0, 9), False), (lambda: object(), False)])
    x = x()
    ctx.count('kinds')
    ctx.check(is_numerical(x) is want, lambda: 'is_numerical(%r) is %r' % (x, is_numerical(x)), 'is-numerical')
    ctx.sig('kinds', type(x).__name__, repr(x)[:20])


CASES = {'metrics': {'run': metrics, 'quick': 1500, 'thorough': 30000},
         'rescalings': {'run': rescalings, 'quick': 1000, 'thorough': 20000},
         'distributions': {'run': distributions, 'quick': 1000, 'thorough': 20000},
         'shell': {'run': shell, 'quick': 96, 'thorough': 800},
         'seeds': {'run': seeds, 'quick': 100, 'thorough': 1000},
         'kinds': {'run': kinds, 'quick': 1000, 'thorough': 10000}}
