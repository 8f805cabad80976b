"""Reference models of the operations, on plain lists."""


def spacing_seconds(unit):
    """Seconds of a fixed-length unit string as used by the generators."""
    return int(unit[:-1]) * {'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 604800}[unit[-1]]


def derivative(x, dts):
    """x: values, dts: the spacing between each value and the next."""
    n = len(x)
    slopes = [(x[i + 1] - x[i]) / dts[i] for i in range(n - 1)]
    return [slopes[0]] + [(slopes[i - 1] + slopes[i]) / 2 for i in range(1, n - 1)] + [slopes[-1]]


def diffs(x):
    return [x[i] - x[i - 1] for i in range(1, len(x))]


def csum(x, start=0):
    out = []
    total = start
    for v in x:
        total = total + v
        out.append(total)
    return out


def integral(x, dts, c=0):
    """The inverse of the derivative: the primitive having x as derivative and c as first value."""
    out = [c]
    right = x[0]
    for i in range(1, len(x)):
        left = 2 * x[i - 1] - right
        right = left
        out.append(out[-1] + left * dts[i - 1])
    return out


def mavg(x, window):
    return [sum(x[i - window + 1:i + 1]) / window for i in range(window - 1, len(x))]


def normalize(x, low=0, high=1, source=None):
    a, b = source if source else (min(x), max(x))
    return [low + (v - a) / (b - a) * (high - low) for v in x]
