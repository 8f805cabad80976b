"""Observation of the objects under test: snapshots and comparisons, through the public interface."""
import math

from timeseria.datastructures import Slot


def close(a, b, rel=1e-9, abs_=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def freeze(value):
    if isinstance(value, dict):
        return ('dict', tuple((k, freeze(value[k])) for k in sorted(value, key=str)))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(freeze(v) for v in value))
    return value


def snap_item(item):
    """Everything that a user can see of an item."""
    is_slot = isinstance(item, Slot)
    return {'class': type(item).__name__,
            't': item.start.t if is_slot else item.t,
            'end': item.end.t if is_slot else None,
            'unit': str(item.unit) if is_slot else None,
            'tz': str(item.tz),
            'start_tz': str(item.start.tz) if is_slot else None,
            'end_tz': str(item.end.tz) if is_slot else None,
            'data': freeze(item.data) if hasattr(item, 'data') else None,
            'indexes': freeze(item.data_indexes) if hasattr(item, 'data_indexes') else None}


def snap(series):
    """Everything that a user can see of a series."""
    return {'class': type(series).__name__,
            'resolution': str(series.resolution),
            'tz': str(series.tz),
            'items': [snap_item(item) for item in series]}


def snap_content(series):
    """The content, leaving out the class of the container."""
    return [snap_item(item) for item in series]


def diff(a, b, path=''):
    """The first difference between two snapshots, for the reports."""
    if isinstance(a, dict) and isinstance(b, dict):
        for key in a:
            if key not in b:
                return '%s.%s missing' % (path, key)
            d = diff(a[key], b[key], '%s.%s' % (path, key))
            if d:
                return d
        for key in b:
            if key not in a:
                return '%s.%s added' % (path, key)
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %s vs %s elements' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%s]' % (path, i))
            if d:
                return d
        return None
    if a != b and not (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)):
        return '%s: %r vs %r' % (path, a, b)
    return None


def value(item, label):
    return item.data[label] if isinstance(item.data, dict) else item.data[int(label)]


def labels_of(item):
    return sorted(item.data) if isinstance(item.data, dict) else [str(i) for i in range(len(item.data))]


def column(series, label):
    return [value(item, label) for item in series]


def all_indexes(series):
    """The names of the indexes of a series: those which the library sets first, then the others in order."""
    names = []
    for item in series:
        names += [name for name in item.data_indexes if name not in names]
    legacy = [name for name in ('data_reconstructed', 'data_loss', 'anomaly', 'forecast') if name in names]
    return legacy + sorted(name for name in names if name not in legacy)
