"""Monitors of what a computation does to the process, and asks to the operating system, besides giving its result."""
import builtins
import contextlib
import decimal
import gc
import hashlib
import io
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings

import matplotlib
import matplotlib.pyplot
import numpy
import pandas


# -- state of the process --------------------------------------------------------

def _digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def open_files():
    out = []
    for name in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + name)
        except OSError:
            continue
        if not target.startswith('/proc/'):
            out.append((int(name), target))
    return sorted(out)


def state():
    """The settings of the process, which belong to the user and not to the library."""
    mask = os.umask(0)
    os.umask(mask)
    loggers = [logging.getLogger(), logging.getLogger('timeseria')]
    numpy_state = numpy.random.get_state()
    return {
        'open files': open_files(),
        # The fitting library has workers, and a monitor of the progress, which go away by themselves
        'threads': sorted(t.name for t in threading.enumerate() if not t.name.endswith('(worker)') and t.name != 'tqdm_monitor'),
        'working directory': os.getcwd(),
        'file creation mask': mask,
        'environment': dict(os.environ),
        'time zone': (time.tzname, time.timezone),
        'locale': locale.setlocale(locale.LC_ALL),
        'random state': _digest(random.getstate()),
        'numpy random state': _digest((numpy_state[1].tobytes(), numpy_state[2:])),
        'numpy error handling': dict(numpy.geterr()),
        'numpy print options': {k: repr(v) for k, v in numpy.get_printoptions().items()},
        'pandas options': {k: pandas.get_option(k) for k in ('mode.chained_assignment', 'display.precision', 'display.max_rows', 'display.width', 'mode.use_inf_as_na', 'compute.use_numexpr')},
        'warnings filters': [repr(x) for x in warnings.filters],
        'logging': [(x.name, x.level, x.disabled, x.propagate, [repr(h) for h in x.handlers]) for x in loggers] + [logging.root.manager.disable],
        'module search path': list(sys.path),
        'signal handlers': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGUSR1)],
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        'interpreter limits': (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold()),
        'tracing': (sys.gettrace(), sys.getprofile(), sys.excepthook),
        'decimal context': repr(decimal.getcontext()),
        'socket timeout': socket.getdefaulttimeout(),
        'figures': matplotlib.pyplot.get_fignums(),
        'plots settings': _digest(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k != 'backend')),
        'builtins': {k: id(v) for k, v in vars(builtins).items() if k not in ('_', '__debug__')},
    }


@contextlib.contextmanager
def users(rng, folder=None):
    """Settings which are not the default ones, as the users may have."""
    errors, mask, limit, interval, context = numpy.geterr(), os.umask(0o22), sys.getrecursionlimit(), sys.getswitchinterval(), decimal.getcontext().copy()
    filters, options, prints = list(warnings.filters), pandas.get_option('display.precision'), numpy.get_printoptions()
    level, root_level, where = logging.getLogger('timeseria').level, logging.getLogger().level, os.getcwd()
    limits = gc.get_threshold()
    random.seed(rng.random())
    numpy.random.seed(rng.randrange(2 ** 32))
    numpy.seterr(**{k: rng.choice(['ignore', 'warn']) for k in errors})
    os.umask(rng.choice([0o22, 0o27, 0o77]))
    sys.setrecursionlimit(limit + rng.randrange(1, 100))
    sys.setswitchinterval(rng.choice([0.005, 0.004]))
    gc.set_threshold(limits[0] + rng.randrange(1, 100), *limits[1:])
    decimal.getcontext().prec = rng.choice([28, 40])
    warnings.filterwarnings(rng.choice(['ignore', 'once', 'default']), message='users%s' % rng.randrange(1000))
    pandas.set_option('display.precision', rng.choice([5, 6, 9]))
    numpy.set_printoptions(precision=rng.choice([5, 8, 12]))
    logging.getLogger('timeseria').setLevel(rng.choice([logging.WARNING, logging.ERROR, logging.CRITICAL, logging.NOTSET]))
    logging.getLogger().setLevel(rng.choice([logging.WARNING, logging.ERROR]))
    os.environ['USERS_SETTING'] = str(rng.random())
    if folder:
        os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(where)
        os.environ.pop('USERS_SETTING', None)
        logging.getLogger('timeseria').setLevel(level)
        logging.getLogger().setLevel(root_level)
        numpy.set_printoptions(**prints)
        pandas.set_option('display.precision', options)
        warnings.filters[:] = filters
        decimal.setcontext(context)
        gc.set_threshold(*limits)
        sys.setswitchinterval(interval)
        sys.setrecursionlimit(limit)
        os.umask(mask)
        numpy.seterr(**errors)


def changes(before, after):
    out = []
    for name in before:
        if before[name] != after[name]:
            out.append('%s: %s became %s' % (name, str(before[name])[-200:], str(after[name])[-200:]))
    return out


# -- requests to the operating system ---------------------------------------------

_recording = None
_importing = 0


def _hook(event, args):
    if _recording is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else any(x in (mode or '') for x in 'wax+')
        _recording.append(('write' if writing else 'read', os.path.abspath(os.fsdecode(path))))
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.utime'):
        _recording.append((event, os.path.abspath(os.fsdecode(args[0])) if isinstance(args[0], (str, bytes, os.PathLike)) else str(args[0])))
    elif event in ('os.rename', 'os.replace', 'shutil.move', 'shutil.copyfile'):
        _recording.extend([(event, os.path.abspath(os.fsdecode(x))) for x in args[:2]])
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'pty.spawn', 'os.kill', 'os.killpg'):
        _recording.append(('process', '%s %s' % (event, str(args)[:200])))
    elif event in ('socket.connect', 'socket.bind', 'socket.sendto', 'socket.getaddrinfo', 'urllib.Request', 'http.client.connect', 'ftplib.connect', 'smtplib.connect'):
        _recording.append(('network', '%s %s' % (event, str(args)[:200])))
    elif event == 'pickle.find_class':
        _recording.append(('code', '%s %s' % (event, str(args)[:200])))
    elif event == 'compile':
        source, name = args
        if source is not None:
            _recording.append(('compile', '%s %s' % (name if isinstance(name, str) else '', str(source)[:200])))


_installed = False


class Requests:
    """Records what is asked to the operating system in the meanwhile."""

    def __enter__(self):
        global _recording, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.events = []
        _recording = self.events
        return self

    def __exit__(self, *args):
        global _recording
        _recording = None

    def of(self, *kinds):
        return [e for e in self.events if e[0] in kinds]

    def written(self):
        return [e for e in self.events if e[0] == 'write' or e[0].startswith(('os.', 'shutil.'))]


# -- log messages -----------------------------------------------------------------

class Messages(logging.Handler):
    """Turns on all of the log messages of the library in the meanwhile, formatting them as when they are written."""

    def __init__(self, level=logging.DEBUG):
        super().__init__(level)
        self.n = 0
        self.broken = []

    def handle(self, record):
        self.n += 1
        try:
            self.format(record)
        except Exception as e:
            self.broken.append('%s:%s %r: %r' % (os.path.basename(record.pathname), record.funcName, str(record.msg)[:100], e))
        return True

    def __enter__(self):
        self.logger = logging.getLogger('timeseria')
        self.was = (self.logger.level, self.logger.handlers[:], self.logger.propagate, logging.root.manager.disable)
        self.logger.handlers[:] = [self]
        self.logger.setLevel(self.level)
        self.logger.propagate = False
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *args):
        level, handlers, propagate, disable = self.was
        self.logger.handlers[:] = handlers
        self.logger.setLevel(level)
        self.logger.propagate = propagate
        logging.disable(disable)


# -- memory -----------------------------------------------------------------------

def live_objects():
    gc.collect()
    return len(gc.get_objects())
