"""Faults and schedules injected in the library while it runs: interruptions and switches of thread at the execution of any of its lines."""
import os
import sys
import threading

from . import core

ROOT = os.path.realpath(os.path.join(core.REPO, 'timeseria')) + os.sep
_known = {}


def ours(code):
    """If the code belongs to the library (and not to its tests)."""
    name = code.co_filename
    if name not in _known:
        path = os.path.realpath(name)
        _known[name] = path.startswith(ROOT) and not path.startswith(ROOT + 'tests')
    return _known[name]


class Fault(Exception):
    """An error which could come from anywhere."""


class Lines:
    """Calls a function at each line of the library executed by the current thread, with how many they have been."""

    def __init__(self, at_line=None):
        self.at_line = at_line
        self.n = 0
        self.where = None

    def _global(self, frame, event, arg):
        return self._local if ours(frame.f_code) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            self.where = frame
            if self.at_line:
                self.at_line(self.n, frame)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        self.where = None


class Interrupt(Lines):
    """Interrupts what is running, as with Ctrl-C, when it gets to the n-th line."""

    def __init__(self, n, error=KeyboardInterrupt):
        super().__init__(self.interrupt)
        self.target = n
        self.error = error
        self.done = None

    def interrupt(self, n, frame):
        if n == self.target:
            self.done = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            raise self.error('interrupted at %s line %s' % (self.done, frame.f_lineno))


class Stuck(Exception):
    """The threads do not go on."""


class Schedule:
    """Runs functions in threads of which only one goes on at a time, switching at lines of the library drawn from the given random state: always the same interleaving for the same state."""

    def __init__(self, rng, functions, probability, patience=300):
        self.rng = rng
        self.functions = functions
        self.probability = probability
        self.patience = patience
        self.turns = [threading.Semaphore(0) for _ in functions]
        self.alive = list(range(len(functions)))
        self.results = [None] * len(functions)
        self.finished = threading.Semaphore(0)
        self.switches = 0
        self.where = []

    def _wait(self, i):
        if not self.turns[i].acquire(timeout=self.patience):
            raise Stuck()

    def _run(self, i):
        self._wait(i)

        def at_line(n, frame):
            if len(self.alive) > 1 and self.rng.random() < self.probability:
                other = self.rng.choice([j for j in self.alive if j != i])
                self.switches += 1
                if len(self.where) < 2000:
                    self.where.append((i, other, frame.f_code.co_name, frame.f_lineno))
                self.turns[other].release()
                self._wait(i)
        try:
            with Lines(at_line):
                self.results[i] = self.functions[i]()
        except BaseException as e:
            self.results[i] = ['raised', type(e).__name__, str(e)]
        finally:
            self.alive.remove(i)
            if self.alive:
                self.turns[self.rng.choice(self.alive)].release()
            else:
                self.finished.release()

    def run(self):
        threads = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.functions))]
        for thread in threads:
            thread.start()
        self.turns[self.rng.choice(self.alive)].release()
        if not self.finished.acquire(timeout=self.patience):
            raise Stuck()
        for thread in threads:
            thread.join(self.patience)
        return self.results
