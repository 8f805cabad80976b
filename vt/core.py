"""Core of the runtime monitoring harness: contexts, verdicts, case execution, sharding and evidence."""
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')


class Violation(Exception):
    """An oracle observed an execution which breaks the property."""

    def __init__(self, message, mechanism='', witness=None):
        super().__init__(message)
        self.message = message
        self.mechanism = mechanism
        self.witness = witness


class Inconclusive(Exception):
    """The harness could not decide."""


class CPUTimeout(BaseException):
    """The case used much more CPU time than it could possibly need."""


def _on_alarm(signum, frame):
    raise CPUTimeout()


class Ctx:
    """What a case uses to talk to the harness: randomness, monitors' counters, verdicts, scratch space."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.events = collections.Counter()     # what the monitors observed
        self.signatures = set()                 # distinct non trivial cases
        self.samples = []
        self.trace = None
        self._sig = None
        self._dir = None
        self.thorough = (tier == 'thorough')

    # -- observations ---------------------------------------------------
    def count(self, event, n=1):
        self.events[event] += n

    def sig(self, *parts):
        """Set the signature of this case (makes it count as non trivial)."""
        self._sig = hashlib.blake2b(repr(parts).encode(), digest_size=10).hexdigest()

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(short(obj, 600))

    # -- verdicts -------------------------------------------------------
    def fail(self, message, mechanism='', **witness):
        raise Violation(message, mechanism, witness)

    def check(self, condition, message, mechanism='', **witness):
        self.events['oracle_checks'] += 1
        if not condition:
            if callable(message):
                message = message()
            raise Violation(message, mechanism, witness)

    def raises(self, function, types=Exception):
        """Run expecting an exception, which is returned (None if nothing was raised)."""
        try:
            function()
        except types as e:
            return e
        return None

    # -- scratch space --------------------------------------------------
    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='vt_%s_' % self.pid)
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def short(obj, limit=400):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + '...'


def from_repo(tb):
    """True if an exception was raised by (or below) the code under test and not by the harness itself."""
    frames = traceback.extract_tb(tb)
    last_repo = max([i for i, f in enumerate(frames) if os.path.abspath(f.filename).startswith(os.path.join(REPO, 'timeseria') + os.sep)], default=-1)
    last_harness = max([i for i, f in enumerate(frames) if os.path.abspath(f.filename).startswith(os.path.join(VERIF, 'vt') + os.sep)], default=-1)
    return last_repo > last_harness


def load_known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def run_case(ctx, module, kind, index, rng_key):
    """Run one case, returning None or a violation as dict."""
    function = module.CASES[kind]['run']
    rng = random.Random(rng_key)
    ctx._sig = None
    cpu_limit = module.CASES[kind].get('cpu_limit', 60)
    violation = None
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    try:
        try:
            function(ctx, rng, index)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        violation = {'message': e.message, 'mechanism': e.mechanism, 'witness': short(e.witness, 3000)}
    except Inconclusive:
        raise
    except CPUTimeout:
        violation = {'message': 'no answer after %s s of CPU time' % cpu_limit, 'mechanism': 'timeout', 'witness': ''}
    except Exception as e:
        if isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno in (12, 24, 28)):
            raise Inconclusive('%s in the harness: %s' % (e.__class__.__name__, e))
        # Either the code under test raised where it must not, or it returned something that the oracle could
        # not even interpret (the oracles never raise on the results which are allowed by the property)
        where = traceback.extract_tb(e.__traceback__)
        repo_frames = [f for f in where if f.filename.startswith(REPO + os.sep)] if from_repo(e.__traceback__) else []
        violation = {'message': 'unexpected %s: %s' % (e.__class__.__name__, short(str(e))),
                     'mechanism': 'exception:%s:%s' % (e.__class__.__name__, repo_frames[-1].name if repo_frames else 'oracle'),
                     'witness': short(''.join(traceback.format_tb(e.__traceback__)[-6:]), 3000)}
    if violation is None and ctx._sig is not None:
        ctx.signatures.add(kind + ':' + ctx._sig)
    if violation is not None:
        violation.update({'property': ctx.pid, 'kind': kind, 'index': index, 'rng_key': rng_key, 'tier': ctx.tier})
    return violation


def plan(module, tier):
    """The list of (kind, index) to run."""
    todo = []
    for kind, spec in module.CASES.items():
        n = spec[tier] if tier in spec else spec['quick']
        if n >= 1000:
            n = n * getattr(module, 'SCALE', {'quick': 3, 'thorough': 2})[tier]
        todo.append((kind, n))
    return todo


def run_shard(pid, tier, seed, shard, shards, out):
    module = importlib.import_module('vt.checks.%s' % pid.lower())
    ctx = Ctx(pid, tier, seed)
    violations = []
    executed = collections.Counter()
    deadline = time.time() + getattr(module, 'BUDGET', {'quick': 150, 'thorough': 780})[tier]
    truncated = False
    error = None
    try:
        if hasattr(module, 'setup'):
            module.setup(ctx)
        for kind, n in plan(module, tier):
            seen = set()
            for index in range(shard, n, shards):
                if time.time() > deadline:
                    truncated = True
                    break
                rng_key = '%s/%s/%s/%s' % (seed, pid, kind, index)
                violation = run_case(ctx, module, kind, index, rng_key)
                executed[kind] += 1
                if violation:
                    key = (violation['mechanism'], violation['kind'])
                    if key not in seen:
                        seen.add(key)
                        violations.append(violation)
                    if len(violations) >= 40:
                        break
    except Inconclusive as e:
        error = 'inconclusive: %s' % e
    except Exception:
        error = traceback.format_exc()
    finally:
        if hasattr(module, 'teardown'):
            module.teardown(ctx)
        ctx.cleanup()
    with open(out, 'w') as f:
        json.dump({'violations': violations, 'executed': executed, 'events': ctx.events, 'signatures': sorted(ctx.signatures),
                   'samples': ctx.samples, 'truncated': truncated, 'error': error}, f)


def is_known(violation, findings):
    for finding in findings:
        if finding.get('status') != 'known' or finding['property'] != violation['property']:
            continue
        if finding['mechanism'] == violation['mechanism']:
            return finding
    return None


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('pid')
    parser.add_argument('--tier', default='quick')
    parser.add_argument('--shard')
    parser.add_argument('--out')
    parser.add_argument('--replay')
    parser.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args(argv)
    pid, tier = args.pid, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))

    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')

    import timeseria
    if not os.path.abspath(timeseria.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('ERROR: timeseria imported from %s and not from %s' % (timeseria.__file__, REPO))
        return 2

    if args.shard:
        k, n = args.shard.split('/')
        run_shard(pid, tier, seed, int(k), int(n), args.out)
        return 0

    module = importlib.import_module('vt.checks.%s' % pid.lower())

    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        ctx = Ctx(pid, replay.get('tier', tier), seed)
        if hasattr(module, 'setup'):
            module.setup(ctx)
        try:
            violation = run_case(ctx, module, replay['kind'], replay['index'], replay['rng_key'])
        finally:
            if hasattr(module, 'teardown'):
                module.teardown(ctx)
            ctx.cleanup()
        print(json.dumps(violation, indent=1))
        return 1 if violation else 0

    started = time.time()
    work = tempfile.mkdtemp(prefix='vt_run_')
    try:
        procs = []
        total_cases = max(n for _, n in plan(module, tier))
        shards = max(1, min(args.shards, total_cases))
        for k in range(shards):
            out = os.path.join(work, 'shard_%d.json' % k)
            log = open(os.path.join(work, 'shard_%d.log' % k), 'wb')
            procs.append((subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vt.main', pid, '--tier', tier,
                                            '--shard', '%d/%d' % (k, shards), '--out', out],
                                           stdout=log, stderr=subprocess.STDOUT, cwd=work), out, log))
        results = []
        errors = []
        for proc, out, log in procs:
            proc.wait()
            log.close()
            if not os.path.exists(out):
                with open(log.name, errors='replace') as f:
                    errors.append('shard ended with %s and no result: %s' % (proc.returncode, f.read()[-1500:]))
            else:
                with open(out) as f:
                    results.append(json.load(f))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    events = collections.Counter()
    executed = collections.Counter()
    signatures = set()
    samples = []
    violations = []
    truncated = False
    for result in results:
        events.update(result['events'])
        executed.update(result['executed'])
        signatures.update(result['signatures'])
        samples += result['samples']
        violations += result['violations']
        truncated = truncated or result['truncated']
        if result['error']:
            errors.append(result['error'])

    findings = load_known_findings()
    known = {}
    new = []
    for violation in violations:
        finding = is_known(violation, findings)
        if finding:
            known[finding['id']] = finding
        else:
            new.append(violation)

    # Known findings with a dedicated probe are listed in any case if they still happen (see the checks)
    for finding in findings:
        if finding['property'] == pid and finding.get('status') == 'known' and finding['id'] in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, finding['what']))

    evidence_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(executed.values()),
            'distinct_nontrivial': len(signatures),
            'rule': module.RULE,
            'samples': samples[:5],
            'cases_by_kind': dict(executed),
            'monitor_events': dict(sorted(events.items())),
            'stopped_on_time_budget': truncated,
        },
        'wall_s': round(time.time() - started, 2),
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'violations': len(new),
    }
    with open(os.path.join(evidence_dir, '%s.json' % pid), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    print('%s %s seed=%s: %s cases, %s distinct non trivial, %s oracle checks, %.1f s%s' % (
        pid, tier, seed, sum(executed.values()), len(signatures), events['oracle_checks'], time.time() - started,
        ' (stopped on time budget)' if truncated else ''))

    if new:
        replay_dir = os.path.join(evidence_dir, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        printed = set()
        for violation in new:
            if violation['mechanism'] in printed:
                continue
            printed.add(violation['mechanism'])
            name = hashlib.blake2b(violation['rng_key'].encode(), digest_size=4).hexdigest()
            path = os.path.join(replay_dir, '%s_%s_%s.json' % (pid, violation['kind'], name))
            with open(path, 'w') as f:
                json.dump(violation, f, indent=1)
            print('[%s] %s' % (violation['mechanism'], violation['message']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    if errors:
        for error in errors:
            print('ERROR: %s' % error)
        return 2

    # Vacuity: what the monitors observed must reach the floors of the check
    floors = getattr(module, 'FLOORS', {})
    for event, floor in floors.items():
        if events[event] < floor:
            print('INCONCLUSIVE: the monitors observed only %s "%s" events (required: %s)' % (events[event], event, floor))
            return 3
    if not signatures:
        print('INCONCLUSIVE: no non trivial case')
        return 3
    return 0
