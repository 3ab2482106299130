"""Shared machinery of the checks.

A property's check is a list of ``Part`` objects.  Each part has a Hypothesis
strategy that generates *cases* (plain JSON-serialisable values) and a function
that runs one case against the code in /repo and compares what it observes with
an oracle.  The function raises ``Violation`` when the code broke the property;
any other exception is an error of the harness and never reported as a
violation.  Because a case is plain JSON, the shrunk failing case is written out
as the replay file and can be run again on its own.
"""

import contextlib
import hashlib
import io
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from unittest import mock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property."""


class Hang(Violation):
    """The code under test did not come to an end."""


class Skip(Exception):
    """The case does not satisfy the property's preconditions."""


def require(condition, message, *args):
    """Raises a Violation unless the condition holds."""
    if not condition:
        raise Violation(message.format(*args) if args else message)


def raised_at(e):
    """The function of the code under test that raised an exception, if any."""
    for frame in reversed(traceback.extract_tb(e.__traceback__)):
        if frame.filename.startswith(REPO + os.sep):
            return '{}:{}'.format(os.path.relpath(frame.filename, REPO),
                                  frame.name)
    return None


@contextlib.contextmanager
def sut(what):
    """Code run inside this context is the code under test: an exception that
    it raises for a valid input is a violation."""
    try:
        yield
    except (Violation, Skip, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:   # also SystemExit from command functions
        where = raised_at(e)
        where = ' at ' + where if where else ''
        raise Violation('{}: raised {}: {}{}'.format(
            what, type(e).__name__, str(e)[:400], where)) from e


def expect_raises(what, exceptions, function):
    """Requires that the function raises one of the given exceptions."""
    try:
        function()
    except exceptions:
        return
    except Exception as e:
        raise Violation('{}: expected {}, got {}: {}'.format(
            what, exceptions, type(e).__name__, str(e)[:300])) from e
    raise Violation('{}: was accepted without an error'.format(what))


def close(a, b, rtol=1e-6, atol=1e-7):
    """Tolerant comparison that treats equal infinities as equal."""
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class Context:
    """What a case function reports about the case it ran."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.note = None

    def label(self, name, condition=True):
        if condition:
            self.labels.append(name)

    def mark(self, condition=True):
        """Marks the case as non-trivial."""
        if condition:
            self.nontrivial = True


class Part:
    def __init__(self, name, strategy, function, quick, thorough=None,
                 rule='', examples=(), assumptions=(), workers=1):
        self.name = name
        self.strategy = strategy
        self.function = function
        self.counts = {'quick': quick,
                       'thorough': thorough if thorough is not None
                                   else quick * 15}
        self.rule = rule
        self.examples = list(examples)
        self.assumptions = list(assumptions)
        self.workers = workers


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


@contextlib.contextmanager
def scratch_dir():
    path = tempfile.mkdtemp(dir=os.environ.get('VH_SCRATCH'))
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


class _Pipe(io.BytesIO):
    def close(self):
        """The contents stay available after the writer has closed the pipe."""


@contextlib.contextmanager
def pipes(data=b''):
    """Redirects the standard input and output.  Gives the file object whose
    getvalue() returns what has been written to the standard output."""
    output = _Pipe()
    with mock.patch.object(sys, 'stdin', io.TextIOWrapper(
                io.BytesIO(data), encoding='utf-8')), \
            mock.patch.object(sys, 'stdout', io.TextIOWrapper(
                output, encoding='utf-8')):
        yield output
        sys.stdout.flush()


def reseed(case, salt=''):
    """Seeds every global random number generator from the case, so that a case
    has the same outcome wherever and whenever it is run."""
    import numpy
    digest = hashlib.sha256((salt + canonical(case)).encode()).digest()
    value = int.from_bytes(digest[:4], 'little')
    random.seed(value)
    numpy.random.seed(value)
    return value


# The limits of one case, in seconds of this process's CPU time and of the
# clock.  The slowest case of any part needs a small fraction of them (see
# "slowest_case_s" in the evidence), so that only code that never comes to an
# end reaches them.
CPU_LIMIT = 150
CLOCK_LIMIT = 270


@contextlib.contextmanager
def time_limit():
    """Raises Hang in the enclosed code when it does not come to an end."""
    def on_signal(signum, frame):
        raise Hang('did not come to an end in {} seconds'.format(
            CPU_LIMIT if signum == signal.SIGPROF else CLOCK_LIMIT))

    timers = ((signal.ITIMER_PROF, signal.SIGPROF, CPU_LIMIT),
              (signal.ITIMER_REAL, signal.SIGALRM, CLOCK_LIMIT))
    old = [signal.signal(signum, on_signal) for _, signum, _ in timers]
    try:
        for timer, _, limit in timers:
            # Again after five seconds, should the code catch the exception.
            signal.setitimer(timer, limit, 5)
        yield
    finally:
        for timer, _, _ in timers:
            signal.setitimer(timer, 0)
        for (_, signum, _), handler in zip(timers, old):
            signal.signal(signum, handler)


def run_one(part, case):
    """Runs one case.  Returns the context, or raises."""
    context = Context()
    reseed(case)
    with time_limit():
        try:
            part.function(case, context)
        except (Violation, Skip, MemoryError):
            raise
        except Exception as e:
            # All the cases are valid inputs, so an exception from the code
            # under test is a violation.  Other exceptions are errors of the
            # harness.
            where = raised_at(e)
            if where is None:
                raise
            raise Violation('raised {}: {} at {}'.format(
                type(e).__name__, str(e)[:400], where)) from e
    return context


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.distinct = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.slowest = 0

    def add(self, case, context):
        key = hashlib.sha256(canonical(case).encode()).hexdigest()[:20]
        self.evaluations += 1
        self.distinct.add(key)
        for name in context.labels:
            self.labels[name] = self.labels.get(name, 0) + 1
        if context.nontrivial and key not in self.nontrivial:
            self.nontrivial.add(key)
            if len(self.samples) < 3:
                text = canonical(case)
                if len(text) > 1500:
                    text = text[:1500] + '...'
                self.samples.append(text)


def run_part(part, tier, seed, deadline, index=0):
    """Searches the part's input space.  Returns a result dictionary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    started = time.time()
    result = {'part': part.name, 'violation': None, 'error': None,
              'truncated': False}

    def evaluate(case):
        begin = time.process_time()
        try:
            context = run_one(part, case)
        except Skip:
            stats.skipped += 1
            return
        stats.slowest = max(stats.slowest, time.process_time() - begin)
        stats.add(case, context)

    last = {}

    def record_violation(case, message):
        result['violation'] = {'case': case, 'message': message}

    # Fixed cases first: inputs that once showed a defect, or that a random
    # search seldom reaches.
    try:
        for case in part.examples if index == 0 else ():
            try:
                evaluate(case)
            except Violation as e:
                record_violation(case, str(e))
                break
        if result['violation'] is None and part.strategy is not None:
            count = -(-part.counts[tier] * 3 // (2 * part.workers))
            failing = {}
            passed = set()

            class OutOfTime(Exception):
                pass

            def body(case):
                if time.time() > deadline and 'case' not in last:
                    result['truncated'] = True
                    raise OutOfTime()
                key = canonical(case)
                if key in passed:
                    return       # generated before
                if key not in failing:
                    if 'since' in last and (
                            last['hang'] or time.time() - last['since'] > 90):
                        return   # enough shrinking
                    try:
                        evaluate(case)
                        passed.add(key)
                        return
                    except Violation as e:
                        failing[key] = str(e)
                        last['hang'] = isinstance(e, Hang)
                last['case'] = case
                last['message'] = failing[key]
                last.setdefault('since', time.time())
                # One place for all violations, so that Hypothesis regards
                # them as the same failure when shrinking.
                raise Violation(failing[key]) from None

            body = given(part.strategy)(body)
            body = settings(max_examples=count, database=None, deadline=None,
                            report_multiple_bugs=False, print_blob=False,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck))(body)
            part_seed = int.from_bytes(hashlib.sha256(
                '{}/{}/{}'.format(seed, part.name, index).encode()).digest()[:8],
                'little')
            body = hypothesis.seed(part_seed)(body)
            try:
                body()
            except OutOfTime:
                pass
            except Violation as e:
                record_violation(last['case'], last['message'])
            except hypothesis.errors.Flaky as e:
                # A case that failed once and passed when it was run again.
                # Decide by running the recorded case in isolation.
                case = last.get('case')
                if case is None and not result['truncated']:
                    raise
                # (Otherwise the time limit was reached, which Hypothesis takes
                # for a failure that cannot be repeated.)
                failures = []
                for _ in range(3 if case is not None else 0):
                    try:
                        run_one(part, case)
                    except Violation as e2:
                        failures.append(str(e2))
                if failures:
                    record_violation(case, failures[0])
                elif case is not None:
                    raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        result['error'] = traceback.format_exc()[-6000:]
    result.update(evaluations=stats.evaluations, skipped=stats.skipped,
                  distinct=sorted(stats.distinct),
                  nontrivial=sorted(stats.nontrivial),
                  labels=stats.labels, samples=stats.samples,
                  slowest_case_s=round(stats.slowest, 2),
                  wall_s=round(time.time() - started, 2))
    return result


def merge_results(results):
    """Combines the results of the workers that searched the same part."""
    merged = {'part': results[0]['part'], 'violation': None, 'error': None,
              'truncated': False, 'evaluations': 0, 'skipped': 0,
              'distinct': set(), 'nontrivial': set(), 'labels': {},
              'samples': [], 'wall_s': 0, 'slowest_case_s': 0}
    for r in results:
        if r['violation'] is not None:
            if merged['violation'] is None or \
                    len(canonical(r['violation']['case'])) < \
                    len(canonical(merged['violation']['case'])):
                merged['violation'] = r['violation']
        merged['error'] = merged['error'] or r['error']
        merged['truncated'] = merged['truncated'] or r['truncated']
        merged['evaluations'] += r['evaluations']
        merged['skipped'] += r['skipped']
        merged['distinct'].update(r['distinct'])
        merged['nontrivial'].update(r['nontrivial'])
        for name, count in r['labels'].items():
            merged['labels'][name] = merged['labels'].get(name, 0) + count
        merged['samples'] += r['samples']
        for name in ('wall_s', 'slowest_case_s'):
            merged[name] = max(merged[name], r[name])
    merged['samples'] = merged['samples'][:3]
    merged['distinct'] = len(merged['distinct'])
    merged['nontrivial'] = len(merged['nontrivial'])
    return merged
