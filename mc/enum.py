"""Engine E2: bounded exhaustive enumeration of inputs and histories."""

import gc
import hashlib
import itertools
import time
import traceback

from mc import core
from mc.core import Violation
from mc.pool import Pool, WorkerError

_time = time.time


class Stats:

    def __init__(self):
        self.cases = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.complete = True
        self.violations = []


_fns = {}


def _run_chunk(args):
    name, chunk = args
    fn, cpu_limit = _fns[name]
    states = transitions = traces = 0
    outcomes = set()
    violations = []
    for case in chunk:
        core.watchdog_start(cpu_limit)
        try:
            try:
                s, t, n, outcome = fn(case)
            finally:
                core.watchdog_stop()
            states += s
            transitions += t
            traces += n
            outcomes.add(hashlib.sha1(repr(outcome).encode()).digest()[:8])
        except Violation as e:
            violations.append({'message': str(e), 'key': e.key, 'case': case})
        except core.Watchdog:
            violations.append({'message': 'does not terminate (CPU limit)',
                               'key': None, 'case': case})
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException:
            violations.append({'message': 'unexpected exception\n' +
                               traceback.format_exc(), 'key': None,
                               'case': case})
        if len(violations) > 3:
            break
    gc.collect()
    return len(chunk), states, transitions, traces, outcomes, violations


def _chunks(name, cases, size):
    cases = iter(cases)
    while True:
        chunk = list(itertools.islice(cases, size))
        if not chunk:
            return
        yield name, chunk


def enumerate_cases(name, cases, fn, *, time_limit, chunk=None, processes=None,
                    max_violations=3, cpu_limit=60, crash=False):
    from mc.explore import patch_process
    patch_process()
    processes = processes or core.cpu_count()
    _fns[name] = fn, cpu_limit
    stats = Stats()
    start = _time()
    if chunk is None:
        cases = list(cases)
        chunk = max(1, min(200, len(cases) // (processes * 6)))
    chunks = _chunks(name, cases, chunk)
    try:
        with Pool(processes, _run_chunk) as pool:
            inflight = []
            done = False
            while True:
                while not done and len(inflight) < processes * 2:
                    if _time() - start > time_limit:
                        stats.complete = False
                        done = True
                        break
                    item = next(chunks, None)
                    if item is None:
                        done = True
                        break
                    if len(stats.samples) < 2:
                        stats.samples.append(
                            {'name': name, 'case': repr(item[1][0])[:400]})
                    inflight.append(pool.submit(item))
                if not inflight:
                    break
                (n, states, transitions, traces, outcomes,
                 violations) = inflight.pop(0).get(timeout=900)
                stats.cases += n
                stats.states += states
                stats.transitions += transitions
                stats.traces += traces
                stats.outcomes |= outcomes
                if len(stats.violations) < 10:
                    stats.violations.extend(violations)
                if len({(v['key'], v['message'] if v['key'] is None else '')
                        for v in stats.violations}) >= max_violations:
                    stats.complete = False
                    break
    except WorkerError as e:
        if not crash:
            raise
        # native code under test
        stats.violations.append({'message': f'{name}: process crashed ({e})',
                                 'key': None, 'case': None})
        stats.complete = False
    # one violation for each key
    seen = set()
    result = []
    for v in stats.violations:
        if v['key'] is not None:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
        result.append(v)
    stats.violations = result[:5]
    return stats
