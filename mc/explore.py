"""Engine E1: deviation bounded stateless exploration of schedules.

A harness is a function `async def harness(ctx)` driving the real code on
`mc.loop.Loop`.  Each execution is determined by its list of choices.  Default
choice is index 0 (cost 0); each other choice has positive cost.  All executions
of total cost <= bound are run, in order of increasing cost.
"""

import asyncio
import gc
import hashlib
import heapq
import itertools
import os
import sys
import time
import traceback
import warnings
import zlib

from mc import core
from mc.core import Divergence, Violation
from mc.pool import Pool
from mc.loop import Loop, Options, Deadlock, owner


class Chooser:
    """Follows sparse list of deviations [(position, index, label, digest)],
    choosing default everywhere else"""

    def __init__(self, deviations):
        self._deviations = list(deviations)
        self._next = 0
        self._crc = 0
        self.trace = []             # list of (index, labels, costs, crc)

    def choose(self, labels, costs):
        i = len(self.trace)
        crc = zlib.crc32('|'.join(labels).encode(), self._crc)
        self._crc = crc
        index = 0
        if self._next < len(self._deviations):
            pos, dev_index, label, dev_crc = self._deviations[self._next]
            if pos == i:
                if dev_index >= len(labels) or labels[dev_index] != label:
                    raise Divergence(f'replay divergence at {i}: expected '
                                     f'{dev_index}:{label} got {labels}')
                if dev_crc != crc:
                    raise Divergence(f'replay divergence before {i}')
                index = dev_index
                self._next += 1
        self.trace.append((index, tuple(labels), tuple(costs), crc))
        return index

    @property
    def finished(self):
        return self._next == len(self._deviations)


class Ctx:
    """Execution context available to harness"""

    def __init__(self, loop, params):
        self.loop = loop
        self.net = loop.net
        self.params = params
        self.trace = []            # observed behaviour (part of outcome)
        self.actors = []

    def point(self, label):
        return self.loop.point(label)

    def log(self, *item):
        self.trace.append(item)

    def spawn(self, coro):
        """Spawn driver actor - its exception is violation/error of harness"""
        task = self.loop.create_task(coro)
        self.actors.append(task)
        return task

    async def join(self, *tasks):
        for task in tasks:
            await task

    def owned(self, name):
        """Mark connections opened by current task with name"""
        owner.set(name)

    def conns(self, name):
        """Open connections of owner"""
        return [i for i in self.net.conns if i.owner == name and i.is_open]

    def reset(self, name):
        for conn in self.conns(name):
            conn.reset()

    async def quiesce(self):
        """Wait until nothing but timers can happen"""
        await self.loop.quiesce()

    def expect(self, cond, message, key=None):
        if not cond:
            raise Violation(message, key)


_clock = [None]
_real_time = time.time
_real_time_ns = time.time_ns
BASE_TIME = 1_700_000_000.0


class clock:
    """Wall clock seen by code under test (adjustable by harness)"""

    offset = 0.0

    @staticmethod
    def now():
        loop = _clock[0]
        return BASE_TIME + clock.offset + (loop._mc_time if loop else 0)


def _fake_time():
    return clock.now() if _clock[0] is not None else _real_time()


def _fake_time_ns():
    return (int(clock.now() * 1_000_000_000) if _clock[0] is not None
            else _real_time_ns())


_patched = False


def patch_process():
    global _patched
    if _patched:
        return
    _patched = True
    import logging
    if not __import__("os").environ.get("MC_LOG"):
        logging.disable(logging.CRITICAL)
    else:
        logging.basicConfig(level=logging.WARNING)
    warnings.simplefilter('ignore')
    sys.unraisablehook = lambda *args: None
    time.time = _fake_time
    time.time_ns = _fake_time_ns

    from hat import aio
    group_init = aio.Group.__init__

    def init(self, *args, **kwargs):
        group_init(self, *args, **kwargs)
        self._mc_hash = self._loop.next_hash() if isinstance(
            self._loop, Loop) else 0

    aio.Group.__init__ = init
    aio.Group.__hash__ = lambda self: self._mc_hash

    # periodic keep-alive pings are driven by timers only - disabled so that
    # executions become quiescent (ping loop belongs to hat-drivers)
    from hat.drivers import chatter
    chatter.connect.__kwdefaults__['ping_delay'] = None
    chatter.listen.__kwdefaults__['ping_delay'] = None


class Result:
    __slots__ = ('violation', 'key', 'trace', 'log', 'outcome', 'steps',
                 'events')


_counter = [0]


env_harness = [None]
"""Harness whose violations can be part of expected behaviour"""


def execute(harness, params, options, prefix, cpu_limit=30):
    """Run single execution"""
    patch_process()
    chooser = Chooser(prefix)
    loop = Loop(chooser, options)
    ctx = Ctx(loop, params)
    result = Result()
    result.violation = result.key = None
    core.raised.clear()
    gc.disable()
    _clock[0] = loop
    clock.offset = 0.0
    core.watchdog_start(cpu_limit)
    value = None
    try:
        try:
            value = loop.run_until_complete(_main(ctx, harness))
        finally:
            core.watchdog_stop()
            _clock[0] = None
    except Divergence:
        raise
    except Violation as e:
        result.violation, result.key = str(e), e.key
    except core.Watchdog:
        result.violation = 'execution does not terminate (CPU limit)'
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        result.violation = 'unexpected exception\n' + traceback.format_exc()
    if core.raised and harness is not env_harness[0]:
        # first one can be swallowed by the code under test
        violation = core.raised[0]
        result.violation, result.key = str(violation), violation.key
    if not chooser.finished and result.violation is None:
        raise Divergence('execution ended before end of replayed prefix')
    result.trace = chooser.trace
    result.log = loop._mc_log
    result.steps = loop._mc_steps
    result.events = len(loop._mc_log)
    result.outcome = hashlib.sha1(
        repr((value, ctx.trace, bool(result.violation))).encode()
        ).hexdigest()[:16]
    cleanup = getattr(ctx, 'cleanup', None)
    if cleanup:
        cleanup()
    loop._ready.clear()
    loop._scheduled.clear()
    loop._mc_events.clear()
    del ctx, loop
    _counter[0] += 1
    if _counter[0] % 20 == 0:
        gc.collect()
    return result


async def _main(ctx, harness):
    main = ctx.loop.create_task(harness(ctx))

    # failure of an actor ends execution
    while not main.done():
        actors = [i for i in ctx.actors if not i.done()]
        for i in ctx.actors:
            if i.done() and not i.cancelled() and i.exception():
                raise i.exception()
        await asyncio.wait([main, *actors],
                           return_when=asyncio.FIRST_COMPLETED)
    for i in ctx.actors:
        if i.done() and not i.cancelled() and i.exception():
            raise i.exception()
    return main.result()


# parallel exploration

_work = {}


def _run_item(item):
    name, prefix, cost, bound = item
    harness, params, options, cpu_limit = _work[name]
    result = execute(harness, params, options, prefix, cpu_limit)
    children = []
    trace = result.trace
    # alternatives only after the last deviation
    first = prefix[-1][0] + 1 if prefix else 0
    if result.violation is None:
        for i in range(first, len(trace)):
            _, labels, costs, crc = trace[i]
            for alt in range(1, len(labels)):
                if cost + costs[alt] > bound:
                    continue
                children.append(([*prefix, (i, alt, labels[alt], crc)],
                                 cost + costs[alt]))
    if result.violation is not None:
        choices = prefix
    else:
        choices = None
    return (name, result.violation, result.key, choices, result.outcome,
            result.steps, result.events, len(trace) - first, children,
            result.log if (result.violation or not prefix) else None)


class Stats:

    def __init__(self):
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.steps = 0
        self.outcomes = {}
        self.per_harness = {}
        self.samples = []
        self.complete = {}
        self.violations = []


def explore(scenarios, *, bound, time_limit, processes=None,
            max_violations=3, cpu_limit=30, log=lambda *a: None):
    """Explore list of scenarios (name, harness, params, options[, bound])

    Executions are ordered by cost; exploration stops at `time_limit` seconds
    (reported by completed bound per scenario).
    """
    processes = processes or core.cpu_count()
    stats = Stats()
    pending = []     # heap (cost, seq, name, prefix)
    seq = itertools.count()
    bounds = {}
    outstanding = {}
    for scenario in scenarios:
        name, harness, params, options, *rest = scenario
        _work[name] = (harness, params, options, cpu_limit)
        bounds[name] = rest[0] if rest and rest[0] is not None else bound
        heapq.heappush(pending, (0, next(seq), name, []))
        stats.per_harness[name] = [0, set()]
        outstanding[name] = {}
    start = _real_time()
    left = {}        # (name, cost) -> not finished count
    for cost, _, name, prefix in pending:
        left[(name, cost)] = left.get((name, cost), 0) + 1

    stopped = False
    with Pool(processes, _run_batch) as pool:
        inflight = collections_deque()
        while pending or inflight:
            while pending and len(inflight) < processes * 3:
                if _real_time() - start > time_limit:
                    stopped = True
                    break
                batch = []
                size = 1 if len(pending) < processes * 8 else 8
                while pending and len(batch) < size:
                    cost, _, name, prefix = heapq.heappop(pending)
                    batch.append((name, prefix, cost, bounds[name]))
                inflight.append((batch, pool.submit(batch)))
            if stopped and not inflight:
                break
            if not inflight:
                break
            batch, future = inflight.popleft()
            # single execution is CPU limited - long silence is an error
            for item, res in zip(batch, future.get(timeout=600)):
                (name, violation, key, choices, outcome, steps, events,
                 new_points, children, evlog) = res
                cost = item[2]
                stats.executions += 1
                stats.states += new_points + 1
                stats.transitions += events
                stats.steps += steps
                ph = stats.per_harness[name]
                ph[0] += 1
                ph[1].add(outcome)
                if evlog is not None and not item[1] and \
                        len(stats.samples) < 6:
                    stats.samples.append({'scenario': name,
                                          'schedule': evlog[:60]})
                if violation is not None:
                    stats.violations.append(
                        {'scenario': name, 'message': violation,
                         'key': key, 'choices': choices,
                         'schedule': evlog})
                    if len(stats.violations) >= max_violations:
                        stopped = True
                        pending.clear()
                left[(name, cost)] -= 1
                if not stopped:
                    for prefix, child_cost in children:
                        heapq.heappush(pending, (child_cost, next(seq),
                                                 name, prefix))
                        left[(name, child_cost)] = left.get(
                            (name, child_cost), 0) + 1
                else:
                    for prefix, child_cost in children:
                        left[(name, child_cost)] = left.get(
                            (name, child_cost), 0) + 1
            if stopped and pending:
                pending_left = pending
                pending = []
    for name in stats.per_harness:
        incomplete = [cost for (n, cost), count in left.items()
                      if n == name and count > 0]
        stats.complete[name] = (min(incomplete) - 1 if incomplete
                                else bounds[name])
    stats.exhaustive = all(stats.complete[n] >= bounds[n] for n in bounds)
    stats.bounds = bounds
    return stats


def _run_batch(batch):
    return [_run_item(item) for item in batch]


from collections import deque as collections_deque  # noqa: E402


def check_determinism(scenarios):
    """Run default execution of each scenario twice and compare"""
    for scenario in scenarios:
        name, harness, params, options = scenario[:4]
        first = execute(harness, params, options, [])
        second = execute(harness, params, options, [])
        if (first.log != second.log or first.outcome != second.outcome):
            raise Divergence(f'scenario {name} is not deterministic')
