"""Deterministic asyncio event loop with explorer controlled environment.

Ordering which asyncio guarantees (FIFO ready queue, batches) is preserved.
Everything decided by the environment is an *external event*: delivery of
network data, connection establishment and accept, execution and completion of
executor jobs, timers and driver ("actor") steps.  At the beginning of each loop
iteration the chooser decides which enabled external events happen.
"""

import asyncio
import asyncio.base_events
import asyncio.events
import collections
import contextvars
import functools
import heapq
import itertools
import socket
import sys
import threading

from mc.core import Violation, watchdog_expired, Watchdog


owner: contextvars.ContextVar = contextvars.ContextVar('owner', default=None)
"""Name of the actor which opens connections (set by harness)"""


class Deadlock(Violation):
    pass


class DFuture(asyncio.Future):

    def __init__(self, *, loop=None):
        super().__init__(loop=loop)
        self._mc_hash = loop.next_hash()

    def __hash__(self):
        return self._mc_hash


class DTask(asyncio.Task):

    def __init__(self, coro, *, loop=None, **kwargs):
        self._mc_hash = loop.next_hash()
        super().__init__(coro, loop=loop, **kwargs)

    def __hash__(self):
        return self._mc_hash


class Event:
    __slots__ = ('label', 'fn', 'kind')

    def __init__(self, label, fn, kind):
        self.label = label
        self.fn = fn
        self.kind = kind


class Options:
    """Exploration options of a harness"""

    def __init__(self, *, inject=(), early_timers=False, time_horizon=10_000.0,
                 max_steps=20_000, split_executor=True,
                 order_cost=1, inject_cost=2, timer_cost=1,
                 kernel_buffer=None, high_water=64 * 1024, merge=(),
                 preempt=None, preempt_cost=1):
        self.inject = tuple(inject)      # label prefixes allowed at busy loop
        self.early_timers = early_timers  # True or maximal delay
        self.time_horizon = time_horizon
        self.max_steps = max_steps
        self.split_executor = split_executor
        self.order_cost = order_cost
        self.inject_cost = inject_cost
        self.timer_cost = timer_cost
        self.kernel_buffer = kernel_buffer
        self.high_water = high_water
        # label prefixes never considered as alternatives (run only in default
        # order) - a declared restriction of explored space
        self.merge = tuple(merge)
        # part of names of files at whose function calls can executor jobs be
        # preempted
        self.preempt = preempt
        self.preempt_cost = preempt_cost


class Loop(asyncio.base_events.BaseEventLoop):

    def __init__(self, chooser, options):
        self._mc_hashes = itertools.count(1)
        super().__init__()
        self._mc_chooser = chooser
        self._mc_opt = options
        self._mc_time = 0.0
        self._mc_events = {}     # dict order = order of enabling
        self._mc_deferred = set()
        self._mc_seq = collections.Counter()
        self._mc_steps = 0
        self._mc_jobs = {}
        self._mc_errors = []
        self._mc_log = []
        self._mc_quiesce = []
        self.preemption = True   # can be suspended by harness
        self.net = Network(self)
        self.set_exception_handler(self._on_error)

    def _on_error(self, loop, context):
        self._mc_errors.append(context)

    # determinism

    def next_hash(self):
        return next(self._mc_hashes)

    def next_label(self, name):
        self._mc_seq[name] += 1
        return f'{name}{self._mc_seq[name]}'

    def time(self):
        return self._mc_time

    def create_future(self):
        return DFuture(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        kwargs = {} if context is None else {'context': context}
        return DTask(coro, loop=self, name=name or 'task', **kwargs)

    # unused parts of base loop

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def add_signal_handler(self, *args):
        raise NotImplementedError()

    # external events

    def add_event(self, label, fn, kind='ev'):
        assert label not in self._mc_events, label
        self._mc_events[label] = Event(label, fn, kind)

    def remove_event(self, label):
        self._mc_events.pop(label, None)
        self._mc_deferred.discard(label)

    def point(self, label):
        """Future resolved when the explorer schedules this driver step"""
        future = self.create_future()
        label = f'{label}'
        if label in self._mc_events:
            label = self.next_label(label + '#')

        def fire():
            if not future.done():
                future.set_result(None)

        self.add_event(label, fire, 'point')
        future.add_done_callback(lambda _: self.remove_event(label))
        return future

    def quiesce(self):
        """Future resolved once nothing but timers can happen"""
        future = self.create_future()
        self._mc_quiesce.append(future)
        return future

    # running

    def _clean_timers(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            handle = heapq.heappop(self._scheduled)
            handle._scheduled = False

    def _fire_timer(self):
        self._clean_timers()
        when = self._scheduled[0]._when
        if when > self._mc_time:
            self._mc_time = when
        while self._scheduled and self._scheduled[0]._when <= self._mc_time:
            handle = heapq.heappop(self._scheduled)
            handle._scheduled = False
            if not handle._cancelled:
                self._ready.append(handle)

    def _choose_external(self):
        opt = self._mc_opt
        merge = opt.merge
        while True:
            busy = bool(self._ready)
            events = list(self._mc_events.values())
            self._clean_timers()
            timer = self._scheduled[0]._when if self._scheduled else None

            if busy:
                if not opt.inject:
                    return
                options = [(e.label, e) for e in events
                           if e.label.startswith(opt.inject)]
                if not options:
                    return
                labels = ['-', *(label for label, _ in options)]
                i = self._mc_chooser.choose(labels,
                                            [0] + [opt.inject_cost] *
                                            len(options))
                if i == 0:
                    return
                event = options[i - 1][1]

            else:
                if not events:
                    if self._mc_quiesce:
                        waiters, self._mc_quiesce = self._mc_quiesce, []
                        for waiter in waiters:
                            _set_result(waiter)
                        if self._ready:
                            return
                    if timer is None:
                        return
                    if timer > opt.time_horizon:
                        raise Deadlock('no progress until time horizon\n' +
                                       self.describe())
                    self._fire_timer()
                    continue
                if self._mc_deferred and len(events) > 1:
                    deferred = self._mc_deferred
                    events = ([e for e in events if e.label not in deferred] +
                              [e for e in events if e.label in deferred])
                if len(events) > 1 and merge:
                    events = ([events[0]] +
                              [e for e in events[1:]
                               if not e.label.startswith(merge)])
                labels = [e.label for e in events]
                costs = [0] + [opt.order_cost] * (len(events) - 1)
                if opt.early_timers and timer is not None and (
                        opt.early_timers is True or
                        timer - self._mc_time <= opt.early_timers):
                    labels.append('timer')
                    costs.append(opt.timer_cost)
                if (len(events) > 1 and labels[0] not in self._mc_deferred and
                        not labels[0].startswith(merge)):
                    # first event is postponed until nothing else can happen
                    labels.append('defer')
                    costs.append(opt.order_cost)
                i = (self._mc_chooser.choose(labels, costs)
                     if len(labels) > 1 else 0)
                if labels[i] == 'timer':
                    self._mc_log.append('timer')
                    self._fire_timer()
                    continue
                if labels[i] == 'defer':
                    self._mc_log.append(f'defer {labels[0]}')
                    self._mc_deferred.add(labels[0])
                    continue
                event = events[i]

            self.remove_event(event.label)
            self._mc_log.append(event.label)
            event.fn()

            if not self._ready:
                # event without immediate consequence
                continue
            if not opt.inject:
                return

    def step(self):
        self._mc_steps += 1
        if self._mc_steps > self._mc_opt.max_steps:
            raise Deadlock('step limit exceeded (livelock)\n' +
                           self.describe())
        if watchdog_expired():
            raise Watchdog()
        self._choose_external()
        ready = self._ready
        if not ready:
            raise Deadlock('deadlock: nothing can happen\n' + self.describe())
        for _ in range(len(ready)):
            handle = ready.popleft()
            if not handle._cancelled:
                handle._run()
        handle = None

    def run_until_complete(self, future):
        task = asyncio.ensure_future(future, loop=self)
        asyncio.events._set_running_loop(self)
        try:
            while not task.done():
                self.step()
        finally:
            asyncio.events._set_running_loop(None)
        return task.result()

    def describe(self):
        result = []
        for task in asyncio.all_tasks(self):
            frames = []
            coro = task.get_coro()
            while coro is not None:
                frame = getattr(coro, 'cr_frame', None)
                if frame is None:
                    break
                frames.append(f'{frame.f_code.co_qualname}:{frame.f_lineno}')
                coro = getattr(coro, 'cr_await', None)
            result.append((task.__hash__(), ' > '.join(frames)))
        return '\n'.join(f'  pending: {i}' for _, i in sorted(result)[:40])

    # executor

    def run_in_executor(self, executor, func, *args):
        if getattr(executor, '_shutdown', False):
            raise RuntimeError('cannot schedule new futures after shutdown')
        key = id(executor)
        if key not in self._mc_jobs:
            # executor is kept alive so that its id is not reused
            self._mc_jobs[key] = _Executor(
                self, executor, self.next_label('x'),
                getattr(executor, '_max_workers', 1))
        return self._mc_jobs[key].submit(func, args)

    # network

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kwargs):
        return await self.net.create_connection(protocol_factory, host, port)

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kwargs):
        return self.net.create_server(protocol_factory, host, port)


class _Executor:
    """Thread pool: order of execution is order of submitting, completions of
    a single worker are ordered"""

    def __init__(self, loop, executor, name, workers):
        self._loop = loop
        self._executor = executor
        self._name = name
        self._workers = workers
        self._jobs = collections.deque()
        self._active = 0
        self._dones = collections.deque()

    def submit(self, func, args):
        future = self._loop.create_future()
        job = self._loop.next_label(self._name + '.')
        self._jobs.append((job, func, args, future))
        self._enable()
        return future

    def _enable(self):
        while self._jobs and self._active < self._workers:
            self._active += 1
            job, func, args, future = self._jobs.popleft()
            self._loop.add_event(
                f'{job}:run',
                functools.partial(self._run, job, func, args, future), 'exec')

    def _run(self, job, func, args, future):
        # job which did not start can be cancelled
        if future.cancelled():
            self._active -= 1
            self._enable()
            return
        if (self._loop._mc_opt.preempt and self._loop.preemption and
                self._workers == 1):
            thread = _JobThread(self._loop, job, func, args)
            self._continue(job, thread, future)
            return
        result, exception = None, None
        try:
            result = func(*args)
        except Exception as e:
            exception = e
        self._finish(job, future, result, exception)

    def _continue(self, job, thread, future):
        if thread.resume():
            self._finish(job, future, thread.result, thread.exception)
            return
        self._loop.add_event(
            self._loop.next_label(f'{job}:resume'),
            functools.partial(self._continue, job, thread, future), 'exec')

    def _finish(self, job, future, result, exception):
        self._active -= 1

        def complete():
            if self._workers == 1 and self._dones:
                self._dones.popleft()
                if self._dones:
                    self._loop.add_event(*self._dones[0])
            if future.done():
                return
            if exception is not None:
                future.set_exception(exception)
            else:
                future.set_result(result)

        if self._loop._mc_opt.split_executor:
            event = f'{job}:done', complete, 'exec'
            if self._workers == 1:
                self._dones.append(event)
                if len(self._dones) == 1:
                    self._loop.add_event(*event)
            else:
                self._loop.add_event(*event)
        else:
            complete()
        self._enable()


class _JobThread:
    """Executor job which can be preempted at function calls (and generator
    resumptions) of preemptible files"""

    def __init__(self, loop, job, func, args):
        self._loop = loop
        self._job = job
        self._func = func
        self._args = args
        self._job_turn = threading.Semaphore(0)
        self._loop_turn = threading.Semaphore(0)
        self._done = False
        self.result = None
        self.exception = None
        self._thread = threading.Thread(target=self._run, daemon=True)
        self._started = False
        self._error = None

    def resume(self):
        """Returns True if job is done"""
        if self._started:
            self._job_turn.release()
        else:
            self._started = True
            self._thread.start()
        self._loop_turn.acquire()
        if self._done:
            self._thread.join()
        if self._error is not None:
            raise self._error
        return self._done

    def _run(self):
        sys.settrace(self._trace)
        try:
            self.result = self._func(*self._args)
        except Exception as e:
            self.exception = e
        except BaseException as e:
            self._error = e
        finally:
            sys.settrace(None)
            self._done = True
            self._loop_turn.release()

    def _trace(self, frame, event, arg):
        if event != 'call':
            return
        opt = self._loop._mc_opt
        if (not self._loop.preemption or
                opt.preempt not in frame.f_code.co_filename):
            return
        i = self._loop._mc_chooser.choose(['-', 'preempt'],
                                          [0, opt.preempt_cost])
        if not i:
            return
        self._loop._mc_log.append(
            f'preempt {self._job} at {frame.f_code.co_qualname}')
        self._loop_turn.release()
        self._job_turn.acquire()


class Network:

    def __init__(self, loop):
        self._loop = loop
        self._servers = {}
        self._ports = itertools.count(50001)
        self._conn_ids = itertools.count(1)
        self.conns = []
        self.refuse = set()

    def create_server(self, protocol_factory, host, port):
        if (host, port) in self._servers:
            raise OSError('address already in use')
        server = MemServer(self, protocol_factory, (host, port))
        self._servers[(host, port)] = server
        return server

    async def create_connection(self, protocol_factory, host, port):
        loop = self._loop
        future = loop.create_future()
        n = next(self._conn_ids)
        conn_owner = owner.get()

        def connect():
            if future.done():
                return
            server = self._servers.get((host, port))
            if not server or (host, port) in self.refuse:
                future.set_exception(ConnectionRefusedError())
                return
            client_addr = ('127.0.0.1', next(self._ports))
            server_addr = (host, port)
            conn = MemConn(self, n, client_addr, server_addr, server)
            conn.owner = conn_owner
            self.conns.append(conn)
            future.set_result(conn)
            loop.add_event(f'n{n}:accept', conn.accept, 'net')

        loop.add_event(f'n{n}:connect', connect, 'net')
        try:
            conn = await future
        finally:
            loop.remove_event(f'n{n}:connect')

        protocol = protocol_factory()
        transport = conn.client
        transport._protocol = protocol
        waiter = loop.create_future()
        loop.call_soon(transport._start)
        loop.call_soon(_set_result, waiter)
        try:
            await waiter
        except BaseException:
            transport.close()
            raise
        return transport, protocol


def _set_result(future):
    if not future.done():
        future.set_result(None)


class MemServer:

    def __init__(self, net, protocol_factory, addr):
        self._net = net
        self._protocol_factory = protocol_factory
        self._addr = addr
        self._active = 0
        self._waiters = []
        self._closed = False
        self.pending = []

    @property
    def sockets(self):
        return [] if self._closed else [_Sock(self._addr)]

    def is_serving(self):
        return not self._closed

    def close(self):
        if self._closed:
            return
        self._closed = True
        del self._net._servers[self._addr]
        for conn in list(self.pending):
            self._net._loop.remove_event(f'n{conn.n}:accept')
            conn.reset()
        self.pending.clear()
        self._check()

    def _attach(self):
        self._active += 1

    def _detach(self):
        self._active -= 1
        self._check()

    def _check(self):
        if self._closed and self._active == 0:
            waiters, self._waiters = self._waiters, []
            for waiter in waiters:
                _set_result(waiter)

    async def wait_closed(self):
        if self._closed and self._active == 0:
            return
        waiter = self._net._loop.create_future()
        self._waiters.append(waiter)
        await waiter


class _Sock:

    def __init__(self, addr):
        self._addr = addr
        self.family = socket.AF_INET

    def getsockname(self):
        return self._addr


class MemConn:
    """Pair of transports"""

    def __init__(self, net, n, client_addr, server_addr, server):
        self.n = n
        self.net = net
        self.loop = net._loop
        self.server_obj = server
        self.client_addr = client_addr
        self.server_addr = server_addr
        self.client = MemTransport(self, f'n{n}<', client_addr, server_addr)
        self.server = MemTransport(self, f'n{n}>', server_addr, client_addr)
        self.client.peer = self.server
        self.server.peer = self.client
        server.pending.append(self)

    def accept(self):
        if self in self.server_obj.pending:
            self.server_obj.pending.remove(self)
        self.server._protocol = self.server_obj._protocol_factory()
        self.server._server = self.server_obj
        self.server_obj._attach()
        self.loop.call_soon(self.server._start)

    @property
    def is_open(self):
        return not self.client._closing or not self.server._closing

    def reset(self):
        """Connection lost without delivery of data in flight"""
        self.loop.remove_event(f'n{self.n}:accept')
        if self in self.server_obj.pending:
            self.server_obj.pending.remove(self)
        for transport in (self.client, self.server):
            transport.force_close(ConnectionResetError())


class MemTransport(asyncio.Transport):
    """One end of connection (label prefix is used for incoming data)"""

    def __init__(self, conn, label, sockname, peername):
        super().__init__({'sockname': sockname, 'peername': peername})
        self._conn = conn
        self._loop = conn.loop
        self._label = label
        self._protocol = None
        self._server = None
        self._in = collections.deque()
        self._in_size = 0
        self._eof = False          # peer sent EOF after _in
        self._started = False
        self._paused = False
        self._closing = False
        self._lost = False
        self._write_paused = False
        self._close_pending = False
        self.peer = None

    # incoming

    def _start(self):
        self._started = True
        self._protocol.connection_made(self)
        if self._lost:
            self._protocol.connection_lost(ConnectionResetError())
            return
        self._update()

    def _update(self):
        label = self._label
        enabled = (self._started and not self._paused and not self._closing and
                   not self._lost)
        loop = self._loop
        if enabled and self._in:
            if label + 'd' not in loop._mc_events:
                loop.add_event(label + 'd', self._deliver, 'net')
        else:
            loop.remove_event(label + 'd')
        if enabled and not self._in and self._eof:
            if label + 'eof' not in loop._mc_events:
                loop.add_event(label + 'eof', self._deliver_eof, 'net')
        else:
            loop.remove_event(label + 'eof')

    def _deliver(self):
        data = self._in.popleft()
        self._in_size -= len(data)
        # real loops call protocol from a ready handle
        self._loop.call_soon(self._data_received, data)
        self.peer._drained()
        self._update()

    def _data_received(self, data):
        if self._lost or self._closing:
            return
        self._protocol.data_received(data)

    def _deliver_eof(self):
        self._eof = False
        self._loop.call_soon(self._eof_received)

    def _eof_received(self):
        if self._lost or self._closing:
            return
        if not self._protocol.eof_received():
            self.close()

    # outgoing

    def write(self, data):
        if self._lost or self._closing:
            return
        data = bytes(data)
        if not data:
            return
        peer = self.peer
        if peer._closing or peer._lost:
            return
        peer._in.append(data)
        peer._in_size += len(data)
        peer._update()
        if not self._write_paused and self._buffered() > self._high():
            self._write_paused = True
            self._protocol.pause_writing()

    def _high(self):
        return self._loop._mc_opt.high_water

    def _buffered(self):
        kernel = self._loop._mc_opt.kernel_buffer
        if kernel is None:
            return 0
        return max(0, self.peer._in_size - kernel)

    def _drained(self):
        if self._lost:
            return
        if (self._write_paused and not self._closing and
                self._buffered() <= self._high() // 4):
            self._write_paused = False
            self._loop.call_soon(self._resume)
        if self._close_pending and not self._buffered():
            self._close_pending = False
            self._finish_close()

    def _resume(self):
        if not self._lost and not self._write_paused:
            self._protocol.resume_writing()

    def get_write_buffer_size(self):
        return self._buffered()

    def pause_reading(self):
        self._paused = True
        self._update()

    def resume_reading(self):
        self._paused = False
        self._update()

    def is_reading(self):
        return not self._paused

    def is_closing(self):
        return self._closing

    def can_write_eof(self):
        return False

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    # closing

    def close(self):
        if self._closing or self._lost:
            return
        self._closing = True
        self._in.clear()
        self._in_size = 0
        self._update()
        self.peer._drained()
        if self._buffered():
            self._close_pending = True
        else:
            self._finish_close()

    def _finish_close(self):
        peer = self.peer
        peer._eof = True
        peer._update()
        self._loop.call_soon(self._connection_lost, None)

    def abort(self):
        self.force_close(None)

    def force_close(self, exc):
        if self._lost:
            return
        self._close_pending = False
        closing, self._closing = self._closing, True
        self._in.clear()
        self._in_size = 0
        self._update()
        if exc is None:
            self.peer._eof = True
            self.peer._update()
        if not closing and self._started:
            self._loop.call_soon(self._connection_lost, exc)
        elif not closing:
            # reset before protocol was informed
            self._loop.call_soon(self._connection_lost, exc)

    def _connection_lost(self, exc):
        if self._lost:
            return
        self._lost = True
        try:
            if self._protocol is not None and self._started:
                self._protocol.connection_lost(exc)
        finally:
            if self._server is not None:
                self._server._detach()
                self._server = None
