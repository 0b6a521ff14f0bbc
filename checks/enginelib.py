"""Scripted modules for engine checks and oracle of session processing"""

import sys
import types

from mc.core import Violation


class Recorder:
    """Global order of what happened"""

    def __init__(self):
        self.log = []
        self.counter = 0

    def token(self):
        self.counter += 1
        return self.counter


def install(recorder, behaviours, name='verif_scripted'):
    """behaviours: list of objects with attributes

      - subscriptions: list of query types
      - react(event) -> list of (type, source_timestamp) or raises
      - style: 'sync' | 'async' | 'none'
      - create(engine, source) optional coroutine called on creation
      - step: optional coroutine function(label) awaited in async callbacks

    Returns module confs.
    """
    from hat import aio
    from hat.event import common

    class Module(common.Module):

        def __init__(self, index, behaviour, engine, source):
            self.index = index
            self.behaviour = behaviour
            self.engine = engine
            self.source = source
            self._async_group = aio.Group()
            self._subscription = common.create_subscription(
                behaviour.subscriptions)

        @property
        def async_group(self):
            return self._async_group

        @property
        def subscription(self):
            return self._subscription

        def _produce(self, source, event):
            outputs = []
            for type, source_timestamp in self.behaviour.react(event):
                hop = (event.payload.data['h'] + 1 if isinstance(
                    event.payload, common.EventPayloadJson) and isinstance(
                        event.payload.data, dict) else 0)
                outputs.append(common.RegisterEvent(
                    type, source_timestamp, common.EventPayloadJson(
                        {'t': recorder.token(), 'h': hop})))
            return outputs

    class SyncModule(Module):

        def on_session_start(self, session_id):
            recorder.log.append(('start', self.index, session_id))

        def on_session_stop(self, session_id):
            recorder.log.append(('stop', self.index, session_id))

        def process(self, source, event):
            recorder.log.append(('begin', self.index, source, event))
            outputs = self._produce(source, event)
            recorder.log.append(('end', self.index, event, outputs))
            return (iter(outputs) if self.behaviour.style == 'iter' else
                    outputs or None)

    class AsyncModule(Module):

        async def _step(self, what):
            if self.behaviour.step:
                await self.behaviour.step(f'm{self.index}.{what}')

        async def on_session_start(self, session_id):
            await self._step('start')
            recorder.log.append(('start', self.index, session_id))

        async def on_session_stop(self, session_id):
            await self._step('stop')
            recorder.log.append(('stop', self.index, session_id))

        async def process(self, source, event):
            recorder.log.append(('begin', self.index, source, event))
            await self._step('process')
            outputs = self._produce(source, event)
            recorder.log.append(('end', self.index, event, outputs))
            return outputs

    modules = []

    async def create(conf, engine, source):
        index = conf['index']
        behaviour = behaviours[index]
        cls = AsyncModule if behaviour.style == 'async' else SyncModule
        module = cls(index, behaviour, engine, source)
        modules.append(module)
        if source != common.Source(common.SourceType.MODULE, index):
            raise Violation(f'module {index} created with source {source}')
        try:
            if behaviour.create:
                await behaviour.create(module)
        except BaseException:
            await aio.uncancellable(module.async_close())
            raise
        return module

    module = types.ModuleType(name)
    module.info = common.ModuleInfo(create=create)
    sys.modules[name] = module
    confs = [{'module': name, 'index': i} for i in range(len(behaviours))]
    return confs, modules


class Behaviour:

    def __init__(self, subscriptions, reactions, style='sync', step=None,
                 max_hop=1, create=None, hook=None):
        self.subscriptions = subscriptions
        self.reactions = reactions      # {type: [type, ...]}
        self.style = style
        self.step = step
        self.max_hop = max_hop
        self.create = create
        self.hook = hook

    def react(self, event):
        if self.hook:
            self.hook(event)
        data = getattr(event.payload, 'data', None)
        hop = data['h'] if isinstance(data, dict) and 'h' in data else 99
        if hop >= self.max_hop:
            return []
        return [(i, None) for i in self.reactions.get(event.type, ())]


class EventerServerStub:

    def get_client_names(self):
        return []


def matches(subscriptions, type):
    from checks import ref
    return any(ref.matches(type, i) for i in subscriptions)


def verify_sessions(log, batches, behaviours, requests, server_id,
                    base_session=0, complete=True):
    """Verify recorded calls and batches registered with backend

    requests: {tuple of (type, payload token)...: source} - for identifying
    source of the session's request; key is payload token of first event.
    """
    from hat.event import common

    status_type = ('event', str(server_id), 'engine')
    session = base_session
    pos = 0
    n_modules = len(behaviours)
    for batch in batches:
        session += 1
        if not batch:
            raise Violation('empty session registered')
        ids = [e.id for e in batch]
        if (not complete and batch is batches[-1] and
                ids[0].session == session + 1):
            # session interrupted by closing is not registered
            session += 1
        expected = [common.EventId(server_id, session, i + 1)
                    for i in range(len(batch))]
        if ids != expected:
            raise Violation(f'registered ids {ids}, expected {expected}')
        if len({e.timestamp for e in batch}) != 1:
            raise Violation('session events with different timestamps')
        first = batch[0]
        if first.type == status_type:
            source = common.Source(common.SourceType.ENGINE, 0)
            request = [common.RegisterEvent(first.type, None, first.payload)]
        else:
            token = first.payload.data['t']
            if token not in requests:
                raise Violation(f'unknown session request {first}')
            source, request = requests[token]
        body = [common.RegisterEvent(e.type, e.source_timestamp, e.payload)
                for e in batch]
        if body[:len(request)] != list(request):
            raise Violation(f'session starts with {body[:len(request)]}, '
                            f'expected {request}')
        if (first.type == status_type and first.payload.data == 'STOPPED'):
            if len(batch) != 1:
                raise Violation('events registered with STOPPED')
            break

        sources = {e.id: source for e in batch[:len(request)]}
        produced = list(request)
        phase = 'start'
        started = []
        stopped = []
        current = None
        calls = {i: [] for i in range(n_modules)}
        while pos < len(log):
            item = log[pos]
            if phase == 'stop' and len(stopped) == n_modules:
                break
            if item[0] == 'start':
                if phase != 'start':
                    raise Violation('session start after processing started')
                if item[2] != session:
                    raise Violation(f'session start with id {item[2]}, '
                                    f'expected {session}')
                started.append(item[1])
            elif item[0] == 'stop':
                if current is not None:
                    raise Violation('session stop while processing')
                if item[2] != session:
                    raise Violation(f'session stop with id {item[2]}, '
                                    f'expected {session}')
                phase = 'stop'
                stopped.append(item[1])
            elif item[0] == 'begin':
                if sorted(started) != list(range(n_modules)):
                    raise Violation(f'processing before session start of '
                                    f'each module: {started}')
                if phase == 'stop':
                    raise Violation('processing after session stop')
                phase = 'process'
                if current is not None:
                    raise Violation('overlapping module calls')
                _, m, src, event = item
                current = m, event
                calls[m].append((src, event))
            elif item[0] == 'end':
                _, m, event, outputs = item
                if current is None or current != (m, event):
                    raise Violation('unexpected end of processing')
                current = None
                for output in outputs:
                    produced.append(output)
                    if len(produced) > len(batch):
                        raise Violation(f'produced event {output} is not '
                                        f'registered in session')
                    sources[batch[len(produced) - 1].id] = common.Source(
                        common.SourceType.MODULE, m)
            pos += 1
        if n_modules:
            if sorted(started) != list(range(n_modules)):
                raise Violation(f'session {session} started for {started}')
            if sorted(stopped) != list(range(n_modules)):
                raise Violation(f'session {session} stopped for {stopped}')
        if body != produced:
            raise Violation(f'session {session} registered {body}\n'
                            f'expected {produced}')
        for m, behaviour in enumerate(behaviours):
            expected = [(sources[e.id], e) for e in batch
                        if matches(behaviour.subscriptions, e.type)]
            if calls[m] != expected:
                raise Violation(f'module {m} in session {session} processed '
                                f'{calls[m]}\nexpected {expected}')
    if complete and pos != len(log):
        raise Violation(f'module calls outside of registered sessions: '
                        f'{log[pos:pos + 3]}')
