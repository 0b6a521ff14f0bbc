"""C20: synchronisation of history of remote server"""

import asyncio

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.eventer_client import (SyncedState,
                                                 create_eventer_client)
    from hat.event.server.eventer_client_runner import EventerClientRunner
    from hat.event.server.eventer_server import create_eventer_server
    from checks import env
    from checks import lmdblib as lib
    import hat.monitor.component
    import hat.monitor.common

    addr = tcp.Address('127.0.0.1', 23012)
    local_id, remote_id = 1, 2
    S = common.Status
    C, N, D = SyncedState.CONNECTED, SyncedState.SYNCING, SyncedState.SYNCED

    def event(server, session, instance):
        return common.Event(
            common.EventId(server, session, instance),
            ('a', str(session), str(instance)),
            common.Timestamp(session, 0), None, None)

    def batch_of(session, size, server=remote_id):
        return [event(server, session, i + 1) for i in range(size)]

    class Remote:
        """Server with scripted history

        Sessions are persisted in groups; notification of each session of
        group happens later (as flush of backend does)"""

        def __init__(self, ctx, p):
            self.ctx = ctx
            self.p = p
            self.store = []          # persisted events (all servers)
            self.registered = []
            self.queried = []
            self.queries = 0
            self.session = 0
            self.notified = 0

        async def listen(self):
            async def on_register(info, events):
                self.registered.extend(events)
                return None

            self.srv = await eventer.listen(
                addr, status=self.p.get('status', S.OPERATIONAL),
                register_cb=on_register, query_cb=self.on_query)

        async def on_query(self, info, params):
            self.queries += 1
            if (not isinstance(params, common.QueryServerParams) or
                    params.server_id != remote_id or not params.persisted):
                raise Violation(f'query {params}')
            if self.p.get('slow_query'):
                await self.ctx.point(f'q{self.queries}')
            events = [e for e in self.store if e.id.server == remote_id and (
                params.last_event_id is None or e.id > params.last_event_id)]
            limit = min(i for i in (params.max_results, self.p.get('page'),
                                    1000) if i is not None)
            result = common.QueryResult(events[:limit], len(events) > limit)
            self.seen = len(self.own())
            self.queried.append(len(result.events))
            if self.p.get('slow_result'):
                await self.ctx.point(f'p{self.queries}')
            return result

        def own(self):
            return [e for e in self.store if e.id.server == remote_id]

        def sessions(self):
            result = {}
            for e in self.own():
                result.setdefault(e.id.session, []).append(e)
            return result

        def add(self, sizes, foreign=()):
            batches = []
            for size in sizes:
                self.session += 1
                batch = batch_of(self.session, size)
                if foreign:
                    self.store.extend(batch_of(self.session, 1, 3))
                batches.append(batch)
                self.store.extend(batch)
            return batches

        async def persist(self, sizes, label=None):
            batches = self.add(sizes)
            for i, batch in enumerate(batches):
                if label:
                    await self.ctx.point(f'{label}.n{i}')
                await self.srv.notify_events(batch, False)
                await self.srv.notify_events(batch_of(1, 1, 3), True)
                await self.srv.notify_events(batch, True)

    class Local:

        def __init__(self, ctx, p, remote):
            self.ctx = ctx
            self.p = p
            self.remote = remote
            self.backend = env.scripted_backend()
            self.announced = []
            self.connections = []
            register = self.backend.register

            async def checked(events):
                events = list(events)
                self.check(events)
                return await register(events)

            self.backend.register = checked
            self.failed = 0

            async def fail(events):
                if self.failed < p['fails']:
                    await ctx.point(f'e{self.failed}')
                    self.failed += 1
                    raise Exception('registration failure')

            if p.get('fails'):
                self.backend.before_register = fail
            if p.get('slow_register'):
                count = [0]

                async def before(events):
                    count[0] += 1
                    await ctx.point(f'l{count[0]}')

                self.backend.before_register = before

        def check(self, events):
            """Registration of complete next sessions"""
            if not events:
                raise Violation('registration without events')
            have = self.backend.events
            want = self.remote.own()[len(have):][:len(events)]
            if events != want:
                raise Violation(f'registered {lib.fmt(events)} after '
                                f'{lib.fmt(have[-1:])}, remote has '
                                f'{lib.fmt(self.remote.own())}')
            sessions = self.remote.sessions()
            for session in {e.id.session for e in events}:
                got = [e for e in events if e.id.session == session]
                if got != sessions[session]:
                    raise Violation(f'session {session} is split: registered '
                                    f'{lib.fmt(got)} of '
                                    f'{lib.fmt(sessions[session])}')

        def new_connection(self):
            self.connections.append([])
            self.start = len(self.remote.queried)

        async def on_synced(self, state, count):
            if state == C:
                self.new_connection()
            states = self.connections[-1] if self.connections else None
            if states is None:
                raise Violation(f'{state} before CONNECTED')
            states.append(state)
            if states not in ([C], [C, N], [C, D], [C, N, D]):
                raise Violation(f'announced {states}')
            if self.p.get('slow_synced'):
                await self.ctx.point(f'c{len(states)}')
            if state != D:
                if count is not None:
                    raise Violation(f'{state} announced with count {count}')
                return
            transferred = sum(self.remote.queried[self.start:])
            if count != transferred:
                raise Violation(f'synced count {count}, transferred '
                                f'{transferred}')
            if (N in states) != bool(transferred):
                raise Violation(f'announced {states} with {count} events')
            if len(self.backend.events) < self.remote.seen:
                raise Violation(f'synced with {len(self.backend.events)} of '
                                f'{self.remote.seen} events')

    def check_registered(remote, connections):
        """Progress events registered on remote server"""
        got = []
        for e in remote.registered:
            if e.type != ('event', str(local_id), 'synced', str(remote_id)):
                raise Violation(f'registered {e}')
            data = e.payload.data
            if ('count' in data) != (data['state'] == 'SYNCED'):
                raise Violation(f'registered {data}')
            if not got or got[-1] != data['state']:
                got.append(data['state'])
        want = [i.name for states in connections for i in states]
        if len(connections) == 1 and got != want:
            raise Violation(f'progress {got}, expected {want}')

    def monitor_state(servers):
        infos = []
        for i, (server_id, port) in enumerate(servers):
            infos.append(hat.monitor.common.ComponentInfo(
                cid=i + 1, mid=0, name=f'es{i}', group='g',
                data={'server_id': server_id,
                      'eventer_server': {'host': '127.0.0.1', 'port': port},
                      'server_token': None},
                rank=1, blessing_req=hat.monitor.common.BlessingReq(
                    None, None),
                blessing_res=hat.monitor.common.BlessingRes(None, False)))
        return hat.monitor.component.State(info=None, components=infos)

    async def scripted(ctx):
        p = ctx.params
        remote = Remote(ctx, p)
        remote.add(p.get('history', ()), p.get('foreign'))
        await remote.listen()
        local = Local(ctx, p, remote)
        known = p.get('known', 0)
        for session in range(1, known + 1):
            local.backend.batches.append(remote.sessions()[session])

        async def persisting():
            for i, sizes in enumerate(p.get('persist', ())):
                await ctx.point(f'w{i}')
                await remote.persist(sizes, f'w{i}')

        async def dropping():
            for i in range(p.get('drops', 0)):
                await ctx.point(f'd{i}')
                ctx.reset('client')

        async def status():
            for i, value in enumerate(p.get('statuses', ())):
                await ctx.point(f's{i}')
                await remote.srv.set_status(value)

        ctx.owned('client')
        actors = [ctx.spawn(persisting()), ctx.spawn(dropping()),
                  ctx.spawn(status())]
        if p.get('drops') or p.get('fails'):
            runner = EventerClientRunner(
                {'monitor_component': {'group': 'g'}, 'name': 'n',
                 'server_id': local_id}, local.backend,
                lambda server_id, state, count: local.on_synced(state,
                                                                count),
                reconnect_delay=5)
            runner.set_monitor_state(monitor_state([(remote_id, 23012)]))
            resource = runner
        else:
            resource = await create_eventer_client(
                addr, 'client', local_id, remote_id, local.backend,
                synced_cb=local.on_synced)
        ctx.owned(None)
        await ctx.join(*actors)
        await ctx.quiesce()
        for _ in range(p.get('drops', 0) + p.get('fails', 0) + 1):
            await asyncio.sleep(6)
            await ctx.quiesce()
        if not resource.is_open:
            raise Violation('closed')
        if local.backend.events != remote.own():
            raise Violation(f'registered {lib.fmt(local.backend.events)}, '
                            f'remote has {lib.fmt(remote.own())}')
        if not local.connections or local.connections[-1][-1] != D:
            raise Violation(f'announced {local.connections}')
        if not p.get('statuses'):
            check_registered(remote, local.connections)
        # continuation
        await remote.persist([1, 2])
        await ctx.quiesce()
        if local.backend.events != remote.own():
            raise Violation(f'registered {lib.fmt(local.backend.events)}, '
                            f'remote has {lib.fmt(remote.own())}')
        ctx.log(tuple(tuple(i) for i in local.connections),
                tuple(len(i) for i in local.backend.batches))
        await resource.async_close()
        await remote.srv.async_close()

    async def real(ctx):
        """Remote and local servers with real backends"""
        p = ctx.params
        scratch = env.Scratch()
        path = scratch.__enter__()
        ctx.cleanup = lambda: scratch.__exit__(None, None, None)
        conf = lib.Conf(latest=(), timeseries=[('TIMESTAMP', [('*',)])],
                        max_results=p.get('page', 4096))
        from hat.event.backends import lmdb, memory
        servers = []

        async def on_flushed(events):
            if servers:
                await servers[0].notify_events(events, True)

        create = (lmdb if p['backend'] == 'lmdb' else memory).info.create

        async def open_backend(name, registered=None, flushed=None):
            return await aio.call(create, conf.json(path / name), registered,
                                  flushed)

        ctx.loop.preemption = False
        remote = await open_backend('remote.db', None, on_flushed)
        announced = []
        local = await open_backend(
            'local.db', lambda events: announced.extend(events))
        srv = await create_eventer_server(addr, remote, remote_id,
                                          **p.get('server', {}))
        servers.append(srv)
        sessions = []

        async def register(size):
            batch = batch_of(len(sessions) + 1, size)
            sessions.append(batch)
            await remote.register(batch)

        for size in p.get('history', ()):
            await register(size)
        await remote.flush()

        states = []

        async def on_synced(state, count):
            states.append(state)

        async def persisting():
            for i, sizes in enumerate(p['persist']):
                await ctx.point(f'w{i}')
                for size in sizes:
                    await register(size)
                await ctx.point(f'f{i}')
                await remote.flush()

        # other client whose notifications can be delayed
        other = []
        if p.get('other'):
            async def on_events(client, events):
                if p.get('other') == 'slow':
                    await ctx.point(f'o{len(other)}')
                other.extend(events)

            await eventer.connect(addr, 'other', subscriptions=[('*',)],
                                  persisted=True, events_cb=on_events)
        actors = [ctx.spawn(persisting())]
        if p.get('late'):
            await ctx.point('c')
        client = await create_eventer_client(
            addr, 'client', local_id, remote_id, local, synced_cb=on_synced)
        await ctx.join(*actors)
        await ctx.quiesce()
        await register(2)
        await remote.flush()
        await ctx.quiesce()
        want = [e for batch in sessions for e in batch]
        for persisted in (False, True):
            if persisted:
                await local.flush()
            result = await local.query(common.QueryServerParams(
                remote_id, persisted=persisted, max_results=4096))
            got = list(result.events)
            while result.more_follows and result.events:
                result = await local.query(common.QueryServerParams(
                    remote_id, persisted=persisted, max_results=4096,
                    last_event_id=got[-1].id))
                got.extend(result.events)
            if got != want:
                raise Violation(f'local has {lib.fmt(got[-100:])}, expected '
                                f'{lib.fmt(want[-100:])}')
        if announced != want:
            raise Violation(f'local clients are notified of '
                            f'{lib.fmt(announced)}, expected '
                            f'{lib.fmt(want)}')
        ctx.log(tuple(states))
        if states[0] != C or states[-1] != D:
            raise Violation(f'announced {states}')
        await client.async_close()
        await srv.async_close()
        await local.async_close()
        await remote.async_close()

    scenarios = []

    def add(name, harness, params, inject=(), bound=None, **options):
        scenario = (name, harness, params, Options(inject=inject, **options))
        scenarios.append(scenario if bound is None else (*scenario, bound))

    add('empty', scripted, {'persist': [[1], [2, 1]]})
    add('history', scripted, {'history': [1, 2, 1], 'persist': [[2], [1]],
                              'foreign': True})
    for page in (1, 2, 3):
        add(f'page {page}', scripted, {
            'history': [2, 1, 3], 'page': page, 'persist': [[2]]})
        add(f'page {page} known', scripted, {
            'history': [2, 1, 3], 'known': 1, 'page': page,
            'persist': [[1, 1]], 'foreign': True})
    add('all known', scripted, {'history': [2, 1], 'known': 2,
                                'persist': [[1], [2]]})
    add('group', scripted, {'history': [1], 'persist': [[1, 2, 1]],
                            'slow_result': True})
    add('slow query', scripted, {'history': [2, 2], 'page': 2,
                                 'slow_query': True, 'slow_result': True,
                                 'persist': [[2], [1]]},
        inject=('w', 'q', 'p'))
    add('slow register', scripted, {'history': [2, 1], 'page': 1,
                                    'slow_register': True,
                                    'persist': [[2], [1, 1]]},
        inject=('w', 'l'))
    add('injected', scripted, {'history': [1, 2], 'persist': [[2, 1], [1]],
                               'page': 2}, inject=('w',))
    add('status', scripted, {'history': [1], 'persist': [[1]],
                             'status': S.STARTING, 'statuses': [
                                 S.OPERATIONAL, S.STOPPING, S.STANDBY]})
    add('drop', scripted, {'history': [2, 1], 'page': 2, 'drops': 1,
                           'persist': [[2], [1, 1]]}, inject=('d', 'w'))
    add('drops', scripted, {'history': [2, 1], 'drops': 2, 'page': 1,
                            'persist': [[2], [1]]}, inject=('d',))
    add('drop slow', scripted, {'history': [1, 2], 'drops': 1,
                                'slow_register': True,
                                'persist': [[2, 1]]}, inject=('d', 'l'))
    add('drop slow synced', scripted, {'history': [1, 2], 'drops': 1,
                                       'slow_synced': True,
                                       'persist': [[2, 1]]},
        inject=('d', 'c'))
    add('slow synced', scripted, {'history': [2, 1], 'page': 2,
                                  'slow_synced': True,
                                  'persist': [[2], [1, 1]]},
        inject=('w', 'c'))
    for fails in (1, 2):
        add(f'fails {fails}', scripted, {'history': [2, 1], 'page': 2,
                                         'fails': fails,
                                         'persist': [[2], [1, 1]]})
    for backend in ('memory', 'lmdb'):
        add(f'{backend}', real, {'backend': backend, 'history': [1, 2],
                                 'persist': [[1], [2, 1]]})
        add(f'{backend} other', real, {
            'backend': backend, 'history': [1], 'persist': [[1, 2]],
            'other': 'fast'}, inject=('w', 'f'))
        add(f'{backend} backpressure', real, {
            'backend': backend, 'history': [1], 'persist': [[1, 1, 1, 1]],
            'other': 'fast', 'late': True,
            'server': {'receive_queue_size': 1}}, kernel_buffer=0, high_water=0)
    add('lmdb page', real, {'backend': 'lmdb', 'history': [2, 1, 2],
                            'page': 2, 'persist': [[1, 2]]})

    check.explore(scenarios, bound=2)

    # histories larger than limit of results of single query

    from mc.explore import execute

    def run_large(case):
        backend, history, page = case
        result = execute(real, {
            'backend': backend, 'history': list(history),
            'page': page or 4096, 'persist': [[1], [2, 1]]},
            Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return len(history), result.events, 1, case

    check.enumerate('large histories', [
        (backend, history, page) for backend in ('lmdb', 'memory')
        for history, page in (
            ((4095,), 0), ((4096,), 0), ((4097,), 0), ((9000,), 0),
            ((4095, 2), 0), ((4096, 1), 0), ((1,) * 4097, 0),
            ((3,) * 3000, 0), ((7,) * 300, 5), ((5000, 1, 1, 5000), 0))],
        run_large, chunk=1, time_limit=120)
    check.assumptions = [
        'sessions of remote server are persisted as a whole (C16)',
        'clock of remote server does not go back']
