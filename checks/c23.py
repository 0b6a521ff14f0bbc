"""C23: orderly shutdown"""

import asyncio
import logging.config  # NOQA
import os

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.backends import lmdb
    from hat.event.server.main import async_main
    from hat.event.server.main_runner import MainRunner
    from checks import enginelib
    from checks import env
    from checks import lmdblib as lib
    import hat.monitor.common
    import hat.monitor.observer.server

    port, admin_port, monitor_port, remote_port = 23012, 23014, 23010, 24001
    ADDR = tcp.Address('127.0.0.1', port)
    SERVER = 1

    def reg(token):
        return common.RegisterEvent(('x', str(token)), None,
                                    common.EventPayloadJson(
                                        {'t': token, 'h': 99}))

    def open_files(path):
        result = []
        for i in os.listdir('/proc/self/fd'):
            try:
                target = os.readlink(f'/proc/self/fd/{i}')
            except OSError:
                continue
            if target.startswith(str(path)):
                result.append(os.path.basename(target))
        return result

    class Process:
        """Function executed by server process, signal cancels it"""

        def __init__(self, conf):
            self.task = asyncio.create_task(async_main(conf))

        def close(self):
            self.task.cancel()

        async def wait_closed(self):
            await asyncio.wait([self.task])
            if not self.task.cancelled():
                self.task.result()

    class World:

        def __init__(self, ctx, p, path):
            self.ctx = ctx
            self.p = p
            self.acked = []
            self.open_requests = set()
            self.tokens = 0
            self.closing = False
            self.monitor = None
            self.remote = None
            self.blessed = p.get('blessed', True)
            self.conf = {
                'name': 'es', 'server_id': SERVER,
                'eventer_server': {'host': '127.0.0.1', 'port': port}}
            lmdb_conf = lib.Conf(
                latest=(('*',),), timeseries=[('TIMESTAMP', [('*',)])])
            self.lmdb_conf = lmdb_conf.json(path / 'db')
            if p.get('flush_period'):
                self.lmdb_conf['flush_period'] = p['flush_period']
            self.lmdb_conf['module'] = 'hat.event.backends.lmdb'
            self.conf['backend'] = self.lmdb_conf
            self.recorder = enginelib.Recorder()
            created = [0]

            async def on_create(module):
                created[0] += 1
                if p.get('slow_create'):
                    try:
                        await ctx.point(f'm{created[0]}')
                    except BaseException:
                        module.close()
                        raise
                module.async_group.spawn(aio.call_on_cancel, on_close)

            async def on_close():
                if p.get('slow_close'):
                    await ctx.point('z')

            async def step(label):
                if p.get('slow_process'):
                    await ctx.point(label)

            confs, self.modules = enginelib.install(self.recorder, [
                enginelib.Behaviour([('*',)], {}, create=on_create,
                                    style='async', step=step)
                for _ in range(p.get('modules', 1))])
            self.conf['modules'] = confs
            if p.get('admin'):
                self.conf['adminer_server'] = {'host': '127.0.0.1',
                                               'port': admin_port}
                self.conf['log'] = {'version': 1}
            if p.get('monitor'):
                self.conf['monitor_component'] = {
                    'host': '127.0.0.1', 'port': monitor_port, 'group': 'g'}

        async def start(self):
            if self.p.get('monitor'):
                self.monitor = await hat.monitor.observer.server.listen(
                    tcp.Address('127.0.0.1', monitor_port), close_timeout=1,
                    state_cb=lambda _, __: self.update())
            if self.p.get('remote'):
                self.history = [
                    common.Event(common.EventId(2, i + 1, 1), ('r', str(i)),
                                 lib.ts(i + 1), None, None)
                    for i in range(self.p['remote'])]

                async def on_query(info, params):
                    events = [e for e in self.history
                              if e.id > params.last_event_id]
                    return common.QueryResult(events[:1], len(events) > 1)

                self.remote = await eventer.listen(
                    tcp.Address('127.0.0.1', remote_port),
                    query_cb=on_query)
            self.runner = (Process if self.p.get('process') else
                           MainRunner)(self.conf)

        async def update(self):
            req = hat.monitor.common.BlessingReq(
                7 if self.blessed else None, None)
            infos = [i._replace(blessing_req=req)
                     for i in self.monitor.state.local_components]
            if self.remote:
                infos.append(hat.monitor.common.ComponentInfo(
                    cid=100, mid=2, name='r', group='g', data={
                        'server_id': 2,
                        'eventer_server': {'host': '127.0.0.1',
                                           'port': remote_port},
                        'server_token': None},
                    rank=1,
                    blessing_req=hat.monitor.common.BlessingReq(None, None),
                    blessing_res=hat.monitor.common.BlessingRes(None,
                                                                False)))
            await self.monitor.update(1, infos)

        async def request(self, label, fn):
            """Request ends with answer or connection error"""
            self.open_requests.add(label)
            try:
                return await fn
            except ConnectionError:
                if not self.closing:
                    raise Violation(f'{label} failed with connection error')
                return
            finally:
                self.open_requests.discard(label)

        async def writer(self, name, ops):
            """Register and query operations executed concurrently if they
            are in the same group"""
            try:
                client = await eventer.connect(ADDR, name)
            except (ConnectionError, eventer.EventerInitError):
                if not self.closing:
                    raise
                return

            async def register(label):
                self.tokens += 1
                token = self.tokens
                events = await self.request(label, client.register(
                    [reg(token)], with_response=True))
                if events is None:
                    return
                if [i.payload.data['t'] for i in events] != [token]:
                    raise Violation(f'registered {events}')
                self.acked.extend(events)

            async def query(label):
                known = len(self.acked)
                result = await self.request(label, client.query(
                    common.QueryTimeseriesParams(
                        event_types=[('x', '*')])))
                if result is None:
                    return
                ids = {e.id for e in result.events}
                if not ids.issuperset(e.id for e in self.acked[:known]):
                    raise Violation('query result without registered')

            for i, group in enumerate(ops):
                await self.ctx.point(f'{name}{i}')
                if not client.is_open:
                    break
                await asyncio.gather(*[
                    (register if op == 'r' else query)(f'{name}{i}.{j}')
                    for j, op in enumerate(group)])
            if self.p.get('leave'):
                await client.async_close()
            return client

    async def harness(ctx):
        await env_scratch(ctx, execute)

    async def env_scratch(ctx, fn):
        scratch = env.Scratch()
        path = scratch.__enter__()
        ctx.cleanup = lambda: scratch.__exit__(None, None, None)
        await fn(ctx, path)

    async def read(world):
        """History found in reopened database"""
        backend = await aio.call(lmdb.info.create, world.lmdb_conf, None,
                                 None)
        result = []
        for server in (SERVER, 2):
            events = await backend.query(common.QueryServerParams(
                server, persisted=True))
            if events.more_follows:
                raise Violation('unexpected more follows')
            result.append(list(events.events))
        await backend.async_close()
        return result

    async def execute(ctx, path):
        p = ctx.params
        world = World(ctx, p, path)
        if p.get('history'):
            first = World(ctx, {}, path)
            await first.start()
            await ctx.quiesce()
            await first.runner.async_close()
        before = set(asyncio.all_tasks())
        await world.start()
        received = []
        subscriber = None
        if p.get('settled', True):
            await ctx.quiesce()
            subscriber = await eventer.connect(
                ADDR, 'p', subscriptions=[('*',)], persisted=True,
                server_id=None if p.get('remote') else SERVER,
                events_cb=lambda _, events: received.extend(events))
        actors = []

        async def close():
            if p.get('delay'):
                await asyncio.sleep(p['delay'])
            await ctx.point('x0')
            how = p.get('how', 'close')
            if how == 'module':
                alive = [i for i in world.modules if i.is_open]
                if alive:
                    world.closing = True
                    alive[0].close()
                    return
            if how == 'monitor':
                world.closing = True
                ctx_conns = [i for i in ctx.net.conns
                             if i.server_addr[1] == monitor_port]
                if ctx_conns:
                    for i in ctx_conns:
                        i.reset()
                    return
            if how == 'request' and world.monitor.state.local_components:
                # monitor requests closing of component
                world.closing = True
                await world.monitor.async_close()
                return
            world.closing = True
            world.runner.close()
            if p.get('twice'):
                await ctx.point('x1')
                world.runner.close()

        async def bless():
            for i, value in enumerate(p.get('bless', ())):
                await ctx.point(f'b{i}')
                world.blessed = value
                await world.update()

        async def persist():
            for i in range(p.get('persist', 0)):
                await ctx.point(f'n{i}')
                n = len(world.history)
                events = [common.Event(
                    common.EventId(2, n + 1, 1), ('r', str(n)),
                    lib.ts(n + 1), None, None)]
                world.history.extend(events)
                await world.remote.notify_events(events, True)

        actors.append(ctx.spawn(close()))
        for name, ops in p.get('writers', {}).items():
            actors.append(ctx.spawn(world.writer(name, ops)))
        if p.get('bless'):
            actors.append(ctx.spawn(bless()))
        if p.get('persist'):
            actors.append(ctx.spawn(persist()))
        await world.runner.wait_closed()
        world.closed = True
        clients = [subscriber]
        for actor in actors:
            clients.append(await actor)
        await ctx.quiesce()
        if world.open_requests:
            raise Violation(f'requests {world.open_requests} not finished')
        for client in clients:
            if client is not None:
                if not client.is_closed:
                    raise Violation('connection is not closed')
        # nothing is left running
        for i in ctx.net.conns:
            if i.server_addr[1] != monitor_port and i.is_open:
                raise Violation(f'connection {i.server_addr} is open')
        if any(not i.is_closed for i in world.modules):
            raise Violation('module is not closed')
        for resource in (world.remote, world.monitor):
            if resource:
                await resource.async_close()
        await ctx.quiesce()
        left = [i for i in asyncio.all_tasks()
                if i not in before and not i.done()]
        if left:
            raise Violation(f'{len(left)} tasks left: {left[0]}')
        if open_files(path):
            raise Violation(f'{open_files(path)} left open')
        for i in (port, admin_port):
            srv = await eventer.listen(tcp.Address('127.0.0.1', i))
            await srv.async_close()

        if not (path / 'db').exists():
            if world.acked or world.modules:
                raise Violation('no database')
            ctx.log('no database')
            return
        events, remote = await read(world)
        ids = {e.id: e for e in events}
        for e in world.acked:
            if ids.get(e.id) != e:
                raise Violation(f'acknowledged {e} is lost')
        states = [e.payload.data for e in events
                  if e.type == ('event', str(SERVER), 'engine')]
        if states != ['STARTED', 'STOPPED'] * (len(states) // 2):
            raise Violation(f'engine events {states}')
        if events and (events[-1].payload.data != 'STOPPED'):
            raise Violation(f'history ends with {events[-1]}')
        tokens = [e.payload.data['t'] for e in events if e.type[0] == 'x']
        if len(set(tokens)) != len(tokens):
            raise Violation('event registered twice')
        if subscriber is not None:
            for server, persisted in ((SERVER, events), (2, remote)):
                got = [e for e in received if e.id.server == server]
                if got != persisted[len(persisted) - len(got):] or (
                        persisted and p.get('all') and not got):
                    raise Violation(f'persisted notifications '
                                    f'{lib.fmt(got)}, persisted '
                                    f'{lib.fmt(persisted)}')
        if world.remote and remote != world.history[:len(remote)]:
            raise Violation(f'remote {lib.fmt(remote)}')
        ctx.log(len(events), len(world.acked), len(received), len(remote))

    scenarios = []

    def add(name, params, inject=('x',), bound=None, **options):
        scenario = (name, harness, params, Options(inject=inject, **options))
        scenarios.append(scenario if bound is None else (*scenario, bound))

    def started(name, params, **options):
        add(name, {'all': True, **params}, **options)

    started('idle', {})
    started('history', {'history': True})
    started('writer', {'writers': {'v': ['r', 'q', 'r']}})
    started('concurrent', {'writers': {'v': ['rrq'], 'w': ['rq']}})
    started('backlog', {'writers': {'v': ['r' * 12, 'q' + 'r' * 8],
                                    'w': ['r' * 12]}}, inject_cost=1)
    started('backlog slow', {'slow_process': True, 'writers': {
        'v': ['r' * 12]}}, inject_cost=1)
    started('slow process', {'slow_process': True,
                             'writers': {'v': ['rrr']}},
            inject=('x', 'm'))
    started('slow close', {'slow_close': True, 'modules': 2,
                           'writers': {'v': ['r', 'r']}})
    started('flush', {'flush_period': 5, 'delay': 5,
                      'writers': {'v': ['rr', 'r']}})
    started('leave', {'writers': {'v': ['r'], 'w': ['r']}, 'leave': True})
    started('twice', {'twice': True, 'writers': {'v': ['rr']}})
    started('module', {'how': 'module', 'writers': {'v': ['rr', 'q']}})
    started('admin', {'admin': True, 'writers': {'v': ['r']}})
    add('start', {'settled': False}, inject_cost=1)
    add('start slow', {'settled': False, 'slow_create': True, 'modules': 2,
                       'admin': True}, inject=('x', 'm'), inject_cost=1)
    add('start history', {'settled': False, 'history': True},
        inject_cost=1)
    for name, p in (('idle', {}), ('slow close', {'slow_close': True}),
                    ('module', {'how': 'module'}),
                    ('slow process', {'slow_process': True})):
        started(f'process {name}', {'process': True, **p, 'writers': {
            'v': ['rr', 'q']}}, inject=('x', 'm'))
    add('process start', {'process': True, 'settled': False},
        inject_cost=1)
    add('process start slow', {
        'process': True, 'settled': False, 'slow_create': True,
        'modules': 2}, inject=('x', 'm'), inject_cost=1)
    for how in ('close', 'monitor', 'request'):
        p = {'monitor': True, 'how': how}
        started(f'monitor {how}', {**p, 'writers': {'v': ['r', 'r']}})
        add(f'monitor start {how}', {**p, 'settled': False}, inject_cost=1)
    started('monitor bless', {'monitor': True, 'bless': [False, True],
                              'writers': {'v': ['r', 'q']}})
    started('remote not blessed', {
        'monitor': True, 'remote': 1, 'persist': 2, 'blessed': False})
    for how in ('close', 'request'):
        started(f'remote {how}', {
            'monitor': True, 'remote': 2, 'persist': 2, 'how': how,
            'writers': {'v': ['r']}})
        add(f'remote start {how}', {
            'monitor': True, 'remote': 2, 'settled': False, 'how': how})

    check.explore(scenarios, bound=1, time_limit=100)
