"""C33: redundant servers under common monitor server"""

import asyncio
import itertools
import shutil

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.backends import lmdb
    from hat.event.server.main_runner import MainRunner
    from checks import enginelib
    from checks import env
    from checks import lmdblib as lib
    import hat.monitor.common
    import hat.monitor.observer.server
    import hat.monitor.server.blessing as blessing

    MONITOR = tcp.Address('127.0.0.1', 23010)
    BLESS_ONE = blessing.Algorithm.BLESS_ONE
    DELAY = 20      # longer than reconnect delay

    def port(i):
        return 24000 + i

    def states(events, i):
        return [e.payload.data for e in events
                if e.type == ('event', str(i), 'engine')]

    class Server:
        """Event server process"""

        def __init__(self, world, id):
            self.world = world
            self.id = id
            self.name = f'es{id}'
            self.path = world.path / f'db{id}'
            self.runner = None
            self.modules = []
            self.client = None
            self.generation = 0
            self.acked = []
            self.crashed = False

        @property
        def running(self):
            return self.runner is not None and self.runner.is_open

        @property
        def module(self):
            for module in self.modules:
                if not module.is_closed:
                    return module

        def conf(self):
            p = self.world.p
            conf = lib.Conf(latest=(('*',),),
                            timeseries=[('TIMESTAMP', [('*',)])],
                            identifier=self.name).json(self.path)
            conf['module'] = 'hat.event.backends.lmdb'
            if p.get('flush_period'):
                conf['flush_period'] = p['flush_period']
            return conf

        async def start(self):
            world, p = self.world, self.world.p
            self.generation += 1
            generation = self.generation

            async def on_create(module):
                if generation != self.generation:
                    return

                async def on_close():
                    if p.get('slow_close') and generation == self.generation:
                        await world.ctx.point(f'z{self.id}')

                module.async_group.spawn(aio.call_on_cancel, on_close)
                await world.on_engine(self, module)

            async def step(label):
                if p.get('slow') and generation == self.generation:
                    await world.ctx.point(f's{self.id}')

            confs, self.modules = enginelib.install(
                enginelib.Recorder(), [enginelib.Behaviour(
                    [('*',)], {}, create=on_create, style='async',
                    step=step)],
                name=f'verif_scripted_{self.id}_{generation}')

            async def create():
                world.ctx.owned(self.name)
                return MainRunner({
                    'name': self.name, 'server_id': self.id,
                    'eventer_server': {'host': '127.0.0.1',
                                       'port': port(self.id)},
                    'backend': self.conf(), 'modules': confs,
                    'monitor_component': {
                        'host': '127.0.0.1', 'port': MONITOR.port,
                        'group': 'g'},
                    **({'server_token': p['token']} if p.get('token') else
                       {})})

            self.runner = await asyncio.create_task(create())

        async def stop(self):
            await self.runner.async_close()

        async def kill(self):
            """Connection to monitor is lost"""
            conns = [i for i in self.world.ctx.conns(self.name)
                     if i.server_addr[1] == MONITOR.port]
            for conn in conns:
                conn.reset()
            if conns:
                await self.runner.wait_closed()

        def drop(self):
            """Connections between event servers are lost"""
            for conn in self.world.ctx.net.conns:
                if not conn.is_open or conn.server_addr[1] == MONITOR.port:
                    continue
                if conn.owner == self.name or (
                        conn.owner is not None and
                        conn.server_addr[1] == port(self.id)):
                    conn.reset()

        async def crash(self):
            """Everything which is not on disk is lost"""
            self.crashed = True
            self.generation += 1
            path = self.world.path / f'db{self.id}.{self.generation}'
            if self.path.exists():
                shutil.copyfile(self.path, path)
            self.path = path
            self.acked = []
            address = '127.0.0.1', port(self.id)
            self.world.ctx.net.refuse.add(address)
            for conn in self.world.ctx.net.conns:
                if conn.is_open and (conn.owner == self.name or
                                     conn.server_addr[1] == port(self.id)):
                    conn.reset()
            # remains of the process can not reach anybody
            modules, self.modules = self.modules, []
            await self.runner.async_close()
            for module in modules:
                await module.wait_closed()
            self.world.ctx.net.refuse.discard(address)

        async def register(self, count):
            try:
                if not self.client or not self.client.is_open:
                    self.client = await eventer.connect(
                        tcp.Address('127.0.0.1', port(self.id)), 'c')
                events = await self.client.register(
                    [common.RegisterEvent(('x', str(i)), None, None)
                     for i in range(count)], with_response=True)
            except (ConnectionError, eventer.EventerInitError):
                return
            if events and not self.crashed:
                self.acked.extend(events)

        async def read(self):
            """Content of closed database"""
            backend = await aio.call(lmdb.info.create, self.conf(), None,
                                     None)
            result = {}
            for i in self.world.servers:
                found = await backend.query(common.QueryServerParams(i))
                result[i] = list(found.events)
            await backend.async_close()
            return result

    class World:

        def __init__(self, ctx, path):
            self.ctx = ctx
            self.p = ctx.params
            self.path = path
            self.errors = []
            self.blessed = {}
            self.linked = ()    # servers with synchronized histories
            self.servers = {i + 1: Server(self, i + 1)
                            for i in range(self.p.get('servers', 2))}

        async def start(self):
            blessing._next_tokens = itertools.count(1)
            self.monitor = await hat.monitor.observer.server.listen(
                MONITOR, close_timeout=1,
                state_cb=lambda _, __: self.update())

        async def update(self):
            infos = [i._replace(mid=1)
                     for i in self.monitor.state.local_components]
            reqs = {cid: req for _, cid, req in blessing.calculate(
                infos, {}, BLESS_ONE)}
            # component (of hat-monitor) never releases token if it is revoked
            # while being accepted - such revoking is delayed
            loop = asyncio.get_running_loop()
            for i in infos:
                if i.blessing_req.token is None or not i.blessing_res.ready:
                    self.blessed.pop(i.cid, None)
                    continue
                since = self.blessed.setdefault(i.cid, loop.time())
                if i.cid in reqs and loop.time() < since + 1:
                    reqs = {}
                    self.ctx.spawn(self.later())
                    break
            await self.monitor.update(1, [
                i._replace(blessing_req=reqs.get(i.cid, i.blessing_req))
                for i in infos])

        async def later(self):
            await asyncio.sleep(1)
            await self.update()

        async def rank(self, i, rank):
            for info in self.monitor.state.local_components:
                if info.name == f'es{i}':
                    await self.monitor.set_rank(info.cid, rank)

        def error(self, message):
            self.errors.append(message)
            return Violation(message)

        async def on_engine(self, server, module):
            if not self.p.get('split'):
                others = [i for i in self.servers.values() if i is not server
                          if any(not j.is_closed for j in i.modules)]
                if others:
                    raise self.error(f'engine of {server.name} is started '
                                     f'while engine of {others[0].name} is '
                                     f'running')
            if any(not i.is_closed for i in server.modules
                   if i is not module):
                raise self.error(f'second engine of {server.name}')
            for i, other in self.servers.items():
                if other is server or not (
                        self.p.get('complete') or
                        i in self.linked and server.id in self.linked):
                    continue
                result = await module.engine.query(
                    common.QueryServerParams(i))
                ids = {e.id: e for e in result.events}
                for e in other.acked:
                    if ids.get(e.id) != e:
                        raise self.error(
                            f'engine of {server.name} is started without '
                            f'{lib.fmt([e])}')
                engine = states(result.events, i)
                if engine and engine[-1] != 'STOPPED':
                    raise self.error(
                        f'engine of {server.name} is started with {engine} '
                        f'of {other.name}')

        async def op(self, op):
            name, *args = op
            if name == 'wait':
                await asyncio.sleep(args[0])
                return
            if name == 'rank':
                await self.rank(*args)
                return
            server = self.servers[args[0]]
            if name in ('crash', 'drop'):
                self.linked = ()
            if name == 'start':
                if not server.running:
                    await server.start()
            elif name == 'reg':
                await server.register(args[1])
            elif name == 'drop':
                server.drop()
            elif name in ('reset', 'restart'):
                if server.module:
                    engine = server.module.engine
                    if name == 'reset':
                        engine.reset_monitor_ready()
                    else:
                        engine.restart()
            elif server.running:
                await getattr(server, name)()

        async def settle(self):
            for _ in range(3):
                await self.ctx.quiesce()
                await asyncio.sleep(DELAY)
            await self.ctx.quiesce()

        async def verify(self):
            """State in which nothing changes"""
            if self.errors:
                raise Violation(self.errors[0])
            running = [i for i in self.servers.values() if i.running]
            active = [i for i in running if i.module]
            if len(active) != bool(running):
                raise Violation(f'engines of {[i.name for i in active]} are '
                                f'running on servers '
                                f'{[i.name for i in running]}')
            for server in running:
                client = await eventer.connect(
                    tcp.Address('127.0.0.1', port(server.id)), 'v')
                status = client.status
                await client.async_close()
                if status != (common.Status.OPERATIONAL if server in active
                              else common.Status.STANDBY):
                    raise Violation(f'{server.name} is {status.name}')
            ready = [i.name for i in self.monitor.state.local_components
                     if not i.blessing_res.ready]
            if ready:
                raise Violation(f'{ready} not ready')
            return active[0] if active else None

    async def harness(ctx):
        scratch = env.Scratch()
        path = scratch.__enter__()
        ctx.cleanup = lambda: scratch.__exit__(None, None, None)
        p = ctx.params
        world = World(ctx, path)
        await world.start()
        for i in p.get('started', world.servers):
            await world.servers[i].start()
            if p.get('settled', True):
                await ctx.quiesce()
        if p.get('settled', True):
            await world.settle()
            await world.verify()

        async def actor(n, ops):
            for i, op in enumerate(ops):
                if p.get('stepwise'):
                    world.linked = {j for j, server in world.servers.items()
                                    if server.running}
                await ctx.point(f'x{n}.{i}')
                await world.op(op)
                if p.get('stepwise'):
                    await world.settle()
                    await world.verify()

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await world.settle()
        active = await world.verify()
        # active server is followed by others
        order = []
        while active is not None:
            await active.register(2)
            order.append(active)
            await active.stop()
            await world.settle()
            active = await world.verify()
        for server in world.servers.values():
            if server.client:
                await server.client.async_close()
        await world.monitor.async_close()
        await ctx.quiesce()

        found = {}
        for i, server in world.servers.items():
            if server.path.exists():
                found[i] = await server.read()
        for i, content in found.items():
            server = world.servers[i]
            own = content[i]
            ids = {e.id: e for e in own}
            for e in server.acked:
                if ids.get(e.id) != e:
                    raise Violation(f'{server.name}: acknowledged '
                                    f'{lib.fmt([e])} is lost')
            engine = states(own, i)
            if not server.crashed and \
                    engine != ['STARTED', 'STOPPED'] * (len(engine) // 2):
                raise Violation(f'{server.name}: engine events {engine}')
            for j in found:
                copy = found[j][i]
                if copy != own[:len(copy)]:
                    raise Violation(f'history of {server.name} '
                                    f'{lib.fmt(own)} is {lib.fmt(copy)} on '
                                    f'server {j}')
        for i, server in enumerate(order):
            for later in order[i + 1:]:
                if found[later.id][server.id] != found[server.id][server.id]:
                    raise Violation(f'{later.name} does not have complete '
                                    f'history of {server.name}')
        ctx.log(tuple(sorted((i, j, len(c)) for i, f in found.items()
                             for j, c in f.items())))

    scenarios = []

    def add(name, actors, inject=('x', 'z', 's'), bound=None, options=None,
            **params):
        scenario = (name, harness, {'actors': actors, **params},
                    Options(inject=inject, **(options or {})))
        scenarios.append(scenario if bound is None else (*scenario, bound))

    def complete(name, actors, **kwargs):
        add(name, actors, complete=True, **kwargs)

    R1, R2 = ('reg', 1, 2), ('reg', 2, 2)
    complete('nothing', [])
    complete('stop', [[R1, ('stop', 1), R2]])
    complete('kill', [[R1, ('kill', 1), R2]])
    complete('reset', [[R1, ('reset', 1), R1, R2]])
    complete('restart', [[R1, ('restart', 1), R1]])
    complete('rank', [[R1, ('rank', 2, 0), R2, ('rank', 1, 0), R1]])
    complete('stop start', [[R1, ('stop', 1), ('wait', 1), R2, ('start', 1),
                             ('wait', 30), ('stop', 2), R1]])
    add('crash', [[R1, ('crash', 1), R2, ('start', 1), ('wait', 30), R1,
                   ('stop', 2)]], split=True, flush_period=3)
    add('drop', [[R1, ('drop', 1), R1, ('rank', 2, 0), R2]])
    add('start', [[R1, R2]], settled=False)

    check.explore(scenarios, bound=1, time_limit=60)

    # sequences of operations in default schedule

    from mc.explore import execute

    def run_sequence(case):
        stepwise, servers, params, ops = case
        names = {i[0] for i in ops}
        result = execute(harness, {
            'actors': [ops], 'stepwise': stepwise, 'servers': servers,
            'split': bool(names & {'drop', 'crash'} or
                          'start' in names and not stepwise),
            **dict(params)}, Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return len(ops), result.events, 1, result.outcome

    def alphabet(servers, depth):
        for i in range(1, servers + 1):
            for name in ('stop', 'start', 'kill', 'reset', 'restart',
                         'crash', 'drop'):
                yield name, i
            yield 'reg', i, 2
            yield 'rank', i, 0
            if depth < 3:
                yield 'rank', i, 2

    def sequences():
        more = check.thorough
        for stepwise in (True, False):
            for servers, depth in ((2, 3 + more), (3, 2)):
                for n in range(1, depth + 1):
                    if n == 3 and stepwise and not more:
                        continue
                    for ops in itertools.product(alphabet(servers, n),
                                                 repeat=n):
                        for params in (
                                (), (('flush_period', 3),),
                                (('token', 't'),))[
                                    :3 if n < servers or more else 1]:
                            yield stepwise, servers, params, ops

    check.enumerate('sequences', list(sequences()), run_sequence,
                    time_limit=1200 if check.thorough else 110)
    check.assumptions = [
        'monitor server blesses one server of the group (algorithm of '
        'hat-monitor, which does not revoke blessing while it is accepted)',
        'asyncio FIFO ready queue']
