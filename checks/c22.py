"""C22: component following active event server"""

import asyncio
import itertools

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from checks import env
    import hat.event.component
    import hat.monitor.common
    import hat.monitor.observer.server

    monitor_addr = tcp.Address('127.0.0.1', 23010)
    DELAY = 0.5

    # event servers: (group, server id, port, token, req token, res token)
    SPECS = {
        'a': ('es', 1, 24001, None, 1, 1),
        'b': ('es', 2, 24002, 't', 0, 0),
        # same address, other identification
        'c': ('es', 3, 24001, 't', 3, 3),
        # same server with other token
        'd': ('es', 2, 24002, 'u', 2, 2),
        'group': ('x', 1, 24001, 't', 1, 1),
        'req': ('es', 1, 24001, 't', None, None),
        'res': ('es', 1, 24001, 't', 1, None),
        'old': ('es', 1, 24001, 't', 2, 1),
        'id': ('es', '1', 24001, 't', 1, 1),
        'port': ('es', 1, '24001', 't', 1, 1)}
    VALID = ('a', 'b', 'c', 'd')

    def server_info(name):
        group, server_id, port, token, req, res = SPECS[name]
        return hat.monitor.common.ComponentInfo(
            cid=1, mid=1 + list(SPECS).index(name), name='n', group=group,
            data={'server_id': server_id,
                  'eventer_server': {'host': '127.0.0.1', 'port': port},
                  'server_token': token},
            rank=1, blessing_req=hat.monitor.common.BlessingReq(req, None),
            blessing_res=hat.monitor.common.BlessingRes(res, True))

    def server_data(name):
        _, server_id, port, token, *_ = SPECS[name]
        return hat.event.component.ServerData(
            server_id=server_id, addr=tcp.Address('127.0.0.1', port),
            server_token=token)

    class Runner(aio.Resource):

        def __init__(self, world, data, client):
            self.world = world
            self.data = data
            self.client = client
            self._async_group = aio.Group()
            self.own_close = False
            if world.p.get('slow_close'):
                self._async_group.spawn(aio.call_on_cancel, self._on_close)

        @property
        def async_group(self):
            return self._async_group

        async def _on_close(self):
            self.world.closes += 1
            await self.world.ctx.point(f'z{self.world.closes}')

    class World:

        def __init__(self, ctx, p):
            self.ctx = ctx
            self.p = p
            self.names = tuple(p.get('names', ()))
            self.blessed = p.get('blessed', True)
            self.ready = True
            self.runners = []
            self.creating = 0
            self.creates = 0
            self.closes = 0
            self.servers = {}
            self.announced = set()
            self.errors = []
            self.gate = asyncio.Event()
            self.component = None
            self.may_close = False
            self.must_close = False
            self.disturbed = False
            self.monitor = None

        def error(self, message):
            self.errors.append(message)
            return Violation(message)

        @property
        def token(self):
            return self.p.get('token')

        @property
        def active(self):
            """Announced active server"""
            for name in self.names:
                if name in ('group', 'req', 'res', 'old'):
                    continue
                if name not in VALID or (
                        self.token and SPECS[name][3] != self.token):
                    return None
                return name

        def conns(self):
            return [i for i in self.ctx.net.conns
                    if i.server_addr[1] != 23010 and
                    not i.client.is_closing()]

        async def start(self):
            self.monitor = await hat.monitor.observer.server.listen(
                monitor_addr, close_timeout=1,
                state_cb=lambda _, __: self.update())
            for port in (24001, 24002):
                if port not in self.p.get('down', ()):
                    await self.listen(port)
            self.announced.add(self.active)
            kwargs = {'subscriptions': [('*',)]}
            if self.token:
                kwargs['client_token'] = self.token
            self.component = await hat.event.component.connect(
                monitor_addr, 'component', 'group', 'es', 'client',
                self.create, reconnect_delay=DELAY, eventer_kwargs=kwargs)
            await self.component.set_ready(True)

        async def listen(self, port):
            async def on_connected(info):
                ids = [SPECS[i][1] for i in self.announced
                       if i and SPECS[i][2] == port]
                if (info.client_name != 'client' or
                        info.client_token != self.token or
                        info.server_id not in ids):
                    raise self.error(f'connected as {info} to {port}')
                open_conns = self.conns()
                if len(open_conns) > 1:
                    raise self.error(f'{len(open_conns)} connections')

            self.servers[port] = await eventer.listen(
                tcp.Address('127.0.0.1', port),
                status=common.Status.OPERATIONAL, connected_cb=on_connected)

        async def update(self):
            req = hat.monitor.common.BlessingReq(
                7 if self.blessed else None, None)
            infos = [i._replace(blessing_req=req)
                     for i in self.monitor.state.local_components]
            infos.extend(server_info(name) for name in self.names)
            await self.monitor.update(1, infos)

        async def create(self, component, data, client):
            if component is not self.component:
                raise self.error('unexpected component')
            names = [i for i in self.announced
                     if i and server_data(i) == data]
            if not names:
                raise self.error(f'runner created for {data}')
            if any(not i.is_closed for i in self.runners) or self.creating:
                raise self.error('more than one runner')
            if any(i.client is client for i in self.runners):
                raise self.error('client used by previous runner')
            self.creates += 1
            n = self.creates
            runner = Runner(self, data, client)
            self.creating += 1
            try:
                if n == 1 and self.p.get('gate'):
                    await self.gate.wait()
                    await self.ctx.point('r0')
                if self.p.get('slow_create'):
                    await self.ctx.point(f'r{n}')
                for _ in range(self.p.get('query', 0)):
                    await client.query(common.QueryLatestParams())
                if n in self.p.get('create_fails', ()):
                    self.may_close = True
                    raise Exception('create failed')
            except BaseException:
                runner.close()
                raise
            finally:
                self.creating -= 1
            self.runners.append(runner)
            return runner

        async def op(self, op):
            target, what = op
            if target == 'active':
                self.disturbed = True
                self.names = (what,) if isinstance(what, str) else what
                self.announced.add(self.active)
                await self.update()
            elif target == 'bless':
                self.disturbed = True
                self.blessed = what
                await self.update()
            elif target == 'ready':
                self.disturbed = True
                self.ready = what
                try:
                    await self.component.set_ready(what)
                except ConnectionError:
                    if self.component.is_open and not self.may_close:
                        raise
            elif target == 'listen':
                if what not in self.servers:
                    await self.listen(what)
            elif target == 'close':
                self.disturbed = True
                if what in self.servers:
                    await self.servers.pop(what).async_close()
            elif target == 'reset':
                self.disturbed = True
                for conn in self.conns():
                    conn.reset()
            elif target == 'runner':
                for runner in self.runners:
                    if runner.is_open:
                        self.may_close = True
                        if runner.client.is_open:
                            self.must_close = True
                        runner.close()
            elif target == 'monitor':
                self.may_close = self.must_close = True
                for conn in self.ctx.net.conns:
                    if conn.server_addr[1] == 23010:
                        conn.reset()
            elif target == 'gate':
                self.gate.set()
            elif target == 'end':
                self.may_close = self.must_close = True
                self.component.close()

        def check(self):
            if self.errors:
                raise Violation(self.errors[0])
            component = self.component
            if not component.is_open:
                if not self.may_close:
                    raise Violation('component closed')
            elif self.must_close and not self.disturbed:
                raise Violation('component is not closed')
            active = self.active
            running = [i for i in self.runners if not i.is_closed]
            conns = self.conns()
            engaged = bool(component.is_open and self.ready and self.blessed
                           and active and
                           SPECS[active][2] in self.servers)
            if not engaged:
                if running:
                    raise Violation(f'runner is not closed, active {active}, '
                                    f'blessed {self.blessed}')
                if conns:
                    raise Violation(f'connection is not closed, active '
                                    f'{active}, blessed {self.blessed}')
                return
            if len(running) != 1:
                raise Violation(f'{len(running)} runners, active {active}')
            runner = running[0]
            if not runner.is_open or not runner.client.is_open:
                raise Violation('runner or its client is closed')
            if runner.data != server_data(active):
                raise Violation(f'runner of {runner.data}, active {active}')
            if len(conns) != 1 or conns[0].server_addr[1] != SPECS[
                    active][2]:
                raise Violation(f'connected to {conns[0].server_addr}, '
                                f'active {active}')

        def situation(self):
            running = [i for i in self.runners if i.is_open]
            return (self.active and server_data(self.active), self.blessed,
                    self.ready, tuple(sorted(self.servers)),
                    running[0] if running else None)

        async def settle(self):
            for _ in range(2):
                await self.ctx.quiesce()
                await asyncio.sleep(DELAY + 0.1)
            await self.ctx.quiesce()
            self.check()

        async def stop(self):
            await self.component.async_close()
            await self.ctx.quiesce()
            if self.errors:
                raise Violation(self.errors[0])
            if any(not i.is_closed for i in self.runners):
                raise Violation('component closed without closing of runner')
            if self.conns():
                raise Violation('component closed without closing of client')
            await self.monitor.async_close()
            for srv in self.servers.values():
                await srv.async_close()

    # sequences of operations with settled state after each one

    def sequence(case):
        token, slow, ops = case

        async def fn(ctx):
            world = World(ctx, {'token': token, 'names': ('a',)})
            await world.start()
            await world.settle()
            for op in ops:
                before = world.situation()
                await world.op(op)
                await world.settle()
                after = world.situation()
                if (op[0] in ('active', 'bless', 'ready', 'listen') and
                        before[:-1] == after[:-1] and
                        before[-1] is not after[-1]):
                    raise Violation(f'runner replaced after {op}')
            result = len(world.runners), world.component.is_open
            await world.stop()
            return result

        return len(ops) + 1, len(ops), 1, env.run(fn)

    alphabet = [
        ('active', ()), ('active', 'a'), ('active', 'b'), ('active', 'c'),
        ('active', 'd'), ('active', ('group', 'req', 'b')),
        ('active', ('res', 'old', 'a')), ('active', 'res'),
        ('active', 'old'), ('active', 'id'), ('active', 'port'),
        ('active', ('b', 'a')), ('active', ('a', 'b')),
        ('active', ('a', 'group')),
        ('bless', False), ('bless', True), ('ready', False), ('ready', True),
        ('reset', None), ('close', 24001), ('listen', 24001),
        ('close', 24002), ('runner', None), ('monitor', None)]
    depth = 3 if check.thorough else 2
    check.enumerate('sequences', [
        (token, False, ops) for n in range(depth + 1)
        for token in (None, 't')
        for ops in itertools.product(alphabet, repeat=n)], sequence,
        time_limit=30)

    # long sequences

    lasting = [i for i in alphabet if i[0] not in ('runner', 'monitor')]
    check.enumerate('long sequences', [
        ('t' if i % 2 else None, False,
         (('active', 'a'), ('ready', True), *(a, b) * count))
        for i, (a, b) in enumerate(itertools.permutations(lasting, 2))
        for count in (8, *((50,) if i % 30 == 0 else ()))], sequence,
        time_limit=60)

    async def harness(ctx):
        p = ctx.params
        world = World(ctx, p)
        await world.start()
        if p.get('settled', True):
            await ctx.quiesce()

        async def actor(i, ops):
            for j, op in enumerate(ops):
                await ctx.point(f'{"abc"[i]}{j}')
                await world.op(op)

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await world.settle()
        ctx.log(len(world.runners), world.creates, world.component.is_open)
        await world.stop()

    scenarios = []

    def add(name, params, inject=('a', 'b', 'r'), bound=None, **options):
        for slow in ('', 'create', 'close'):
            p = {**params}
            if slow:
                p[f'slow_{slow}'] = True
            scenario = (f'{name}{" slow " if slow else ""}{slow}', harness, p,
                        Options(inject=inject, **options))
            scenarios.append(scenario if bound is None else
                             (*scenario, bound))

    A, B, N = ('active', 'a'), ('active', 'b'), ('active', ())
    R = ('reset', None)
    add('start', {'names': ['a'], 'settled': False, 'actors': []})
    for n in (1, 2):
        add(f'query {n}', {'names': ['a'], 'settled': False, 'query': n,
                           'actors': [[R], [B]]})
    add('switch', {'names': ['a'], 'actors': [[B, A]]})
    add('start switch', {'names': ['a'], 'settled': False,
                         'actors': [[B], [N]]})
    add('switch twice', {'actors': [[A, B], [('active', 'c')]]})
    add('reset', {'names': ['a'], 'actors': [[R], [R]]})
    add('start reset', {'names': ['a'], 'settled': False,
                        'actors': [[R, R]]})
    add('reset switch', {'names': ['a'], 'actors': [[R], [B]]})
    add('lost', {'names': ['a'], 'actors': [[B, A], [('close', 24001),
                                                     ('listen', 24001)]]})
    add('down', {'names': ['a'], 'down': [24001],
                 'actors': [[('listen', 24001)], [B]]})
    add('bless', {'names': ['a'], 'actors': [
        [('bless', False), ('bless', True)], [B]]})
    add('bless reset', {'names': ['b'], 'token': 't', 'actors': [
        [('bless', False), ('bless', True)], [R]]})
    add('ready', {'names': ['a'], 'actors': [
        [('ready', False), ('ready', True)], [R]]})
    add('runner', {'names': ['a'], 'actors': [[('runner', None)]]})
    add('runner reset', {'names': ['a'], 'actors': [[('runner', None)],
                                                    [R]]})
    add('runner switch', {'names': ['a'], 'actors': [[('runner', None)],
                                                     [B]]})
    add('end', {'names': ['a'], 'settled': False, 'actors': [
        [('end', None)], [B]]})
    add('monitor', {'names': ['a'], 'actors': [[('monitor', None)], [R]]})
    add('create fails', {'names': ['a'], 'create_fails': [1, 2],
                         'settled': False, 'actors': [[R], [B]]})
    add('early timers', {'names': ['a'], 'actors': [[R, B]]},
        early_timers=2)

    # creation of runner which ends while it is being canceled
    for name, op in (('switch', B), ('none', N), ('reset', R),
                     ('end', ('end', None)), ('bless', ('bless', False))):
        scenarios.append((f'creating {name}', harness, {
            'names': ['a'], 'gate': True,
            'actors': [[op, ('gate', None)]]},
            Options(inject=('a', 'r'), inject_cost=1)))

    check.explore(scenarios, bound=2, time_limit=45)
    check.assumptions = [
        'monitor server announces states in order (hat-monitor)']
