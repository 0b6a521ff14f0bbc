"""C36: client component passes on what its connections report"""

import asyncio
import itertools

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from checks import env
    from checks import lmdblib as lib
    from checks import ref
    import hat.event.component
    import hat.monitor.common
    import hat.monitor.observer.server

    MONITOR = tcp.Address('127.0.0.1', 23010)
    DELAY = 0.5
    PORTS = {'a': 24001, 'b': 24002}
    IDS = {'a': 1, 'b': 2}
    Status = common.Status

    class World:

        def __init__(self, ctx):
            self.ctx = ctx
            self.p = ctx.params
            self.loop = asyncio.get_running_loop()
            self.active = self.p.get('active', 'a')
            self.tag = 0
            self.blessed = True
            self.servers = {}
            self.infos = {}         # server: connected infos
            self.status = {}
            self.sent = {i: [] for i in PORTS}
            self.component = None
            self.errors = []
            self.states = []
            self.state_busy = False
            self.close_reqs = 0
            self.runners = []
            self.clients = []       # in order of first appearance
            self.of = {}            # client: server
            self.statuses = {}      # client: statuses
            self.events = {}        # client: events
            self.busy = {}          # client: callback in progress
            self.counter = itertools.count(1)
            self.steps = itertools.count(1)
            self.ready = True
            self.closed = False
            self.graceful = False

        def error(self, message):
            self.errors.append(message)
            return Violation(message)

        async def listen(self, name):
            self.infos[name] = []

            def on_connected(info):
                self.infos[name].append(info)

            self.status[name] = Status.OPERATIONAL
            self.servers[name] = await eventer.listen(
                tcp.Address('127.0.0.1', PORTS[name]),
                status=Status.OPERATIONAL, connected_cb=on_connected)

        def callback(self, name, fn):
            """Callback in style of scenario"""
            style = self.p.get('style', 'sync')
            if name in self.p.get('without', ()):
                return None

            def sync(component, *args):
                if component is not self.component:
                    if self.component is not None:
                        self.error('other component')
                    elif name != 'state':
                        self.error('component is not created')
                fn(*args)

            async def coro(component, *args):
                key = name, *args[:-1]
                if self.busy.get(key):
                    self.error(f'concurrent {name} callbacks')
                self.busy[key] = True
                sync(component, *args)
                try:
                    await self.ctx.point(f'k{next(self.steps)}')
                finally:
                    self.busy[key] = False

            return coro if style == 'async' else sync

        def on_state(self, state):
            self.states.append(state)

        def on_close_req(self):
            self.close_reqs += 1

        def known(self, client):
            if client not in self.clients:
                self.clients.append(client)
                self.statuses[client] = []
                self.events[client] = []

        def on_status(self, client, status):
            self.known(client)
            self.statuses[client].append(status)
            if client.status != status:
                self.error(f'status {status}, client has {client.status}')

        def on_events(self, client, events):
            self.known(client)
            if not events:
                self.error('no events')
            self.events[client].append(list(events))

        async def start(self):
            p = self.p
            self.monitor = await hat.monitor.observer.server.listen(
                MONITOR, close_timeout=1,
                state_cb=lambda _, __: self.update())
            for name in PORTS:
                await self.listen(name)

            async def create(component, data, client):
                self.known(client)
                name = {v: k for k, v in IDS.items()}[data.server_id]
                if self.of.setdefault(client, name) != name:
                    self.error('client of other server')
                runner = aio.Group()
                self.runners.append((runner, client, name))
                return runner

            self.component = await hat.event.component.connect(
                MONITOR, 'component', 'group', 'es', 'client', create,
                state_cb=self.callback('state', self.on_state),
                close_req_cb=self.callback('close', self.on_close_req),
                status_cb=self.callback('status', self.on_status),
                events_cb=self.callback('events', self.on_events),
                reconnect_delay=DELAY,
                eventer_kwargs=dict(p.get('kwargs', {})),
                observer_kwargs=dict(p.get('observer_kwargs', {})))
            if self.component.ready:
                raise Violation('component is ready')
            await self.component.set_ready(True)

        def global_components(self):
            req = hat.monitor.common.BlessingReq(
                7 if self.blessed else None, None)
            infos = [i._replace(blessing_req=req, mid=1)
                     for i in self.monitor.state.local_components]
            for i, name in enumerate(PORTS):
                token = 1 if name == self.active else None
                infos.append(hat.monitor.common.ComponentInfo(
                    cid=1, mid=2 + i, name=name, group='es',
                    data={'server_id': IDS[name],
                          'eventer_server': {'host': '127.0.0.1',
                                             'port': PORTS[name]},
                          'server_token': self.p.get('kwargs', {}).get(
                              'client_token'), 'tag': self.tag},
                    rank=1, blessing_req=hat.monitor.common.BlessingReq(
                        token, None),
                    blessing_res=hat.monitor.common.BlessingRes(token,
                                                                True)))
            return infos

        async def update(self):
            if self.monitor.is_closing:
                return
            await self.monitor.update(1, self.global_components())

        def group(self, name, count):
            """Events of one session"""
            server = self.p.get('event_server', {}).get(name, IDS[name])
            session = next(self.counter)
            return [common.Event(
                common.EventId(server, session, i + 1),
                ('xy'[i % 2], str(i)), lib.ts(session), None,
                None) for i in range(count)]

        async def op(self, op):
            name, *args = op
            if name == 'active':
                self.active = args[0]
                await self.update()
            elif name == 'tag':
                self.tag += 1
                await self.update()
            elif name == 'bless':
                self.blessed = args[0]
                await self.update()
            elif name == 'ready':
                self.ready = args[0]
                await self.component.set_ready(args[0])
                if self.component.ready != args[0]:
                    raise Violation('ready is not set')
            elif name == 'status':
                self.status[args[0]] = args[1]
                await self.servers[args[0]].set_status(args[1])
            elif name == 'notify':
                server, count, persisted = args
                events = self.group(server, count)
                self.sent[server].append((events, persisted))
                await self.servers[server].notify_events(events, persisted)
            elif name == 'reset':
                for conn in self.ctx.net.conns:
                    if conn.is_open and conn.server_addr[1] != MONITOR.port:
                        conn.reset()
            elif name == 'monitor':
                self.closed = self.graceful = True
                await self.monitor.async_close()
            elif name == 'lost':
                self.closed = True
                for conn in self.ctx.net.conns:
                    if conn.server_addr[1] == MONITOR.port:
                        conn.reset()

        def expected(self, name):
            """Groups which are notified to client of server"""
            kwargs = self.p.get('kwargs', {})
            result = []
            for events, persisted in self.sent[name]:
                if persisted != kwargs.get('persisted', False):
                    continue
                server = kwargs.get('server_id', IDS[name])
                events = [e for e in events
                          if (server is None or e.id.server == server) and
                          any(ref.matches(e.type, i) for i in
                              kwargs.get('subscriptions', ()))]
                if events:
                    result.append(events)
            return result

        def check(self):
            """Nothing is pending"""
            if self.errors:
                raise Violation(self.errors[0])
            if self.component.is_open == self.closed:
                raise Violation('component is closed' if not self.closed
                                else 'component is open')
            without = self.p.get('without', ())
            if self.close_reqs != self.graceful and 'close' not in without:
                raise Violation(f'{self.close_reqs} close requests')
            if not self.closed:
                state = self.component.state
                if state.components != \
                        self.monitor.state.global_components:
                    raise Violation(f'state {state}')
                if state.info is None or state.info.name != 'component':
                    raise Violation(f'info {state.info}')
                if 'state' not in without and (
                        not self.states or self.states[-1] != state):
                    raise Violation(f'last reported state {self.states[-1:]} '
                                    f'is not {state}')
                if self.component.ready != self.ready:
                    raise Violation(f'component ready is '
                                    f'{self.component.ready}')
                if state.info.blessing_res.ready != self.ready:
                    raise Violation('announced ready')
            if any(i == j for i, j in zip(self.states, self.states[1:])):
                raise Violation('state reported again')
            running = [i for i in self.runners if i[0].is_open]
            if len(running) != (not self.closed and self.ready and
                                self.blessed and self.active is not None):
                raise Violation(f'{len(running)} runners')
            for client in self.clients:
                name = self.of.get(client)
                if name is None:
                    if client.is_open:
                        raise Violation('client without runner')
                    continue
                expected = self.expected(name)
                if 'events' not in without:
                    self.check_groups(client, name, expected)
            for runner, client, name in running:
                if client.status != self.status[name]:
                    raise Violation(f'status {client.status}, server has '
                                    f'{self.status[name]}')
                statuses = self.statuses[client]
                if 'status' not in without and statuses and \
                        statuses[-1] != client.status:
                    raise Violation(f'reported statuses {statuses}')

        def check_groups(self, client, name, expected):
            events = self.events[client]
            if not events:
                return
            if events[0] not in expected:
                raise Violation(f'reported {lib.fmt(events[0])}')
            i = expected.index(events[0])
            if events != expected[i:i + len(events)]:
                raise Violation(f'reported {events}, notified {expected[i:]}')
            if client.is_open and i + len(events) != len(expected):
                raise Violation(f'{expected[i + len(events):]} not reported')

        async def settle(self):
            for _ in range(2):
                await self.ctx.quiesce()
                await asyncio.sleep(DELAY + 0.1)
            await self.ctx.quiesce()

        async def stop(self):
            await self.component.async_close()
            await self.ctx.quiesce()
            if self.errors:
                raise Violation(self.errors[0])
            kwargs = self.p.get('kwargs', {})
            for name, infos in self.infos.items():
                for info in infos:
                    subscription = info.subscription
                    for type in (('x', '0'), ('y', '1'), ('z',)):
                        if subscription.matches(type) != any(
                                ref.matches(type, i) for i in
                                kwargs.get('subscriptions', ())):
                            raise Violation(f'subscription {info}')
                    if (info.client_name, info.client_token, info.server_id,
                            info.persisted) != (
                                'client', kwargs.get('client_token'),
                                kwargs.get('server_id', IDS[name]),
                                kwargs.get('persisted', False)):
                        raise Violation(f'connected as {info}')
            await self.monitor.async_close()
            for srv in self.servers.values():
                await srv.async_close()

    async def harness(ctx):
        p = ctx.params
        world = World(ctx)
        await world.start()
        if p.get('settled', True):
            await world.settle()
            world.check()

        async def actor(n, ops):
            for i, op in enumerate(ops):
                await ctx.point(f'x{n}.{i}')
                if world.component.is_closed:
                    return
                await step(op)

        async def step(op):
            if not p.get('stepwise'):
                await world.op(op)
                return
            running = {client: name for runner, client, name in world.runners
                       if runner.is_open}
            before = {client: (len(world.events[client]),
                               len(world.statuses[client]))
                      for client in running}
            status = dict(world.status)
            states = len(world.states)
            await world.op(op)
            await world.settle()
            world.check()
            if op[0] in ('tag', 'status', 'notify') and any(
                    not client.is_open for client in running):
                raise Violation(f'connection is closed after {op}')
            without = p.get('without', ())
            for client, (events, statuses) in before.items():
                name = running[client]
                got = world.events[client][events:]
                expected = []
                if op[0] == 'notify' and op[1] == name:
                    expected = [i for i in world.expected(name)[-1:]
                                if set(i) <= set(world.sent[name][-1][0])]
                if got != expected and 'events' not in without:
                    raise Violation(f'{op} reported {got}')
                got = world.statuses[client][statuses:]
                expected = ([op[2]] if op[0] == 'status' and op[1] == name
                            and op[2] != status[name] else [])
                if got != expected and 'status' not in without:
                    raise Violation(f'{op} reported {got}')
            if op[0] == 'tag' and 'state' not in without and \
                    len(world.states) != states + 1:
                raise Violation(f'{len(world.states) - states} states '
                                f'reported')

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await world.settle()
        world.check()
        if not world.closed:
            for op in (('tag',), ('status', 'a', Status.STANDBY),
                       ('status', 'b', Status.STOPPING),
                       ('notify', 'a', 2, False), ('notify', 'b', 2, False)):
                await world.op(op)
                await world.settle()
                world.check()
        ctx.log(tuple((len(world.events[i]), len(world.statuses[i]))
                      for i in world.clients), world.close_reqs)
        await world.stop()

    # sequences

    ALL = (('subscriptions', (('*',),)),)
    KWARGS = (
        ALL, (), (('subscriptions', (('x', '*'),)),),
        (*ALL, ('persisted', True)), (*ALL, ('server_id', None)),
        (*ALL, ('server_id', 2)), (*ALL, ('server_id', 0)),
        (*ALL, ('client_token', 't')))

    from mc.explore import execute

    def sequence(case):
        style, without, kwargs, ops = case
        result = execute(harness, {
            'actors': [ops], 'stepwise': True, 'style': style,
            'without': without, 'kwargs': dict(kwargs)},
            Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return len(ops), result.events, 1, result.outcome

    alphabet = [
        ('active', None), ('active', 'a'), ('active', 'b'), ('tag',),
        ('bless', False), ('bless', True), ('ready', False), ('ready', True),
        ('status', 'a', Status.STANDBY), ('status', 'a', Status.OPERATIONAL),
        ('status', 'b', Status.STARTING),
        ('notify', 'a', 3, False), ('notify', 'a', 2, True),
        ('notify', 'b', 2, False), ('reset',), ('monitor',), ('lost',)]

    def sequences():
        depth = 3 + check.thorough
        for n in range(depth + 1):
            for ops in itertools.product(alphabet, repeat=n):
                if {('monitor',), ('lost',)} & set(ops[:-1]):
                    continue
                for kwargs in KWARGS if n < 3 or check.thorough else (ALL,):
                    yield 'sync', (), kwargs, ops
                if n < 3:
                    yield 'async', (), ALL, ops
                    for i in ('state', 'close', 'status', 'events'):
                        yield 'sync', (i,), ALL, ops

    check.enumerate('sequences', list(sequences()), sequence, time_limit=60)

    # races

    scenarios = []

    def add(name, actors, **params):
        for style in ('sync', 'async'):
            scenarios.append((f'{name} {style}', harness, {
                'actors': actors, 'style': style, 'kwargs': dict(ALL),
                **params}, Options(inject=('x', 'k'))))

    NA, NB = ('notify', 'a', 2, False), ('notify', 'b', 2, False)
    SA, SB = (('status', 'a', Status.STANDBY),
              ('status', 'a', Status.OPERATIONAL))
    A, B, R = ('active', 'a'), ('active', 'b'), ('reset',)
    add('start', [[NA, NA], [SA, SB]], settled=False)
    add('notify', [[NA, NA], [SA, SB]])
    add('switch', [[NA, NB, NA], [B, A]])
    add('switch status', [[SA, NA, SB], [B, A]])
    add('reset', [[NA, SA, NA], [R]])
    add('tags', [[('tag',), ('tag',), ('tag',)], [NA]])
    add('bless', [[('bless', False), ('bless', True)], [NA, SA]])
    add('ready', [[('ready', False), ('ready', True)], [NA, SA]])
    add('monitor', [[('monitor',)], [NA, SA]])
    add('lost', [[('lost',)], [NA, SA]])
    check.explore(scenarios, bound=1, time_limit=30)
    check.assumptions = [
        'monitor server announces states in order (hat-monitor)']
