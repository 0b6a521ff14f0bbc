"""C21: engagement of redundant servers"""

import asyncio
import itertools

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat import util
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.engine_runner import EngineRunner
    from hat.event.server.eventer_client_runner import EventerClientRunner
    from checks import enginelib
    from checks import env
    import hat.monitor.component
    import hat.monitor.common

    S = common.Status
    ACTIVE = (S.STARTING, S.OPERATIONAL, S.STOPPING)
    DELAY = 5

    # announced components: (group, server id, port, token, own, valid when
    # token is not configured, valid when configured token is 't')
    SPECS = {
        'a': ('g', 2, 24001, None, False, True, False),
        'b': ('g', 3, 24002, 't', False, True, True),
        'group': ('x', 4, 24003, 't', False, False, False),
        'token': ('g', 5, 24004, 'u', False, True, False),
        'own': ('g', 1, 24005, 't', True, False, False),
        'id': ('g', '6', 24006, 't', False, False, False),
        'port': ('g', 7, None, 't', False, False, False),
        'none': ('g', None, 24008, 't', False, False, False),
        # other server at the same address
        'c': ('g', 8, 24002, 't', False, True, True)}

    # component and monitor server ids (component ids are unique only within
    # single monitor server)
    IDS = {'own': (1, 0), 'a': (1, 1), 'b': (2, 0), 'c': (1, 2),
           'group': (2, 1), 'token': (2, 2), 'id': (3, 0), 'port': (3, 1),
           'none': (3, 2)}

    def component_info(name):
        group, server_id, port, token, own, _, __ = SPECS[name]
        data = {'server_id': server_id,
                'eventer_server': {'host': '127.0.0.1', 'port': port},
                'server_token': token}
        if name == 'none':
            data = None
        return hat.monitor.common.ComponentInfo(
            cid=IDS[name][0], mid=IDS[name][1], name='n', group=group,
            data=data, rank=1,
            blessing_req=hat.monitor.common.BlessingReq(None, None),
            blessing_res=hat.monitor.common.BlessingRes(None, False))

    def monitor_state(names):
        names = sorted(names)
        return hat.monitor.component.State(
            info=component_info('own') if 'own' in names else None,
            components=[component_info(i) for i in names])

    class Peer:
        """Remote server with scripted status"""

        def __init__(self, world, name, status):
            self.world = world
            self.name = name
            self.status = status
            _, self.server_id, self.port, *_ = SPECS[name]
            self.server_ids = {i[1] for n, i in SPECS.items()
                               if i[2] == self.port}
            self.srv = None

        @property
        def conns(self):
            """Connections which client considers open"""
            return [i for i in self.world.ctx.net.conns
                    if i.server_addr[1] == self.port and
                    not i.client.is_closing()]

        async def listen(self):
            self.srv = await eventer.listen(
                tcp.Address('127.0.0.1', self.port), status=self.status,
                connected_cb=self.on_connected,
                register_cb=lambda info, events: None,
                query_cb=lambda info, params: common.QueryResult([], False))

        async def on_connected(self, info):
            world = self.world
            if (info.client_name != 'event/n' or
                    info.client_token != world.token or
                    info.server_id not in self.server_ids or
                    not info.persisted or
                    not info.subscription.matches(('x', 'y'))):
                raise world.error(f'connected as {info}')
            names = [n for n, i in SPECS.items()
                     if i[1] == info.server_id and i[2] == self.port]
            if not any(n in world.announced for n in names):
                raise world.error(f'connected to {names}, announced '
                                f'{world.announced}')
            if len(self.conns) > len(self.server_ids):
                raise world.error(f'{len(self.conns)} connections to '
                                f'{self.name}')
            if world.slow_connected:
                world.connects += 1
                await world.ctx.point(f'k{world.connects}')

        async def op(self, op):
            if op == 'close':
                if self.srv:
                    await self.srv.async_close()
                    self.srv = None
            elif op == 'listen':
                if not self.srv:
                    await self.listen()
            elif op == 'reset':
                for conn in self.conns:
                    conn.reset()
            else:
                self.status = op
                if self.srv:
                    await self.srv.set_status(op)

    class World:

        def __init__(self, ctx, p):
            self.ctx = ctx
            self.token = p.get('token')
            self.slow_connected = p.get('slow_connected')
            self.connects = 0
            self.errors = []
            self.announced = set()      # valid at some time
            self.valid = set()
            self.names = ()
            self.retired = {}
            self.peers = {name: Peer(self, name, status)
                          for name, status in p['peers'].items()}
            conf = {'monitor_component': {'group': 'g'}, 'name': 'n',
                    'server_id': 1}
            if self.token:
                conf['server_token'] = self.token
            self.backend = env.scripted_backend()
            self.runner = EventerClientRunner(
                conf, self.backend, lambda server_id, state, count: None,
                reconnect_delay=DELAY)
            self.last = self.runner.remote_active
            if self.last:
                raise Violation('initially active')
            self.runner.register_remote_active_cb(self.on_active)

        def error(self, message):
            """Violation in callback (exceptions of which are handled)"""
            self.errors.append(message)
            return Violation(message)

        def on_active(self, value):
            if value is self.last or value is not self.runner.remote_active:
                raise self.error(f'notified {value} after {self.last}')
            self.last = value

        async def start(self, down=()):
            for name, peer in self.peers.items():
                if name not in down:
                    await peer.listen()

        def announce(self, names):
            valid = {n for n in names
                     if SPECS[n][6 if self.token else 5]}
            for n in self.valid - valid:
                self.retired[n] = len(self.ctx.net.conns)
            for n in valid:
                self.retired.pop(n, None)
            self.valid = valid
            self.announced |= valid
            self.runner.set_monitor_state(monitor_state(names))

        async def op(self, op):
            target, what = op
            if target == 'monitor':
                self.announce(what)
            else:
                await self.peers[target].op(what)

        def check(self, delayed=False):
            if self.errors:
                raise Violation(self.errors[0])
            if not self.runner.is_open:
                raise Violation('client runner closed')
            active = False
            for peer in self.peers.values():
                conns = peer.conns
                valid = [n for n in self.valid if SPECS[n][2] == peer.port]
                if peer.srv and delayed and len(conns) < len(valid):
                    raise Violation(f'not connected to {peer.name}')
                if not peer.srv and conns:
                    raise Violation(f'connected to closed {peer.name}')
                if conns and peer.srv and peer.status in ACTIVE:
                    active = True
            if self.runner.remote_active is not active:
                raise Violation(f'remote active {self.runner.remote_active}, '
                                f'expected {active}')
            if self.last is not active:
                raise Violation(f'notified {self.last}, expected {active}')
            for name, n in self.retired.items():
                new = [i for i in self.ctx.net.conns[n:]
                       if i.server_addr[1] == SPECS[name][2]]
                same = [i for i in self.announced
                        if i != name and SPECS[i][2] == SPECS[name][2]]
                if len(new) > 1 and not same:
                    raise Violation(f'connecting to {name} which is not '
                                    f'announced')

        async def settle(self):
            await self.ctx.quiesce()
            self.check()
            await asyncio.sleep(DELAY + 1)
            await self.ctx.quiesce()
            self.check(True)

    async def clients(ctx):
        p = ctx.params
        world = World(ctx, p)
        await world.start(p.get('down', ()))
        if 'first' in p:
            world.announce(p['first'])

        async def actor(i, ops):
            for j, op in enumerate(ops):
                await ctx.point(f'{"abc"[i]}{j}')
                await world.op(op)

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await world.settle()
        ctx.log(world.last, len(ctx.net.conns))
        await world.runner.async_close()
        await ctx.quiesce()
        if any(peer.conns for peer in world.peers.values()):
            raise Violation('connection left open')
        for peer in world.peers.values():
            await peer.op('close')

    # sequences of operations with settled state after each one

    def sequence(case):
        token, ops = case

        async def fn(ctx):
            world = World(ctx, {'peers': {'a': S.STANDBY, 'b': S.OPERATIONAL,
                                          'token': S.STANDBY,
                                          'group': S.OPERATIONAL,
                                          'own': S.OPERATIONAL,
                                          'id': S.OPERATIONAL},
                                'token': token})
            await world.start()
            seen = []
            for op in ops:
                await world.op(op)
                await world.settle()
                seen.append((world.last, len(ctx.net.conns)))
            await world.runner.async_close()
            await ctx.quiesce()
            if any(peer.conns for peer in world.peers.values()):
                raise Violation('connection left open')
            for peer in world.peers.values():
                await peer.op('close')
            return seen

        seen = env.run(fn)
        return len(ops) + 1, len(ops), 1, seen[-1]

    alphabet = [
        ('monitor', ()), ('monitor', ('a', 'own')), ('monitor', ('a', 'b')),
        ('monitor', tuple(i for i in SPECS if i != 'c')),
        ('monitor', ('b', 'group', 'id')),
        ('a', S.STANDBY), ('a', S.STARTING), ('a', S.OPERATIONAL),
        ('a', S.STOPPING), ('b', S.STANDBY), ('b', S.STARTING),
        ('a', 'close'), ('a', 'listen'), ('b', 'reset'), ('b', 'close')]
    depth = 4 if check.thorough else 3
    check.enumerate('sequences', [
        (token, ops) for n in range(1, depth + 1)
        for token in (None, 't')
        for ops in itertools.product(alphabet, repeat=n)
        if ops[0][0] == 'monitor'], sequence, time_limit=30)

    # long sequences

    check.enumerate('long sequences', [
        ('t' if i % 2 else None, (alphabet[3], *(a, b) * count))
        for i, (a, b) in enumerate(itertools.permutations(alphabet, 2))
        for count in (12, *((60,) if i % 20 == 0 else ()))], sequence,
        time_limit=60)

    class ClientRunnerStub:

        def __init__(self, active):
            self.remote_active = active
            self._cbs = util.CallbackRegistry()

        def register_remote_active_cb(self, cb):
            return self._cbs.register(cb)

        def set(self, value):
            if value == self.remote_active:
                return
            self.remote_active = value
            self._cbs.notify(value)

    class ServerStub:
        """Checks order of statuses"""

        def __init__(self, ctx, p):
            self.ctx = ctx
            self.p = p
            self.status = S.STANDBY
            self.seen = []
            self.engines = []
            self.runner = None

        def get_client_names(self):
            return []

        async def set_status(self, status, engine):
            self.check(status, engine)
            self.status = status
            self.seen.append(status.name)
            if self.p.get('slow_status'):
                await self.ctx.point(f's{len(self.seen)}')

        def check(self, status, engine):
            closing = self.runner is not None and not self.runner.is_open
            allowed = {
                S.STANDBY: (S.STARTING,),
                S.STARTING: (S.OPERATIONAL,),
                S.OPERATIONAL: (S.STOPPING,),
                S.STOPPING: (S.STANDBY,)}[self.status]
            if closing:
                allowed = (S.STOPPING, *allowed)
            if status not in allowed:
                raise Violation(f'{status} after {self.seen}')
            if (engine is not None) != (status == S.OPERATIONAL):
                raise Violation(f'{status} with engine {engine}')
            if status == S.STARTING:
                if self.client_runner and self.client_runner.remote_active:
                    raise Violation('starting while remote server is active')
            if status in (S.STARTING, S.STANDBY):
                if any(not i.is_closed for i in self.engines):
                    raise Violation(f'{status} while engine is running')
                open_modules = [i for i in self.modules if not i.is_closed]
                if open_modules:
                    raise Violation(f'{status} with {len(open_modules)} of '
                                    f'{len(self.modules)} modules not closed')
            if status == S.STANDBY:
                if not self.p.get('flush_fails') and (
                        self.flushed != self.backend.events):
                    raise Violation('not flushed before STANDBY')
            if engine is not None:
                self.engines.append(engine)

    async def engine(ctx):
        p = ctx.params
        recorder = enginelib.Recorder()
        backend = env.scripted_backend()
        server = ServerStub(ctx, p)
        server.backend = backend
        server.flushed = []
        flush = backend.flush
        world = None

        async def on_flush():
            events = backend.events
            if p.get('slow_flush'):
                await ctx.point(f'f{backend.flushes}')
            if p.get('flush_fails'):
                raise Exception('flush failed')
            await flush()
            server.flushed = events

        backend.flush = on_flush
        created = [0]

        async def on_create(module):
            created[0] += 1
            n = created[0]
            if p.get('slow_create'):
                try:
                    await ctx.point(f'm{n}')
                except BaseException:
                    # canceled creator closes what it created
                    module.close()
                    raise
            if n in p.get('restart_in_create', ()):
                module.engine.restart()
            if n in p.get('create_fails', ()):
                # refused module is closed by its creator
                await module.async_close()
                raise Exception('create failed')

        confs, modules = enginelib.install(recorder, [
            enginelib.Behaviour([('*',)], {}, create=on_create)
            for _ in range(p.get('modules', 1))])
        server.modules = modules
        if p.get('real'):
            world = World(ctx, {'peers': p['real']})
            await world.start()
            world.announce(['a', 'b'])
            client_runner = world.runner
            if p.get('settled'):
                await ctx.quiesce()
        elif 'active' in p:
            client_runner = ClientRunnerStub(p['active'])
        else:
            client_runner = None
        server.client_runner = client_runner
        runner = EngineRunner({'server_id': 1, 'modules': confs}, backend,
                              server, client_runner, lambda: None)
        server.runner = runner
        restarted = []
        failed = []
        closed = []

        async def act(op):
            if op in (True, False):
                client_runner.set(op)
            elif op == 'blip':
                # both notified before anyone waiting continues
                client_runner.set(not client_runner.remote_active)
                client_runner.set(not client_runner.remote_active)
            elif op == 'close':
                closed.append(True)
                runner.close()
            elif op == 'restart':
                if modules and modules[-1].engine.is_open:
                    restarted.append(modules[-1].engine)
                    modules[-1].engine.restart()
            elif op == 'module':
                if modules and modules[-1].engine.is_open:
                    failed.append(modules[-1].engine)
                    modules[-1].close()
            elif op == 'register':
                if server.status == S.OPERATIONAL and \
                        server.engines[-1].is_open:
                    try:
                        await server.engines[-1].register(
                            common.Source(common.SourceType.EVENTER, 1),
                            [common.RegisterEvent(('x',), None, None)])
                    except Exception:
                        if server.engines[-1].is_open:
                            raise
            else:
                await world.op(op)

        async def actor(i, ops):
            for j, op in enumerate(ops):
                await ctx.point(f'{"abc"[i]}{j}')
                await act(op)

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await ctx.quiesce()
        if world:
            await world.settle()
        active = client_runner.remote_active if client_runner else False
        engine_failed = bool(p.get('create_fails') or p.get('flush_fails'))
        if closed:
            if not runner.is_closed:
                raise Violation('not closed')
        elif not runner.is_open:
            if not failed and not engine_failed:
                raise Violation('closed')
        else:
            for i in restarted:
                if i.is_open:
                    raise Violation('restart request is ignored')
            if any(i not in restarted for i in failed):
                raise Violation('open after engine is closed')
            if not active and server.status != S.OPERATIONAL:
                raise Violation(f'{server.status} while remote server is not '
                                f'active')
            if server.status not in (S.OPERATIONAL, S.STANDBY):
                raise Violation(f'{server.status} is final')
            if server.status == S.OPERATIONAL:
                if not server.engines[-1].is_open:
                    raise Violation('operational with closed engine')
        if not runner.is_open and server.status != S.STANDBY and \
                not p.get('flush_fails'):
            raise Violation(f'closed with {server.status}')
        await runner.async_close()
        if server.status != S.STANDBY and not p.get('flush_fails'):
            raise Violation(f'closed with {server.status}')
        events = [e.payload.data for e in backend.events
                  if e.type == ('event', '1', 'engine')]
        if events != ['STARTED', 'STOPPED'] * len(server.engines) and \
                not p.get('loose'):
            raise Violation(f'engine events {events} of '
                            f'{len(server.engines)} engines')
        ctx.log(tuple(server.seen), len(restarted), len(failed))
        if world:
            await world.runner.async_close()
            for peer in world.peers.values():
                await peer.op('close')

    scenarios = []

    def add(name, harness, params, inject=(), bound=None, **options):
        scenario = (name, harness, params, Options(inject=inject, **options))
        scenarios.append(scenario if bound is None else (*scenario, bound))

    O, I = S.OPERATIONAL, S.STANDBY
    both = ('monitor', ('a', 'b'))
    none = ('monitor', ())
    peers = {'a': I, 'b': I}
    add('statuses', clients, {
        'peers': peers, 'first': ['a', 'b'],
        'actors': [[('a', O), ('a', I)], [('b', S.STARTING), ('b', I)]]},
        inject=('a', 'b'))
    add('active', clients, {
        'peers': {'a': O, 'b': S.STOPPING},
        'actors': [[both, ('monitor', ('b',))], [('a', 'reset'),
                                                 ('b', 'reset')]]},
        inject=('a', 'b'))
    add('monitor', clients, {
        'peers': {'a': O},
        'actors': [[('monitor', ('a',)), none, ('monitor', ('a',))],
                   [('a', 'reset'), ('a', 'reset')]]}, inject=('a', 'b'))
    add('retired', clients, {
        'peers': {'a': O}, 'first': ['a'],
        'actors': [[none], [('a', 'reset'), ('a', I)]]}, inject=('a', 'b'))
    add('slow connected', clients, {
        'peers': {'a': O, 'b': I}, 'slow_connected': True,
        'actors': [[both, none, both], [('b', O), ('a', 'reset')]]})
    add('down', clients, {
        'peers': {'a': O, 'b': O}, 'down': ['a'],
        'actors': [[both, ('a', 'listen'), ('a', 'close'), ('a', 'listen')],
                   [('monitor', ('a',)), both]]})
    add('same address', clients, {
        'peers': {'b': O},
        'actors': [[('monitor', ('b',)), ('monitor', ('b', 'c'))],
                   [('b', 'reset')]]}, inject=('a', 'b'))
    add('token', clients, {
        'peers': {'a': O, 'b': I, 'token': O}, 'token': 't',
        'actors': [[('monitor', tuple(SPECS)), both],
                   [('b', 'reset'), ('b', O)]]})
    add('restarts', clients, {
        'peers': {'a': O}, 'first': ['a'],
        'actors': [[('a', 'close'), ('a', 'listen')], [none, both]]})

    for slow in ({}, {'slow_create': True, 'slow_status': True,
                      'slow_flush': True}):
        name = ' slow' if slow else ''
        inject = ('a', 'b')
        add(f'single{name}', engine, {
            **slow, 'actors': [['restart', 'restart'], ['register']]}, inject)
        add(f'single close{name}', engine, {
            **slow, 'actors': [['restart'], ['close']], 'modules': 2,
            'loose': True}, inject)
        add(f'module close{name}', engine, {
            **slow, 'actors': [['restart'], ['module']], 'loose': True},
            inject)
        add(f'module close other{name}', engine, {
            **slow, 'actors': [['module'], ['register', 'close']],
            'modules': 2, 'loose': True}, inject)
        for active in (False, True):
            add(f'remote {active}{name}', engine, {
                **slow, 'active': active,
                'actors': [[not active, active, not active], ['restart']]},
                inject)
            add(f'remote blip {active}{name}', engine, {
                **slow, 'active': active, 'loose': True,
                'actors': [['blip', not active, 'blip'], ['restart']]},
                inject)
            add(f'remote close {active}{name}', engine, {
                **slow, 'active': active, 'loose': True,
                'actors': [[not active, active], ['close']]}, inject)
        add(f'restart in create{name}', engine, {
            **slow, 'restart_in_create': [1, 3], 'actors': [['restart']]},
            inject)
        for fails in ([1], [2], [3]):
            add(f'create fails {fails[0]}{name}', engine, {
                **slow, 'create_fails': fails, 'modules': 2, 'loose': True,
                'actors': [['restart'], ['register']]}, inject)
        add(f'flush fails{name}', engine, {
            **slow, 'flush_fails': True, 'loose': True,
            'actors': [['restart'], ['register']]}, inject)
    add('real', engine, {
        'real': {'a': I, 'b': O}, 'settled': True,
        'actors': [[('b', I), ('b', O)], [('a', 'reset'), 'restart']]})
    add('real start', engine, {
        'real': {'a': I, 'b': I}, 'loose': True,
        'actors': [[('a', S.STARTING), ('a', 'close')], ['restart', 'restart']]})
    add('real lost', engine, {
        'real': {'a': O, 'b': I}, 'settled': True,
        'actors': [[('a', 'reset'), ('a', I)], ['restart']]})

    check.explore(scenarios, bound=2)
    check.assumptions = [
        'two servers which start at the same time without knowing of each '
        'other are kept apart by monitor blessing']
