"""C34: readiness announced to monitor server"""

import asyncio
import itertools

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.main_runner import MainRunner
    from checks import enginelib
    from checks import env
    import hat.monitor.common
    import hat.monitor.observer.server

    MONITOR = tcp.Address('127.0.0.1', 23010)
    ADDR = tcp.Address('127.0.0.1', 23012)
    TIMEOUT = 7

    class World:

        def __init__(self, ctx):
            self.ctx = ctx
            self.p = ctx.params
            self.loop = asyncio.get_running_loop()
            self.allowed = self.p.get('allowed', True)
            self.held = False
            self.stale = False          # component does not know its state
            self.tokens = itertools.count(1)
            self.token = None           # current blessing
            self.view = None            # last announcement
            self.since = None           # time of not ready announcement
            self.released = False
            self.pending = 0            # resets which are not announced
            self.resets = 0
            self.announced = 0          # not ready announcements
            self.disturbed = False      # blessing was revoked
            self.ending = False
            self.errors = []
            self.views = []

        def error(self, message):
            self.errors.append(message)
            return Violation(message)

        @property
        def open(self):
            return sum(not i.is_closed for i in self.modules)

        async def start(self):
            p = self.p
            self.monitor = await hat.monitor.observer.server.listen(
                MONITOR, close_timeout=1, state_cb=self.on_monitor)
            backend = env.scripted_backend()

            async def on_create(module):
                if self.open > 1:
                    self.error('more than one engine')
                if not self.ending and not self.stale and (
                        self.view is None or self.view.token is None):
                    self.error('engine is created without blessing')

                async def on_close():
                    if p.get('close_delay'):
                        await asyncio.sleep(p['close_delay'])
                    if p.get('slow_close'):
                        await self.ctx.point('z')

                module.async_group.spawn(aio.call_on_cancel, on_close)
                if p.get('slow_create'):
                    await self.ctx.point('m')
                if p.get('create_delay'):
                    await asyncio.sleep(p['create_delay'])
                if p.get('early') and not self.resets:
                    self.reset(module)

            confs, self.modules = enginelib.install(
                enginelib.Recorder(), [enginelib.Behaviour(
                    [('*',)], {}, create=on_create, style='async')])

            async def create(*args):
                if p.get('slow_backend'):
                    await self.ctx.point('b')
                return backend

            env.install_backend('verif_backend', create)

            async def start():
                self.ctx.owned('es')
                return MainRunner(
                    {'name': 'es', 'server_id': 1,
                     'eventer_server': {'host': ADDR.host,
                                        'port': ADDR.port},
                     'backend': {'module': 'verif_backend'},
                     'modules': confs,
                     'monitor_component': {
                         'host': MONITOR.host, 'port': MONITOR.port,
                         'group': 'g'}},
                    reset_monitor_ready_timeout=TIMEOUT)

            self.runner = await asyncio.create_task(start())

        async def on_monitor(self, _, state):
            infos = [i for i in state.local_components if i.name == 'es']
            if len(infos) > 1:
                self.error(f'{len(infos)} components')
            view = infos[0].blessing_res if infos else None
            if view != self.view:
                self.on_view(view)
            await self.update()

        def on_view(self, view):
            """Component announced change"""
            previous, self.view = self.view, view
            self.views.append(view and (view.ready, view.token))
            now = self.loop.time()
            if view is None:
                if not self.ending:
                    self.error('component is lost')
                return
            was = previous is not None and previous.ready
            token = previous.token if previous is not None else None
            if was and not view.ready:
                self.announced += 1
                self.pending = 0
                self.since = now
                self.released = False
                if self.announced > self.resets:
                    self.error('not ready without reset')
            if view.ready and not was:
                if self.since is None:
                    self.ctx.spawn(self.connect())
                elif not self.released and now < self.since + TIMEOUT:
                    self.error(f'ready after {now - self.since} s while '
                               f'blessing is not released')
            if token is not None and view.token != token:
                if self.open and not self.stale:
                    self.error(f'blessing {token} is released by running '
                               f'engine')
                if view.ready and not self.disturbed and not self.ending \
                        and not (self.since is not None and
                                 now >= self.since + TIMEOUT):
                    self.error(f'blessing {token} is released without '
                               f'reason')
            if view.token is None and not view.ready:
                self.released = True

        async def connect(self):
            """Ready server accepts clients"""
            try:
                client = await eventer.connect(ADDR, 'c')
            except Exception as e:
                if not self.ending:
                    self.error(f'ready server does not accept clients: {e!r}')
                return
            await client.async_close()

        async def update(self):
            """Algorithm which blesses each ready component"""
            if self.held or self.monitor.is_closing:
                return
            infos = []
            for i in self.monitor.state.local_components:
                token = i.blessing_req.token
                if not i.blessing_res.ready or not self.allowed:
                    token = None
                elif token is None:
                    token = next(self.tokens)
                infos.append(i._replace(
                    mid=1, blessing_req=i.blessing_req._replace(
                        token=token)))
            try:
                await self.monitor.update(1, infos)
            except ConnectionError:
                pass

        def reset(self, module):
            self.resets += 1
            if self.view is not None and self.view.ready:
                self.pending += 1
            module.engine.reset_monitor_ready()

        async def op(self, op):
            name, *args = op
            modules = [i for i in self.modules if not i.is_closed]
            if name == 'wait':
                await asyncio.sleep(args[0])
            elif name == 'reset':
                # also by modules which are closing
                if modules:
                    self.reset(modules[0])
            elif name == 'restart':
                if modules:
                    modules[0].engine.restart()
            elif name == 'revoke':
                self.allowed = False
                self.disturbed = True
                await self.update()
            elif name == 'bless':
                self.allowed = True
                await self.update()
            elif name == 'change':
                self.disturbed = True
                infos = [i._replace(blessing_req=i.blessing_req._replace(
                    token=next(self.tokens)))
                    for i in self.monitor.state.global_components
                    if i.blessing_req.token is not None]
                if infos and not self.held:
                    await self.monitor.update(1, infos)
            elif name == 'hold':
                self.held = self.stale = True
            elif name == 'release':
                self.held = False
                await self.update()
            elif name == 'stop':
                self.ending = True
                await self.runner.async_close()
            elif name == 'fail':
                if modules:
                    self.ending = self.ending or 'fail'
                    modules[0].close()
            elif name == 'lose':
                self.ending = True
                for conn in self.ctx.conns('es'):
                    conn.reset()

        async def settle(self):
            for _ in range(3):
                await self.ctx.quiesce()
                await asyncio.sleep(TIMEOUT + self.p.get('close_delay', 0) +
                                    self.p.get('create_delay', 0))
            await self.ctx.quiesce()

        def verify(self):
            if self.errors:
                raise Violation(self.errors[0])
            if self.ending == 'fail' and self.runner.is_open:
                # failed while engine was closing
                self.ending = False
            if self.ending:
                if self.runner.is_open:
                    raise Violation('server is not closed')
                if self.open:
                    raise Violation('engine of closed server')
                return
            if not self.runner.is_open:
                raise Violation('server is closed')
            if self.pending:
                raise Violation('reset is not announced')
            if self.view is None or not self.view.ready:
                raise Violation('server is not ready')
            if self.held:
                return
            self.stale = False
            if self.open != self.allowed:
                raise Violation(f'{self.open} engines while blessing is ' +
                                ('' if self.allowed else 'not ') + 'allowed')
            # component (of hat-monitor) does not release blessing which is
            # revoked while it is being accepted
            if self.allowed and self.view.token is None:
                raise Violation(f'blessing is {self.view.token}')

    async def harness(ctx):
        p = ctx.params
        world = World(ctx)
        await world.start()
        if p.get('settled', True):
            await world.settle()
            world.verify()

        async def actor(n, ops):
            for i, op in enumerate(ops):
                await ctx.point(f'x{n}.{i}')
                await world.op(op)
                if p.get('stepwise'):
                    await world.settle()
                    world.verify()

        await ctx.join(*[ctx.spawn(actor(i, ops))
                         for i, ops in enumerate(p['actors'])])
        await world.settle()
        world.verify()
        if world.runner.is_open:
            await world.op(('release',))
            await world.op(('bless',))
            await world.settle()
            world.verify()
            await world.op(('reset',))
            await world.settle()
            world.verify()
            await world.op(('stop',))
            await world.settle()
            world.verify()
        await world.monitor.async_close()
        ctx.log(tuple(world.views))

    scenarios = []

    def add(name, actors, options=None, **params):
        scenarios.append((name, harness, {'actors': actors, **params},
                          Options(inject=('x', 'z', 'm', 'b'),
                                  **(options or {}))))

    RESET, RESTART, REVOKE, BLESS, HOLD, RELEASE, CHANGE, STOP, FAIL, LOSE = [
        (i,) for i in ('reset', 'restart', 'revoke', 'bless', 'hold',
                       'release', 'change', 'stop', 'fail', 'lose')]
    add('start', [], settled=False, slow_backend=True, slow_create=True)
    add('early', [], settled=False, early=True)
    add('early slow', [[RESET]], settled=False, early=True, slow_create=True)
    add('reset', [[RESET]], slow_close=True)
    add('reset twice', [[RESET, RESET]], slow_close=True, slow_create=True)
    add('reset and restart', [[RESET], [RESTART]], slow_close=True)
    add('reset and revoke', [[RESET], [REVOKE, BLESS]], slow_close=True)
    add('reset and change', [[RESET], [CHANGE]], slow_close=True)
    add('reset and hold', [[RESET], [HOLD, RELEASE]])
    add('reset and stop', [[RESET], [STOP]], slow_close=True)
    add('reset and fail', [[RESET], [FAIL]], slow_close=True)
    add('reset and lose', [[RESET], [LOSE]], slow_close=True)
    add('timeout', [[RESET, ('wait', TIMEOUT), RESET]], close_delay=10)
    add('timeout and revoke', [[RESET, ('wait', TIMEOUT), REVOKE,
                                ('wait', 2), BLESS]], close_delay=10)
    add('unsettled', [[RESET], [REVOKE, BLESS]], settled=False,
        slow_create=True)

    check.explore(scenarios, bound=2, time_limit=30)

    # sequences of operations in default schedule

    from mc.explore import execute

    def run_sequence(case):
        stepwise, params, ops = case
        result = execute(harness, {
            'actors': [ops], 'stepwise': stepwise, **dict(params)},
            Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return len(ops), result.events, 1, result.outcome

    OPS = (RESET, RESTART, REVOKE, BLESS, CHANGE, HOLD, RELEASE,
           ('wait', 2), ('wait', 7), ('wait', 11))
    LAST = STOP, FAIL, LOSE

    def sequences():
        depth = 4 + check.thorough
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n - 1):
                for last in (*OPS, *LAST):
                    for params in (
                            (), (('close_delay', 10),), (('close_delay', 4),),
                            (('create_delay', 4),), (('create_delay', 10),)
                            )[:5 if n < 4 or check.thorough else 2]:
                        if len(ops) < 3:
                            yield True, params, (*ops, last)
                        yield False, params, (*ops, last)

    check.enumerate('sequences', list(sequences()), run_sequence,
                    time_limit=1200 if check.thorough else 100)
    check.assumptions = [
        'monitor server answers each announcement (hat-monitor observer '
        'server), except while it is held',
        'asyncio FIFO ready queue']
