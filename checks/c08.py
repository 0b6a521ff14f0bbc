"""C08: register requests are answered; engine life cycle"""

import asyncio

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat.event import common
    from hat.event.server.engine import create_engine
    from checks import env
    from checks import enginelib as lib

    server_id = 5
    status_type = ('event', str(server_id), 'engine')

    class Injected(Exception):
        pass

    async def harness(ctx):
        p = ctx.params
        recorder = lib.Recorder()
        backend = env.scripted_backend()
        results = {}
        arrival = []
        requests = {}
        state = {'closing': False, 'engine': None, 'created': False}

        if p.get('backend_points'):
            async def before(events):
                await ctx.point('backend')
            backend.before_register = before

        async def outcome(n, engine, source, events):
            """Perform register and record result"""
            arrival.append(n)
            try:
                result = await engine.register(source, events)
            except asyncio.CancelledError:
                results[n] = 'cancelled'
                raise
            except Exception as e:
                results[n] = e
            else:
                results[n] = result

        def make(n, count):
            events = [common.RegisterEvent(
                (f'r{n}', str(i)), common.Timestamp(n, i) if i % 2 else None,
                common.EventPayloadJson({'t': recorder.token(), 'h': 0}))
                for i in range(count)]
            source = common.Source(common.SourceType.EVENTER, n)
            if events:
                requests[events[0].payload.data['t']] = source, events
            return source, events

        made = {}
        module_tasks = []
        finished = []        # created modules

        def failure(kind, event=None):
            """Scripted backend or module failure"""
            if kind == 'raise':
                raise Injected()

        def register_hook(events):
            for e in events:
                if e.type[0] in p.get('backend_none', ()):
                    return True
                if e.type[0] in p.get('backend_raise', ()):
                    raise Injected()
            return False

        backend.fail = register_hook

        def module_hook(m):
            def hook(event):
                if event.type[0] in p.get('module_raise', ()):
                    raise Injected()
                if event.type[0] in p.get('module_close', ()):
                    modules[m].close()
                if event.type[0] in p.get('engine_close', ()):
                    state['closing'] = True
                    modules[m].engine.close()
            return hook

        async def step(label):
            if p.get('module_points'):
                await ctx.point(label)

        def created(m):
            async def create(module):
                for n in p.get('module_requests', {}).get(m, ()):
                    source, events = made[n] = make(n, 2)
                    module_tasks.append(ctx.spawn(guard(outcome(
                        n, module.engine, module.source, events))))
                    requests[events[0].payload.data['t']] = (module.source,
                                                             events)
                if p.get('create_points'):
                    await ctx.point(f'm{m}.create')
                if p.get('create_raise') == m:
                    raise Injected()
                finished.append(m)
            return create

        behaviours = [lib.Behaviour([('*',)], {}, style='async', step=step,
                                    create=created(m), hook=module_hook(m))
                      for m in range(p.get('modules', 0))]
        confs, modules = lib.install(recorder, behaviours)

        async def guard(coro):
            try:
                await coro
            except asyncio.CancelledError:
                pass

        engine = None
        create = asyncio.ensure_future(create_engine(
            backend, lib.EventerServerStub(), confs, server_id,
            lambda: None, lambda: None, p.get('queue', 1024)))
        if p.get('create_cancel'):
            async def cancel_create():
                await ctx.point('cancel')
                create.cancel()
            canceller = ctx.spawn(cancel_create())
        try:
            engine = await create
        except (Injected, asyncio.CancelledError):
            pass
        if p.get('create_cancel'):
            await canceller
        if engine is None:
            # requests of modules which were created end with failure
            await ctx.quiesce()
            await ctx.join(*module_tasks)
            for n in p.get('module_requests', {}).get(0, ()):
                if n not in results:
                    raise Violation(f'request {n} not finished')
                if results[n] == 'cancelled' or not isinstance(
                        results[n], Exception):
                    raise Violation(f'request {n} of failed engine returned '
                                    f'{results[n]}')
            for module in modules:
                if (not p.get('create_cancel') and not module.is_closed and
                        module.index in finished):
                    raise Violation('module is not closed')
            ctx.log('not created', len(backend.events))
            return

        async def requester(n, count):
            source, events = made[n] = make(n, count)
            if not p.get('burst'):
                await ctx.point(f'r{n}')
            await outcome(n, engine, source, events)

        async def closer():
            await ctx.point('close')
            state['closing'] = True
            if p['close'] == 'module':
                modules[0].close()
            elif p['close'] == 'async':
                await engine.async_close()
            else:
                engine.close()

        async def canceller_of(n):
            await ctx.point(f'cancel{n}')
            tasks[n].cancel()

        tasks = {}
        for n, count in p.get('requests', {}).items():
            tasks[n] = ctx.spawn(requester(n, count))
        others = []
        if p.get('close') == 'immediately':
            engine.close()
            state['closing'] = True
        elif p.get('close'):
            others.append(ctx.spawn(closer()))
        for n in p.get('cancel', ()):
            others.append(ctx.spawn(canceller_of(n)))
        for n, task in tasks.items():
            try:
                await task
            except asyncio.CancelledError:
                if n not in p.get('cancel', ()):
                    raise Violation(f'request {n} cancelled')
        await ctx.join(*others)
        await ctx.join(*module_tasks)
        fails = any(p.get(i) for i in ('backend_raise', 'module_raise',
                                       'module_close', 'engine_close',
                                       'close'))
        if fails:
            await engine.wait_closed()
        else:
            if not engine.is_open:
                raise Violation('engine closed without a reason')
            await engine.async_close()
        for module in modules:
            if not module.is_closed:
                raise Violation('module is not closed')

        # request after engine is closed
        source, events = make(99, 1)
        try:
            await engine.register(source, events)
        except Exception:
            pass
        else:
            raise Violation('register on closed engine succeeded')
        if list(await engine.register(source, [])) != []:
            raise Violation('empty request')

        batches = backend.batches
        flat = [e for b in batches for e in b]
        shape = [b[0].type[0] if b[0].type != status_type
                 else b[0].payload.data for b in batches]
        lost = set(p.get('backend_raise', ())) | set(
            p.get('backend_none', ()))
        if p.get('close') == 'immediately':
            if shape not in ([], ['STARTED', 'STOPPED']):
                # sessions in between are of accepted requests
                if shape and (shape[0] != 'STARTED' or
                              shape[-1] != 'STOPPED'):
                    raise Violation(f'sessions {shape}')
        else:
            # STARTED might not be processed if engine is closed before
            if not shape or shape[-1] != 'STOPPED' or (
                    shape[0] != 'STARTED' and shape != ['STOPPED']):
                raise Violation(f'sessions {shape}')
        for status in ('STARTED', 'STOPPED'):
            if shape.count(status) > 1:
                raise Violation(f'sessions {shape}')

        for n, result in results.items():
            source, events = made[n]
            name = f'r{n}'
            registered = [e for e in flat if e.type[0] == name]
            if not events:
                if isinstance(result, Exception) or list(result) != []:
                    raise Violation(f'empty request returned {result}')
                continue
            if name in p.get('backend_raise', ()) and not isinstance(
                    result, Exception) and result != 'cancelled':
                raise Violation(f'request {n} with backend failure returned '
                                f'{result}')
            if result is None:
                if name not in p.get('backend_none', ()):
                    raise Violation(f'request {n} failed')
            elif result == 'cancelled':
                if n not in p.get('cancel', ()):
                    raise Violation(f'request {n} cancelled')
            elif isinstance(result, Exception):
                if not fails:
                    raise Violation(f'request {n} raised {result!r}')
            else:
                if name in lost:
                    raise Violation(f'request {n} returned {result}')
                if [(e.type, e.source_timestamp, e.payload)
                        for e in result] != [tuple(e) for e in events]:
                    raise Violation(f'request {n}: {events}\nresult {result}')
                if registered != list(result):
                    raise Violation(f'request {n}: registered {registered}\n'
                                    f'result {result}')
            if registered and len(registered) != len(events):
                raise Violation(f'request {n} registered as {registered}')
        for n in tasks:
            if n not in results and n not in p.get('cancel', ()):
                raise Violation(f'request {n} is not answered')
        # without failures everything that is not cancelled is registered
        if p.get('queue', 1024) >= len(made):
            got = [int(i[1:]) for i in shape if i.startswith('r')]
            expected = [n for n in arrival if n in got]
            if got != expected:
                raise Violation(f'order of sessions {got}, order of requests '
                                f'{expected}')
        if not lost and not p.get('engine_close') and not p.get(
                'module_raise') and not p.get('module_close'):
            lib.verify_sessions(recorder.log, batches, behaviours, requests,
                                server_id,
                                complete=not fails and not p.get('cancel'))
        ctx.log(tuple(shape), tuple(sorted(
            (n, type(r).__name__) for n, r in results.items())))

    scenarios = []

    def add(name, params, inject=(), bound=None):
        scenarios.append((name, harness, params, Options(inject=inject),
                          bound))

    three = {0: 2, 1: 1, 2: 3}
    add('plain', {'requests': {**three, 3: 0}, 'backend_points': True},
        ('r',))
    add('burst', {'requests': three, 'burst': True, 'modules': 1,
                  'module_points': True})
    add('queue', {'requests': {0: 1, 1: 1, 2: 1, 3: 1}, 'queue': 1,
                  'burst': True, 'backend_points': True})
    add('queue close', {'requests': {0: 1, 1: 1, 2: 1, 3: 1}, 'queue': 1,
                        'burst': True, 'backend_points': True,
                        'close': 'engine'}, ('close',))
    add('queue cancel', {'requests': three, 'queue': 1, 'burst': True,
                         'backend_points': True, 'cancel': (0, 1)},
        ('cancel',))
    for close in ('engine', 'async', 'module'):
        add(f'close {close}', {
            'requests': three, 'backend_points': True, 'close': close,
            'modules': 1}, ('close', 'r'))
        add(f'close {close} modules', {
            'requests': {0: 1, 1: 2}, 'module_points': True, 'close': close,
            'modules': 2, 'burst': True}, ('close',))
    add('close immediately', {'requests': three, 'close': 'immediately'})
    add('close immediately burst', {'requests': three, 'burst': True,
                                    'close': 'immediately', 'modules': 1})
    add('cancel', {'requests': three, 'backend_points': True,
                   'cancel': (0, 1)}, ('cancel', 'r'))
    add('cancel close', {'requests': {0: 1, 1: 1}, 'backend_points': True,
                         'cancel': (0,), 'close': 'engine', 'modules': 1,
                         'module_points': True}, ('cancel', 'close'))
    add('backend none', {'requests': three, 'backend_points': True,
                         'backend_none': ('r1',)}, ('r',))
    add('backend none cancel', {'requests': three, 'backend_points': True,
                                'backend_none': ('r1', 'r0'),
                                'cancel': (1,)}, ('cancel',))
    add('backend raise', {'requests': three, 'backend_points': True,
                          'backend_raise': ('r1',)}, ('r',))
    add('backend raise close', {
        'requests': three, 'backend_points': True, 'close': 'engine',
        'backend_raise': ('r1',), 'burst': True}, ('close',))
    for kind in ('module_raise', 'module_close', 'engine_close'):
        add(kind, {'requests': three, kind: ('r1',), 'modules': 2,
                   'module_points': True, 'burst': kind == 'module_raise'})
        add(f'{kind} backend', {'requests': three, kind: ('r0',),
                                'modules': 1, 'backend_points': True},
            ('r', 'backend'))
    add('module requests', {'requests': {0: 1}, 'modules': 2,
                            'module_requests': {0: (5, 6), 1: (7,)},
                            'create_points': True, 'burst': True})
    add('create raise', {'modules': 2, 'module_requests': {0: (5, 6)},
                         'create_raise': 1, 'create_points': True})
    add('create raise queue', {'modules': 2, 'module_requests': {0: (5, 6)},
                               'create_raise': 1, 'create_points': True,
                               'queue': 1})
    add('create cancel', {'modules': 2, 'module_requests': {0: (5, 6)},
                          'create_points': True, 'create_cancel': True},
        ('cancel',))
    check.explore(scenarios, bound=2)

    # more requests than register queue can hold

    from mc.explore import execute

    def run_many(case):
        count, queue, sizes, options = case
        params = {'requests': {i: sizes[i % len(sizes)]
                               for i in range(count)},
                  'queue': queue, 'burst': True, 'modules': 1,
                  **dict(options)}
        result = execute(harness, params, Options(max_steps=1_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return count, result.events, 1, case

    check.enumerate('many requests', [
        (count, queue, sizes, options)
        for count, queue in ((40, 7), (200, 3), (1023, 1024), (1024, 1024),
                             (1025, 1024), (1500, 1024))
        for sizes in ((1,), (3, 0, 1))
        for options in (
            (), (('close', 'engine'),), (('close', 'async'),),
            (('close', 'immediately'),), (('backend_none', ('r5', 'r30')),),
            (('backend_raise', ('r20',)),), (('module_raise', ('r30',)),),
            (('cancel', (0, 3, 4, 9, 10, 38)),),
            (('cancel', tuple(range(2, 40, 2))), ('close', 'module')))],
        run_many, chunk=1, time_limit=120)
    check.assumptions = [
        'callbacks of modules and backend finish (no infinite blocking)',
        'order of arrival is asserted as long as register queue is not full']
