"""C10: eventer requests and acknowledged notifications"""

import asyncio

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer

    addr = tcp.Address('127.0.0.1', 23012)
    T = common.Timestamp

    def reg(n):
        return common.RegisterEvent(type=('a', str(n)), source_timestamp=None,
                                    payload=common.EventPayloadJson(n))

    def event(n):
        return common.Event(id=common.EventId(1, n, 1), type=('a', str(n)),
                            timestamp=T(n, 0), source_timestamp=None,
                            payload=common.EventPayloadJson(n))

    # requests

    async def requests(ctx):
        p = ctx.params
        registered = []

        async def on_register(info, events):
            n = events[0].payload.data
            registered.append([i.payload.data for i in events])
            if n in p.get('slow', ()):
                await ctx.point(f's{n}')
            if n in p.get('fail', ()):
                return None
            return [event(i.payload.data) for i in events]

        async def on_query(info, params):
            n = params.last_event_id.instance
            if n in p.get('slow', ()):
                await ctx.point(f's{n}')
            return common.QueryResult([event(n)], bool(n % 2))

        # short queues and buffers - sending of requests is blocked
        kwargs = {'receive_queue_size': 1} if p.get('blocked') else {}
        srv = await eventer.listen(addr, status=common.Status.OPERATIONAL,
                                   register_cb=on_register,
                                   query_cb=on_query, **kwargs)

        lost = set()

        async def request(name, conn, kind, n):
            if n in p.get('points', ()):
                await ctx.point(f'r{n}')
            was_lost = name in lost
            try:
                if kind == 'register':
                    result = await conn.register([reg(n), reg(n + 100)],
                                                 with_response=True)
                    exp = (None if n in p.get('fail', ()) else
                           [event(n), event(n + 100)])
                    if result is not None:
                        result = list(result)
                elif kind == 'push':
                    result = exp = None
                    await conn.register([reg(n)])
                else:
                    result = await conn.query(common.QueryServerParams(
                        1, last_event_id=common.EventId(1, 1, n)))
                    exp = common.QueryResult([event(n)], bool(n % 2))
                    result = result._replace(events=list(result.events))
            except ConnectionError:
                if name not in lost:
                    raise Violation(f'{kind} {n} failed although connection '
                                    f'was not lost')
                ctx.log(n, 'lost')
                return
            if was_lost and kind != 'push' and not conn.is_open:
                raise Violation(f'{kind} {n} succeeded on lost connection')
            if result != exp:
                raise Violation(f'{kind} {n} answered with {result}, '
                                f'expected {exp}')
            ctx.log(n, 'ok')

        async def client(name, reqs, end):
            ctx.owned(name)
            try:
                conn = await eventer.connect(addr, name, **kwargs)
            except ConnectionError:
                if srv.is_open:
                    raise
                return
            tasks = {n: ctx.loop.create_task(request(name, conn, kind, n))
                     for kind, n in reqs}

            async def cancel(n):
                await ctx.point(f'x{n}')
                tasks[n].cancel()

            async def finish():
                await ctx.point(f'{name}.end')
                lost.add(name)
                if end == 'reset':
                    ctx.reset(name)
                elif end == 'close':
                    conn.close()
                else:
                    srv.close()

            cancels = [ctx.spawn(cancel(n)) for n in p.get('cancel', ())
                       if n in tasks]
            if end:
                cancels.append(ctx.spawn(finish()))
            for n, task in tasks.items():
                try:
                    await task
                except asyncio.CancelledError:
                    if n not in p.get('cancel', ()):
                        raise Violation(f'request {n} was cancelled')
                    ctx.log(n, 'cancelled')
            await ctx.join(*cancels)
            if end:
                await conn.wait_closed()
                for kind, n in reqs:
                    if kind == 'push':
                        continue
                    await request(name, conn, kind, n)
            elif not conn.is_open:
                if not srv.is_open:
                    return
                raise Violation('connection closed without reason')
            else:
                # connection is still usable
                for kind, n in (('query', 50), ('register', 52)):
                    if n not in p.get('fail', ()):
                        await request(name, conn, kind, n)
            await conn.async_close()

        if p.get('server_end'):
            # all of clients lose connection
            lost.update(name for name, _, __ in p['clients'])
        await ctx.join(*[ctx.spawn(client(name, reqs, end))
                         for name, reqs, end in p['clients']])
        await ctx.quiesce()
        await srv.async_close()
        per_client = {}
        ctx.log(registered)

    scenarios = []

    def add(name, clients, inject=(), **params):
        options = ({'kernel_buffer': 0, 'high_water': 0}
                   if params.get('blocked') else {})
        scenarios.append((f'requests {name}', requests,
                          {'clients': clients, **params},
                          Options(inject=inject, **options)))

    q, r, u = 'query', 'register', 'push'
    add('in flight', [('c0', [(q, 1), (r, 2), (u, 3), (q, 4), (r, 6)], None)],
        slow=[2, 4], fail=[6], points=[1, 2, 4])
    add('cancel', [('c0', [(q, 1), (r, 2), (q, 3)], None)],
        slow=[1, 3], cancel=[1, 2], points=[3])
    add('two clients', [('c0', [(q, 1), (r, 2)], None),
                        ('c1', [(r, 3), (q, 4)], None)],
        slow=[1, 3], cancel=[4])
    for end in ('reset', 'close', 'server'):
        add(f'lost {end}', [('c0', [(q, 1), (r, 2), (q, 3)], end)],
            slow=[1, 2], points=[2, 3], server_end=end == 'server')
        add(f'lost {end} of two',
            [('c0', [(q, 1), (r, 2)], end), ('c1', [(q, 4), (r, 5)], None)],
            slow=[1, 4], server_end=end == 'server', fail=[5])
        add(f'lost {end} injected', [('c0', [(q, 1), (r, 2)], end)],
            slow=[1], points=[2], inject=('c0.end', 'r2'),
            server_end=end == 'server')
    add('cancel injected', [('c0', [(q, 1), (r, 2)], None)],
        cancel=[1, 2], inject=('x',))

    many = [(r if n % 2 else q, n) for n in range(1, 9)]
    add('blocked', [('c0', many, None)], slow=[1, 4], blocked=True)
    add('blocked cancel', [('c0', many, None)], slow=[1],
        cancel=[2, 3, 6, 8], blocked=True)
    for end in ('reset', 'close', 'server'):
        add(f'blocked {end}', [('c0', many + [(u, 10), (u, 11)], end)],
            slow=[1], server_end=end == 'server', blocked=True)

    # acknowledged notifications

    async def acks(ctx):
        p = ctx.params
        srv = await eventer.listen(addr)
        ended = {}
        processed = {}
        finished = {}
        connected = {name: asyncio.Event() for name, _ in p['clients']}

        async def client(name, conf):
            ctx.owned(name)
            processed[name] = []

            async def on_events(client, events):
                n = events[0].payload.data
                if conf.get('slow'):
                    await ctx.point(f'{name}.{n}')
                if conf.get('raise') and n == 1:
                    raise Exception('callback error')
                processed[name].append(n)

            conn = await eventer.connect(addr, name,
                                         subscriptions=[('*',)],
                                         events_cb=on_events)
            finished[name] = conn
            connected[name].set()
            if conf.get('end'):
                await ctx.point(f'{name}.end')
                ended[name] = True
                if conf['end'] == 'reset':
                    ctx.reset(name)
                else:
                    await conn.async_close()

        tasks = [ctx.spawn(client(name, conf))
                 for name, conf in p['clients']]
        for name, _ in p['clients']:
            await connected[name].wait()

        async def notify(n):
            await ctx.point(f'n{n}')
            targets = [i.client_name for i in srv.get_conn_infos()]
            await srv.notify_events([event(n)], False, True)
            still = [i.client_name for i in srv.get_conn_infos()]
            for name in targets:
                if n in processed[name]:
                    continue
                conf = dict(p['clients'])[name]
                if name in still and srv.is_open:
                    raise Violation(f'notify {n} returned before client '
                                    f'{name} processed events')
                if (not ended.get(name) and not conf.get('raise') and
                        not p.get('server_end')):
                    raise Violation(f'client {name} lost its connection')
            ctx.log(n, sorted((k, tuple(v)) for k, v in processed.items()))

        notifies = [ctx.spawn(notify(n)) for n in p['notify']]

        if p.get('server_end'):
            await ctx.point('srv.end')
            srv.close()
        await ctx.join(*notifies)
        await ctx.join(*tasks)
        await ctx.quiesce()
        for conn in finished.values():
            await conn.async_close()
        await srv.async_close()

    def add_ack(name, clients, notify=(1,), inject=(), **params):
        scenarios.append((f'acks {name}', acks,
                          {'clients': clients, 'notify': notify, **params},
                          Options(inject=inject)))

    slow = {'slow': True}
    add_ack('all', [('c0', slow), ('c1', {})], (1, 2))
    for end in ('reset', 'close'):
        add_ack(f'{end} other', [('c0', slow), ('c1', {'end': end})])
        add_ack(f'{end} slow other', [('c0', slow),
                                      ('c1', {'end': end, 'slow': True})])
        add_ack(f'{end} three', [('c0', slow), ('c1', {'end': end}),
                                 ('c2', {'end': end, 'slow': True})], (1, 2))
        add_ack(f'{end} injected', [('c0', {}), ('c1', {'end': end})],
                inject=('c1.end',))
    add_ack('raise', [('c0', slow), ('c1', {'raise': True})], (1, 2))
    add_ack('server close', [('c0', slow), ('c1', slow)], (1,),
            server_end=True)

    check.explore(scenarios, bound=2)

    # many requests in flight, large requests and results

    async def scale(ctx):
        count, size, cancel, end = ctx.params
        gate = asyncio.Event()

        async def on_register(info, events):
            await gate.wait()
            return [event(i.payload.data) for i in events]

        async def on_query(info, params):
            await gate.wait()
            n = params.last_event_id.instance
            return common.QueryResult([event(n + i) for i in range(size)],
                                      bool(n % 2))

        srv = await eventer.listen(addr, status=common.Status.OPERATIONAL,
                                   register_cb=on_register,
                                   query_cb=on_query)
        conn = await eventer.connect(addr, 'c')

        async def request(i):
            n = i * size
            if i % 2:
                result = await conn.register([reg(n + j) for j in range(size)],
                                             with_response=True)
                exp = [event(n + j) for j in range(size)]
                result = list(result)
            else:
                result = await conn.query(common.QueryServerParams(
                    1, last_event_id=common.EventId(1, 1, n)))
                exp = common.QueryResult([event(n + j) for j in range(size)],
                                         bool(n % 2))
                result = result._replace(events=list(result.events))
            if result != exp:
                raise Violation(f'request {i} of {count} answered with '
                                'other result')

        tasks = [ctx.loop.create_task(request(i)) for i in range(count)]
        await ctx.quiesce()
        cancelled = set(range(0, count, cancel)) if cancel else set()
        for i in cancelled:
            tasks[i].cancel()
        if end:
            conn.close() if end == 'close' else srv.close()
        gate.set()
        for i, task in enumerate(tasks):
            try:
                await task
                if end and i > 2000:
                    raise Violation(f'request {i} answered after close')
            except asyncio.CancelledError:
                if i not in cancelled:
                    raise Violation(f'request {i} of {count} was cancelled')
            except ConnectionError:
                if not end:
                    raise Violation(f'request {i} of {count} failed')
        if not end:
            if not conn.is_open:
                raise Violation('connection closed')
            await request(3)
            await request(4)
        await conn.async_close()
        await srv.async_close()

    from mc.explore import execute

    def run_scale(case):
        result = execute(scale, case, Options(max_steps=1_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, case

    check.enumerate('scale', [
        (*sizes, cancel, end)
        for sizes in ((100, 1), (700, 1), (1500, 1), (3000, 1), (20, 1000),
                      (3, 5000))
        for cancel in (0, 1, 3) for end in (None, 'close', 'server')],
        run_scale, chunk=1, time_limit=120)
    check.assumptions = [
        'connection loss is a TCP reset or orderly close; connection on which '
        'data silently disappears is covered only by chatter ping (hat-drivers)',
        'send queues of chatter (1024 messages) do not overflow']
