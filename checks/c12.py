"""C12: status propagation and registration gating"""

from mc.core import Violation
from mc.explore import execute
from mc.loop import Options


def run(check):
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.engine import create_engine
    from hat.event.server.eventer_server import create_eventer_server
    from checks import env

    addr = tcp.Address('127.0.0.1', 23012)
    S = common.Status
    server_id = 7

    async def observe(ctx, key, conf, history, clock):
        """Connect client, return observed statuses"""
        ctx.owned(key)
        seen = []

        async def on_status(client, status):
            if conf.get('slow'):
                await ctx.point(f'{key}.s{len(seen)}')
            if client.status != status:
                raise Violation(f'{key}: callback status {status}, client '
                                f'status {client.status}')
            seen.append(status)

        if conf.get('late'):
            await ctx.point(f'{key}.connect')
        first = len(history) - 1
        client = await eventer.connect(addr, key, subscriptions=[('*',)],
                                       status_cb=on_status)
        initial = seen[0] if seen else client.status
        return client, first, client.status if not seen else None, seen

    def verify(key, history, first, initial, seen, final):
        """Observed sequence is history from some moment after connect
        started"""
        # repeated status is not a change
        for start in range(first, len(history)):
            tail = list(history[start:])
            if initial is not None:
                if tail[0] != initial:
                    continue
                if tail[1:] == seen:
                    break
            elif seen in (tail, tail[1:]):
                break
        else:
            raise Violation(f'{key}: observed {initial} {seen}, history '
                            f'{history[first:]}')
        if final != history[-1]:
            raise Violation(f'{key}: status {final}, expected {history[-1]}')

    async def propagation(ctx):
        p = ctx.params
        history = [p['initial']]
        srv = await eventer.listen(addr, status=p['initial'])

        async def changer():
            for i, status in enumerate(p['statuses']):
                await ctx.point(f'set{i}')
                if status != history[-1]:
                    history.append(status)
                await srv.set_status(status)
                if i in p.get('events', ()):
                    await srv.notify_events([common.Event(
                        common.EventId(1, 1, i), ('a',),
                        common.Timestamp(1, 1), None, None)], False)

        async def client(key, conf):
            result = await observe(ctx, key, conf, history, None)
            if conf.get('end'):
                await ctx.point(f'{key}.end')
                if conf['end'] == 'reset':
                    ctx.reset(key)
                else:
                    await result[0].async_close()
                return None
            return result

        clients = {key: ctx.spawn(client(key, conf))
                   for key, conf in p['clients'].items()}
        if not p.get('race'):
            for key, conf in p['clients'].items():
                if not conf.get('late') and not conf.get('end'):
                    await clients[key]
        await changer()
        await ctx.join(*clients.values())
        await ctx.quiesce()
        for key, task in clients.items():
            if task.result() is None:
                continue
            conn, first, initial, seen = task.result()
            verify(key, history, first, initial, seen, conn.status)
            ctx.log(key, initial, tuple(seen))
            await conn.async_close()
        await srv.async_close()

    async def gating(ctx):
        """Real engine and eventer server"""
        p = ctx.params
        backend = env.scripted_backend()
        history = [S.STANDBY]
        processed = []
        module_conf = env.observer_module(
            lambda source, event: processed.append(event))
        srv = await create_eventer_server(addr, backend, server_id)

        async def change(status, engine=None):
            history.append(status)
            await srv.set_status(status, engine)

        engines = []

        async def cycle(n):
            await ctx.point(f'e{n}.starting')
            await change(S.STARTING)
            await ctx.point(f'e{n}.operational')
            engine = await create_engine(backend, srv, [module_conf],
                                         server_id, lambda: None,
                                         lambda: None)
            engines.append(engine)
            await change(S.OPERATIONAL, engine)
            await ctx.point(f'e{n}.stopping')
            await change(S.STOPPING)
            await ctx.point(f'e{n}.stop')
            await engine.async_close()
            await change(S.STANDBY)

        async def client(key, conf):
            conn, first, initial, seen = await observe(ctx, key, conf,
                                                       history, None)
            for i in range(conf.get('requests', 0)):
                await ctx.point(f'{key}.r{i}')
                start = len(history) - 1
                type = ('x', key, str(i))
                try:
                    if i % 2 == 0 or conf.get('register'):
                        result = await conn.register(
                            [common.RegisterEvent(type, None, None)], True)
                    else:
                        result = await conn.query(common.QueryServerParams(
                            server_id))
                        if result.events is None:
                            raise Violation('invalid query result')
                        continue
                except ConnectionError:
                    # engine closed while request was being processed
                    if S.OPERATIONAL not in history[start:]:
                        raise Violation('connection closed')
                    ctx.log(key, i, 'closed')
                    return None
                operational = S.OPERATIONAL in history[start:]
                always = set(history[start:]) == {S.OPERATIONAL}
                registered = [e for e in backend.events if e.type == type]
                if result is None:
                    if always:
                        raise Violation(f'register failed on operational '
                                        f'server {history[start:]}')
                    if registered:
                        raise Violation('failed register is registered')
                else:
                    if not operational:
                        raise Violation(f'register succeeded with statuses '
                                        f'{history[start:]}')
                    if registered != list(result):
                        raise Violation(f'registered {registered}, result '
                                        f'{result}')
                ctx.log(key, i, result is not None)
            return conn, first, initial, seen

        clients = {key: ctx.spawn(client(key, conf))
                   for key, conf in p['clients'].items()}
        for n in range(p.get('cycles', 1)):
            await cycle(n)
        await ctx.join(*clients.values())
        await ctx.quiesce()
        for key, task in clients.items():
            if task.result() is None:
                continue
            conn, first, initial, seen = task.result()
            verify(key, history, first, initial, seen, conn.status)
            await conn.async_close()
        await ctx.quiesce()
        await srv.async_close()

    async def stable(ctx):
        """Requests in each status (no concurrency)"""
        status, waits = ctx.params
        backend = env.scripted_backend()
        srv = await create_eventer_server(addr, backend, server_id)
        engine = None
        if status == S.OPERATIONAL:
            engine = await create_engine(backend, srv, [], server_id,
                                         lambda: None, lambda: None)
        await srv.set_status(status, engine)
        for wrong in S:
            # status and engine must agree
            try:
                await srv.set_status(wrong, None if wrong == S.OPERATIONAL
                                     else object())
            except ValueError:
                continue
            raise Violation(f'status {wrong} with wrong engine accepted')
        conn = await eventer.connect(addr, 'c', subscriptions=[('*',)])
        if conn.status != status:
            raise Violation(f'initial status {conn.status}, expected '
                            f'{status}')
        event = common.RegisterEvent(('a',), None, None)
        for events in ([event], [event, event], []):
            before = len(backend.events)
            result = await conn.register(events, waits)
            await ctx.quiesce()
            if waits:
                if status == S.OPERATIONAL:
                    if result is None or len(result) != len(events):
                        raise Violation(f'register of {events} returned '
                                        f'{result}')
                elif result is not None:
                    raise Violation(f'register succeeded in {status}')
            added = [e for e in backend.events[before:] if e.type == ('a',)]
            if len(added) != (len(events) if status == S.OPERATIONAL else 0):
                raise Violation(f'{len(added)} events registered in {status}')
            count = len(backend.queries)
            for params in (common.QueryLatestParams(),
                           common.QueryTimeseriesParams(),
                           common.QueryServerParams(server_id)):
                got = await conn.query(params)
                if not isinstance(got, common.QueryResult):
                    raise Violation(f'query returned {got}')
            if backend.queries[count:] != [
                    common.QueryLatestParams(),
                    common.QueryTimeseriesParams(),
                    common.QueryServerParams(server_id)]:
                raise Violation(f'backend queried with '
                                f'{backend.queries[count:]}')
        await conn.async_close()
        await ctx.quiesce()
        await srv.async_close()
        if engine:
            await engine.async_close()

    scenarios = []
    full = [S.STARTING, S.OPERATIONAL, S.STOPPING, S.STANDBY]

    def add(name, harness, params, inject=()):
        scenarios.append((name, harness, params, Options(inject=inject)))

    add('stay', propagation, {'initial': S.STANDBY, 'clients': {
        'c0': {}, 'c1': {'slow': True}}, 'statuses': full})
    add('late', propagation, {'initial': S.STANDBY, 'clients': {
        'c0': {'late': True}, 'c1': {'late': True}}, 'statuses': full})
    add('race', propagation, {'initial': S.OPERATIONAL, 'clients': {
        'c0': {}, 'c1': {}}, 'statuses': [S.STOPPING, S.STANDBY],
        'race': True})
    add('repeat', propagation, {'initial': S.STARTING, 'clients': {
        'c0': {'late': True}}, 'statuses': [
            S.STARTING, S.OPERATIONAL, S.OPERATIONAL, S.STARTING],
        'events': [0, 1, 2, 3]})
    for end in ('reset', 'close'):
        add(f'end {end}', propagation, {'initial': S.STANDBY, 'clients': {
            'c0': {'end': end}, 'c1': {}, 'c2': {'end': end, 'slow': True}},
            'statuses': full[:3]})
    add('late injected', propagation, {'initial': S.STANDBY, 'clients': {
        'c0': {'late': True}}, 'statuses': full[:3]}, inject=('set',))
    add('end injected', propagation, {'initial': S.STANDBY, 'clients': {
        'c0': {'end': 'reset'}, 'c1': {}}, 'statuses': full[:3]},
        inject=('set', 'c0.end'))
    add('gating', gating, {'clients': {'c0': {'requests': 3,
                                              'register': True}}})
    add('gating two', gating, {'clients': {
        'c0': {'requests': 2}, 'c1': {'late': True, 'requests': 1}},
        'cycles': 2})
    add('gating injected', gating, {'clients': {
        'c0': {'requests': 2, 'register': True}}}, inject=('e0', 'c0.r'))
    for status in S:
        for waits in (False, True):
            add(f'stable {status.name} {waits}', stable, (status, waits))

    check.explore(scenarios, bound=2)

    # many clients, many changes

    def run_many(case):
        harness, params = case
        harness = {'propagation': propagation, 'gating': gating}[harness]
        result = execute(harness, params, Options(max_steps=2_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, result.outcome

    check.enumerate('many', [
        *(('propagation', {
            'initial': S.STANDBY, 'statuses': full * cycles,
            'events': range(0, 4 * cycles, 3),
            'clients': {f'c{i}': {'slow': i % 3 == 1, 'late': i % 4 == 3}
                        for i in range(clients)}})
          for clients, cycles in ((1, 300), (10, 40), (150, 2), (400, 1))),
        *(('gating', {
            'cycles': cycles,
            'clients': {f'c{i}': {'requests': requests, 'late': i % 4 == 3,
                                  'register': i % 2 == 0}
                        for i in range(clients)}})
          for clients, cycles, requests in (
              (1, 40, 50), (5, 20, 40), (60, 3, 5), (200, 1, 2)))],
        run_many, chunk=1, time_limit=120)
    check.assumptions = [
        'status is set sequentially (as engine runner does)',
        'request which races with stopping of the engine may end with '
        'connection error']
