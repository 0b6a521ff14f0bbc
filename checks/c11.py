"""C11: admission of clients and CONNECTED/DISCONNECTED events"""

import asyncio

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.engine import create_engine
    from hat.event.server.eventer_server import create_eventer_server
    from checks import env
    from checks import ref

    addr = tcp.Address('127.0.0.1', 23012)
    server_id = 7

    def eventer_events(backend):
        return [e for e in backend.events
                if e.type[:3] == ('event', str(server_id), 'eventer')]

    async def harness(ctx):
        p = ctx.params
        backend = env.scripted_backend()
        sources = {}        # event id -> source

        def on_process(source, event):
            sources[event.id] = source
            if (event.type[2:3] == ('eventer',) and
                    event.payload.data == 'DISCONNECTED' and
                    source in [s for s, _ in srv.get_client_names()]):
                stale.append(event)

        stale = []          # reported client whose connection has ended
        module_conf = env.observer_module(on_process)

        if p.get('slow'):
            async def before(events):
                if any(e.type[2:3] == ('eventer',) for e in events):
                    await ctx.point(f'b{events[0].id.session}')
            backend.before_register = before

        srv = await create_eventer_server(addr, backend, server_id,
                                          server_token=p.get('token'))
        engine = None

        async def start():
            nonlocal engine
            engine = await create_engine(backend, srv, [module_conf], server_id,
                                         lambda: None, lambda: None)
            await srv.set_status(common.Status.STARTING, None)
            await srv.set_status(common.Status.OPERATIONAL, engine)

        async def stop():
            await srv.set_status(common.Status.STOPPING, None)
            await engine.async_close()
            await srv.set_status(common.Status.STANDBY, None)

        def status_changes():
            return not p.get('running', True) or p.get('stop')

        if p.get('running', True):
            await start()

        admitted = {}
        refused = set()
        names = []

        def admissible(conf):
            return conf.get('token') is None or \
                conf.get('token') == p.get('token')

        async def client(key, conf):
            name = conf.get('name', key)
            ctx.owned(key)
            if conf.get('late'):
                await ctx.point(f'{key}.connect')
            received = []
            lost = []

            async def kill():
                await ctx.point(f'{key}.kill')
                lost.append(True)
                ctx.reset(key)

            killer = ctx.spawn(kill()) if conf.get('kill') else None
            try:
                conn = await eventer.connect(
                    addr, name, client_token=conf.get('token'),
                    subscriptions=[('*',)],
                    events_cb=lambda _, events: received.extend(events))
            except ConnectionError:
                # accepted by the server or not
                if not lost:
                    raise Violation(f'{key}: connection error')
                await ctx.join(killer)
                return
            except Exception as e:
                if type(e).__name__ != 'EventerInitError':
                    raise
                if admissible(conf) and not status_changes():
                    raise Violation(f'client {key} was refused: {e}')
                refused.add(key)
                await ctx.quiesce()
                if received:
                    raise Violation(f'refused client {key} received events')
                if killer:
                    await ctx.join(killer)
                return
            if not admissible(conf):
                raise Violation(f'client {key} with token '
                                f'{conf.get("token")!r} was admitted')
            admitted[key] = conn
            if not lost and conn.is_open:
                current = [n for _, n in srv.get_client_names()]
                if name not in current:
                    raise Violation(f'{name} is not among client names '
                                    f'{current}')
            try:
                for i in range(conf.get('register', 0)):
                    if conf.get('points'):
                        await ctx.point(f'{key}.r{i}')
                    await conn.register([common.RegisterEvent(
                        ('x', key, str(i)), None, None)],
                        with_response=conf.get('wait', True))
                if conf.get('close'):
                    await ctx.point(f'{key}.close')
                    await conn.async_close()
                    lost.append(True)
            except ConnectionError:
                if not lost:
                    raise Violation(f'{key}: connection error')
            if killer:
                await ctx.join(killer)

        async def stopper():
            await ctx.point('stop')
            await stop()

        async def starter():
            await ctx.point('start')
            await start()

        tasks = [ctx.spawn(client(key, conf))
                 for key, conf in p['clients'].items()]
        if p.get('start'):
            tasks.append(ctx.spawn(starter()))
        if p.get('stop'):
            tasks.append(ctx.spawn(stopper()))
        await ctx.join(*tasks)
        await ctx.quiesce()

        if stale:
            raise Violation(f'client is still reported by client names while '
                            f'its disconnection is processed: {stale}')

        # all of finished connections were reported

        alive = {key for key, conn in admitted.items() if conn.is_open}
        current = sorted(n for _, n in srv.get_client_names())
        expected = sorted(p['clients'][key].get('name', key)
                          for key in alive)
        if current != expected:
            raise Violation(f'client names {current}, expected {expected}')
        current_sources = [s for s, _ in srv.get_client_names()]
        if len(set(current_sources)) != len(current_sources):
            raise Violation('client sources are not unique')

        events = eventer_events(backend)
        per_source = {}
        for e in backend.events:
            source = sources.get(e.id)
            if e.type[2:3] == ('engine',):
                continue
            if source is None:
                raise Violation(f'{e} was not processed by modules')
            if source.type != common.SourceType.EVENTER:
                raise Violation(f'event {e} registered with source {source}')
            per_source.setdefault(source, []).append(e)

        seen = {}
        for source, items in per_source.items():
            kinds = [('C' if e.payload.data == 'CONNECTED' else 'D')
                     if e.type[2:3] == ('eventer',) else e.type[1]
                     for e in items]
            users = {k for k in kinds if k not in 'CD'}
            conn_names = {e.type[3] for e in items
                          if e.type[2:3] == ('eventer',)}
            if len(users) > 1 or len(conn_names) > 1:
                raise Violation(f'source {source} is shared: {items}')
            what = f'source {source}: {kinds}'
            if not status_changes():
                if kinds[0] != 'C' or kinds.count('C') != 1:
                    raise Violation(f'{what}: CONNECTED is not the only first')
                if 'D' in kinds and (kinds[-1] != 'D' or
                                     kinds.count('D') != 1):
                    raise Violation(f'{what}: DISCONNECTED is not the only '
                                    f'last')
                if ('D' in kinds) == (source in current_sources):
                    raise Violation(f'{what}: DISCONNECTED is inconsistent '
                                    f'with open connections')
            else:
                if kinds.count('C') > 1 or kinds.count('D') > 1:
                    raise Violation(f'{what}: repeated')
                if 'C' in kinds and kinds[0] != 'C':
                    raise Violation(f'{what}: CONNECTED is not first')
                if 'D' in kinds and kinds[-1] != 'D':
                    raise Violation(f'{what}: DISCONNECTED is not last')
            for n in conn_names:
                seen.setdefault(n, []).append(kinds)

        for e in events:
            if e.payload.data not in ('CONNECTED', 'DISCONNECTED') or \
                    e.source_timestamp is not None or len(e.type) != 4:
                raise Violation(f'invalid event {e}')
            key_confs = [conf for key, conf in p['clients'].items()
                         if conf.get('name', key) == e.type[3]]
            if not any(admissible(conf) for conf in key_confs):
                raise Violation(f'refused client caused {e}')

        if not status_changes():
            for key in admitted:
                name = p['clients'][key].get('name', key)
                same = [k for k in admitted
                        if p['clients'][k].get('name', k) == name]
                if len([k for k in seen.get(name, [])
                        if k[0] == 'C']) < len(same):
                    raise Violation(f'client {key} without CONNECTED')
        elif p.get('start') and not p.get('stop'):
            pass

        ctx.log(sorted((n, k) for n, k in seen.items()), sorted(refused))

        for conn in admitted.values():
            await conn.async_close()
        await ctx.quiesce()
        if list(srv.get_client_names()):
            raise Violation('client names remain after disconnect')
        await srv.async_close()
        if engine:
            await engine.async_close()

    scenarios = []

    def add(name, clients, inject=(), **params):
        scenarios.append((name, harness, {'clients': clients, **params},
                          Options(inject=inject)))

    # token matrix
    for token in (None, '', 'abc'):
        add(f'tokens {token!r}',
            {f'c{i}': {'token': t, 'register': 1}
             for i, t in enumerate((None, '', 'abc', 'abd'))}, token=token)

    add('life', {'c0': {'register': 2, 'close': True, 'points': True},
                 'c1': {'register': 1}})
    add('same name', {'c0': {'name': 'n', 'close': True},
                      'c1': {'name': 'n', 'register': 1, 'kill': True},
                      'c2': {'name': 'n', 'late': True}})
    add('kill', {'c0': {'register': 2, 'kill': True, 'points': True}})
    add('kill slow', {'c0': {'register': 1, 'kill': True}}, slow=True)
    add('kill slow two', {'c0': {'register': 1, 'kill': True},
                          'c1': {'close': True, 'register': 1}}, slow=True)
    add('no wait', {'c0': {'register': 3, 'close': True, 'wait': False},
                    'c1': {'register': 1, 'kill': True, 'wait': False}})
    add('kill injected', {'c0': {'register': 1, 'kill': True}},
        inject=('c0.kill',))
    add('kill injected slow', {'c0': {'kill': True}}, slow=True,
        inject=('c0.kill', 'b'))
    add('bad token kill', {'c0': {'token': 'x', 'kill': True},
                           'c1': {'register': 1}})
    add('stop', {'c0': {'register': 1}, 'c1': {'late': True}}, stop=True)
    add('start', {'c0': {'register': 1}, 'c1': {'late': True, 'register': 1}},
        running=False, start=True)

    check.explore(scenarios, bound=2, time_limit=30)

    # many clients (each with different options) in default schedule

    from mc.explore import execute

    unusual = tuple(i[0] for i in ref.confusable if len(i) == 1)

    def run_many(case):
        count, names, params = case
        options = [{'register': 1}, {'register': 2, 'close': True},
                   {'kill': True, 'register': 1}, {'late': True},
                   {'close': True, 'wait': False}, {'token': 'x'},
                   {'late': True, 'register': 1, 'close': True}]
        clients = {f'c{i}': {**options[i % len(options)],
                             **({'name': names[i % len(names)]}
                                if names else {})}
                   for i in range(count)}
        result = execute(harness, {'clients': clients, **dict(params)},
                         Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return count, result.events, 1, case

    check.enumerate('many clients', [
        (count, names, params)
        for count in (20, 60, *([400] if check.thorough else []))
        for names in ((), ('n',), ('a', 'b', 'a/b', '', ' '), unusual)
        for params in ((), (('slow', True),), (('stop', True),),
                       (('token', 'x'),),
                       (('running', False), ('start', True)))],
        run_many, chunk=1, time_limit=120)
    check.assumptions = ['events are registered with a scripted backend']
