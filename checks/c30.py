"""C30: misbehaving client harms only its own connection"""

import asyncio

from mc.core import Violation
from mc.explore import execute
from mc.loop import Options


def run(check):
    from hat.drivers import chatter
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.server.engine import create_engine
    from hat.event.server.eventer_server import create_eventer_server
    from checks import env
    from checks.rawchat import message

    addr = tcp.Address('127.0.0.1', 23012)
    server_id = 7

    init = message('HatEventer.MsgInitReq', {
        'clientName': 'bad', 'clientToken': ('none', None),
        'subscriptions': [['*']], 'serverId': ('none', None),
        'persisted': False})
    bad_token = message('HatEventer.MsgInitReq', {
        'clientName': 'bad', 'clientToken': ('value', 'xyz'),
        'subscriptions': [['*']], 'serverId': ('none', None),
        'persisted': False})
    register = message('HatEventer.MsgRegisterReq', [
        {'type': ['bad', '1'], 'sourceTimestamp': ('none', None),
         'payload': ('none', None)}], 2)
    bad_payload = message('HatEventer.MsgRegisterReq', [
        {'type': ['bad', '2'], 'sourceTimestamp': ('none', None),
         'payload': ('value', ('json', '{invalid'))}], 2)
    query = message('HatEventer.MsgQueryReq', ('latest', {
        'eventTypes': ('none', None)}), 3)
    failing_query = message('HatEventer.MsgQueryReq', ('server', {
        'serverId': -1, 'persisted': False, 'maxResults': ('value', -5),
        'lastEventId': ('none', None)}), 3)
    ack = message('HatEventer.MsgEventsAck', None, 4, 77, False)
    own_ack = message('HatEventer.MsgEventsAck', None, 4, 2, False)
    unknown = message('Unknown.Msg', b'abc', 5, raw=True)
    response = message('HatEventer.MsgRegisterRes', ('failure', None), 6)
    status = message('HatEventer.MsgStatusNotify', ('operational', None), 6)
    malformed = message('HatEventer.MsgRegisterReq', b'\xff\xff\xff', 7,
                        raw=True)
    malformed_init = message('HatEventer.MsgInitReq', b'', 1, raw=True)
    pong = message('HatChatter.Ping', b'', 8, raw=True)

    behaviours = {
        'silent': [],
        'garbage': [b'\x01\x05abcde'],
        'huge length': [b'\xff' + b'\xff' * 100],
        'zero length': [b'\x00\x00\x00'],
        'not init': [register],
        'malformed init': [malformed_init],
        'bad token': [bad_token],
        'bad token register': [bad_token, register, query],
        'init twice': [init, init],
        'init register': [init, register, query],
        'unknown': [init, unknown],
        'response': [init, response],
        'status': [init, status],
        'malformed': [init, malformed],
        'bad payload': [init, bad_payload],
        'failing query': [init, failing_query, query],
        'unexpected ack': [init, ack, own_ack, query],
        'ping': [init, pong, register],
        'garbage after init': [init, b'\x01\x05abcde']}

    # violations of protocol - connection must be closed by the server
    rejected = {'garbage', 'zero length', 'not init', 'malformed init',
                'bad token', 'bad token register', 'init twice', 'unknown',
                'response', 'status', 'malformed', 'bad payload',
                'garbage after init', 'failing query'}

    async def harness(ctx):
        p = ctx.params
        backend = env.scripted_backend()
        backend_query = backend.query

        async def query_cb(params):
            if getattr(params, 'server_id', 0) == -1:
                raise Exception('query failed')
            return await backend_query(params)

        backend.query = query_cb
        srv = await create_eventer_server(addr, backend, server_id)
        engine = await create_engine(backend, srv, [], server_id,
                                     lambda: None, lambda: None)

        async def on_register(events):
            await srv.notify_events(events, False, False)

        backend.on_register = on_register
        await srv.set_status(common.Status.OPERATIONAL, engine)

        received = {}

        async def good(key, count):
            ctx.owned(key)
            received[key] = []
            conn = await eventer.connect(
                addr, key, subscriptions=[('good', '*')],
                events_cb=lambda _, events: received[key].extend(events))
            for i in range(count):
                if p.get('points'):
                    await ctx.point(f'{key}.{i}')
                reg = common.RegisterEvent(('good', key, str(i)), None, None)
                if i % 2 == 0:
                    result = await conn.register([reg], True)
                    if not result or len(result) != 1 or \
                            result[0].type != reg.type:
                        raise Violation(f'{key}: register returned {result}')
                else:
                    result = await conn.query(common.QueryServerParams(
                        server_id))
                    if not any(e.type[:2] == ('good', key)
                               for e in result.events):
                        raise Violation(f'{key}: query returned {result}')
            return conn

        async def bad(data, end):
            ctx.owned('bad')
            conn = await tcp.connect(addr)
            for i, chunk in enumerate(data):
                if p.get('points'):
                    await ctx.point(f'bad.{i}')
                try:
                    await conn.write(chunk)
                except ConnectionError:
                    break
            if end:
                if p.get('points'):
                    await ctx.point('bad.end')
                else:
                    await ctx.quiesce()
                if end == 'reset':
                    ctx.reset('bad')
                else:
                    conn.close()
            return conn

        first = ctx.spawn(good('g0', p.get('count', 2)))
        if not p.get('points'):
            await first
        offender = ctx.spawn(bad(p['data'], p['end']))
        conns = [await first]
        bad_conn = await offender
        await ctx.quiesce()
        if p['end'] or p['rejected']:
            if p['rejected'] and not p['end']:
                # server is allowed to wait before closing refused connection
                await asyncio.sleep(100)
            await ctx.quiesce()
            open_conns = [i for i in ctx.net.conns
                          if i.owner == 'bad' and not i.server._lost and
                          i.server._protocol is not None]
            if open_conns:
                raise Violation('connection of misbehaving client is still '
                                'open')
            if any(name == 'bad' for _, name in srv.get_client_names()):
                raise Violation('misbehaving client is still reported')
        conns.append(await good('g1', 3))
        more = await conns[0].register([common.RegisterEvent(
            ('good', 'last'), None, None)], True)
        if not more:
            raise Violation(f'register of client g0 returned {more}')
        await ctx.quiesce()
        expected = [e for e in backend.events if e.type[0] == 'good']
        if received['g0'] != expected:
            raise Violation(f'g0 received {received["g0"]}, expected '
                            f'{expected}')
        tail = received['g1']
        if not tail or tail != expected[-len(tail):] or len(tail) < 3:
            raise Violation(f'g1 received {tail}, expected tail of '
                            f'{expected}')
        if not srv.is_open or not engine.is_open:
            raise Violation('server closed')
        names = sorted(name for _, name in srv.get_client_names())
        if [i for i in names if i != 'bad'] != ['g0', 'g1']:
            raise Violation(f'client names {names}')
        for conn in conns:
            await conn.async_close()
        await bad_conn.async_close()
        await ctx.quiesce()
        await asyncio.sleep(100)
        if list(srv.get_client_names()):
            raise Violation('client names remain')
        await srv.async_close()
        await engine.async_close()

    # each prefix of transmitted bytes

    def cut_case(case):
        name, data, end, is_rejected = case
        result = execute(harness, {'data': data, 'end': end,
                                   'rejected': is_rejected}, Options(), [])
        if result.violation is not None:
            raise Violation(f'{name}: {result.violation}')
        return 1, result.events, 1, result.outcome

    cases = []
    for name, data in behaviours.items():
        stream = b''.join(data)
        for end in (None, 'close', 'reset'):
            cases.append((name, data, end, name in rejected))
            cases.append((f'{name} joined', [stream], end, name in rejected))
    for name in ('init register', 'unexpected ack', 'bad token register'):
        stream = b''.join(behaviours[name])
        for end in ('close', 'reset'):
            for i in range(len(stream) + 1):
                cases.append((f'{name} cut at {i}', [stream[:i]], end, False))
    for name in ('init register',):
        stream = b''.join(behaviours[name])
        step = 1 if check.thorough else 4
        for i in range(0, len(stream), step):
            for value in (0, 0xff, stream[i] ^ 1, stream[i] ^ 0x80):
                changed = stream[:i] + bytes([value]) + stream[i + 1:]
                cases.append((f'{name} byte {i} set to {value}', [changed],
                              'close', False))
    check.enumerate('behaviours', cases, cut_case)

    # many misbehaving clients

    async def crowd(ctx):
        count, together, end, names = ctx.params
        backend = env.scripted_backend()
        srv = await create_eventer_server(addr, backend, server_id)
        engine = await create_engine(backend, srv, [], server_id,
                                     lambda: None, lambda: None)

        async def on_register(events):
            await srv.notify_events(events, False, False)

        backend.on_register = on_register
        await srv.set_status(common.Status.OPERATIONAL, engine)
        received = []
        conn = await eventer.connect(
            addr, 'good', subscriptions=[('good', '*')],
            events_cb=lambda _, events: received.extend(events))

        async def work(i):
            result = await conn.register([common.RegisterEvent(
                ('good', str(i)), None, None)], True)
            if not result:
                raise Violation(f'register returned {result}')
            await ctx.quiesce()
            if not received or received[-1].type != ('good', str(i)):
                raise Violation('notification is not received')

        async def finish(bad):
            for i in bad:
                if end == 'reset':
                    ctx.reset('bad')
                i.close()
            await ctx.quiesce()

        ctx.owned('bad')
        conns = []
        for i in range(count):
            bad = await tcp.connect(addr)
            for chunk in behaviours[names[i % len(names)]]:
                try:
                    await bad.write(chunk)
                except ConnectionError:
                    break
            conns.append(bad)
            if not together:
                await ctx.quiesce()
                await finish(conns)
                conns = []
            if i % 20 == 0:
                await work(i)
        await ctx.quiesce()
        await work('together')
        await finish(conns)
        await asyncio.sleep(100)
        await work('after')
        if [name for _, name in srv.get_client_names()] != ['good']:
            raise Violation(f'client names {srv.get_client_names()}')
        left = [i for i in ctx.net.conns if i.owner == 'bad' and
                not i.server._lost and i.server._protocol is not None]
        if left:
            raise Violation(f'{len(left)} connections of misbehaving clients '
                            'are open')
        last = await eventer.connect(addr, 'last')
        await last.query(common.QueryServerParams(server_id))
        await last.async_close()
        await conn.async_close()
        await srv.async_close()
        await engine.async_close()

    def run_crowd(case):
        result = execute(crowd, case, Options(max_steps=2_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(f'{case}: {result.violation}')
        return case[0], result.events, 1, case[:3]

    check.enumerate('many misbehaving clients', [
        (count, together, end, names) for count in (20, 150, *((600,) if check.thorough else ()))
        for together in (False, True) for end in ('close', 'reset')
        for names in (['silent'], ['init register'], ['bad token'],
                      ['not init', 'garbage'], sorted(behaviours))],
        run_crowd, chunk=1, time_limit=60)

    scenarios = []
    for name in ('silent', 'not init', 'bad token register', 'init register',
                 'unknown', 'bad payload', 'failing query', 'garbage'):
        for end in ('close', 'reset'):
            scenarios.append((f'{name} {end}', harness, {
                'data': behaviours[name], 'end': end, 'rejected': False,
                'points': True, 'count': 2}, Options()))
    for name in ('init register', 'unknown'):
        scenarios.append((f'{name} injected', harness, {
            'data': behaviours[name], 'end': 'reset', 'rejected': False,
            'points': True, 'count': 1}, Options(inject=('bad.',))))
    check.explore(scenarios, bound=1, extra=2)

    # client which stops reading, buffers are full, disconnects later

    fill_payload = common.EventPayloadBinary('', b'0' * 100_000)

    async def stalled(ctx):
        p = ctx.params
        backend = env.scripted_backend()
        srv = await create_eventer_server(addr, backend, server_id,
                                          receive_queue_size=1)
        engine = await create_engine(backend, srv, [], server_id,
                                     lambda: None, lambda: None)

        async def on_register(events):
            await srv.notify_events(events, False, False)

        backend.on_register = on_register
        await srv.set_status(common.Status.OPERATIONAL, engine)
        received = {}
        conns = []

        async def stall(*_):
            await asyncio.Future()

        async def client(key, subscriptions, cb):
            ctx.owned(key)
            conn = await eventer.connect(
                addr, key, subscriptions=subscriptions, events_cb=cb,
                status_cb=stall if key == 'bad' else None,
                receive_queue_size=1)
            conns.append(conn)
            return conn

        def collect(key):
            received[key] = []
            return lambda _, events: received[key].extend(events)

        async def good(key, late):
            if late:
                await ctx.point(f'{key}.connect')
            conn = await client(key, [('good', '*')], collect(key))
            for i in range(p.get('count', 1)):
                await ctx.point(f'{key}.{i}')
                reg = common.RegisterEvent(('good', key, str(i)), None, None)
                result = await conn.register([reg], True)
                if not p['status'] and (not result or
                                        result[0].type != reg.type):
                    raise Violation(f'{key}: register returned {result}')
            if p.get('leave') == key:
                await ctx.point(f'{key}.leave')
                await conn.async_close()

        async def statuses():
            for status, e in ((common.Status.STOPPING, None),
                              (common.Status.OPERATIONAL, engine)):
                await ctx.point(f's.{status.name}')
                await srv.set_status(status, e)

        async def end():
            await ctx.point('bad.end')
            if p['end'] == 'reset':
                ctx.reset('bad')
            else:
                await bad.async_close()

        bad = await client('bad', [('*',)], stall)
        first = await client('g0', [('good', '*')], collect('g0'))
        # output to stalled client is blocked
        for i in range(100):
            filler = ctx.spawn(srv.notify_events([common.Event(
                common.EventId(99, 1, i + 1), ('fill',),
                common.Timestamp(1, 0), None, fill_payload)], False))
            await ctx.quiesce()
            if not filler.done():
                break
        else:
            raise Exception('output is not blocked')
        tasks = [ctx.spawn(good('g1', True)), ctx.spawn(end())]
        if p['status']:
            tasks.append(ctx.spawn(statuses()))
        else:
            tasks.append(ctx.spawn(good('g2', True)))
        await ctx.join(filler, *tasks)
        await ctx.quiesce()
        if not srv.is_open or not engine.is_open:
            raise Violation('server closed')
        if any(name == 'bad' for _, name in srv.get_client_names()):
            raise Violation('misbehaving client is still reported')
        expected = [e for e in backend.events if e.type[0] == 'good']
        if received['g0'] != expected:
            raise Violation(f'g0 received {received["g0"]}, expected '
                            f'{expected}')
        await first.register([common.RegisterEvent(('good', 'last'),
                                                   None, None)], True)
        await ctx.quiesce()
        if received['g0'][-1].type != ('good', 'last'):
            raise Violation('notification of g0 is missing')
        for conn in conns:
            await conn.async_close()
        await srv.async_close()
        await engine.async_close()

    scenarios = []
    for end in ('reset', 'close'):
        for status in (False, True):
            for leave in (None, 'g1'):
                scenarios.append((
                    f'stalled {end} status={status} leave={leave}', stalled,
                    {'end': end, 'status': status, 'leave': leave},
                    Options(kernel_buffer=0, high_water=0)))
    check.explore(scenarios, bound=1, extra=2, time_limit=20)
    check.assumptions = [
        'client which keeps its connection open without reading can delay '
        'other clients until its connection is closed (chatter ping, disabled '
        'here, does that)']
