"""C32: clients of misbehaving server"""

import asyncio
import itertools

from mc.core import Violation
from mc.explore import execute
from mc.loop import Options


def run(check):
    from hat.drivers import tcp
    from hat.event import adminer
    from hat.event import common
    from hat.event import eventer
    from checks.rawchat import message, receive

    addr = tcp.Address('127.0.0.1', 23012)

    def event(n):
        return common.Event(id=common.EventId(1, n, 1), type=('a', str(n)),
                            timestamp=common.Timestamp(n, 0),
                            source_timestamp=None,
                            payload=common.EventPayloadJson(n))

    class Eventer:

        first_id = 2
        kinds = ('query', 'register', 'query')
        init = 'HatEventer.MsgInitRes'

        async def connect(self, state):
            statuses, events = state['statuses'], state['events']

            async def on_events(_, received):
                n = received[0].payload.data
                if n == 13:
                    raise Exception('callback error')
                events.append(n)

            return await eventer.connect(
                addr, 'c', subscriptions=[('*',)], events_cb=on_events,
                status_cb=lambda _, status: statuses.append(status))

        async def request(self, client, kind, n):
            if kind == 'query':
                result = await client.query(common.QueryServerParams(
                    1, last_event_id=common.EventId(1, 1, n)))
                return list(result.events), result.more_follows
            result = await client.register([common.RegisterEvent(
                ('r', str(n)), None, None)], True)
            return None if result is None else list(result)

        def number(self, type, data):
            return (data[1]['lastEventId'][1]['instance']
                    if type == 'HatEventer.MsgQueryReq' else
                    int(data[0]['type'][1]))

        def answer(self, kind, n, action):
            """Message type, data and expected result"""
            if kind == 'query':
                return ('HatEventer.MsgQueryRes',
                        common.query_result_to_sbs(common.QueryResult(
                            [event(n)], bool(n % 2))),
                        ([event(n)], bool(n % 2)))
            if action == 'fail':
                return 'HatEventer.MsgRegisterRes', ('failure', None), None
            return ('HatEventer.MsgRegisterRes',
                    ('events', [common.event_to_sbs(event(n))]), [event(n)])

    class Adminer:

        first_id = 1
        kinds = ('get', 'set', 'get')
        init = None

        async def connect(self, state):
            return await adminer.connect(addr)

        async def request(self, client, kind, n):
            try:
                if kind == 'get':
                    return await client.get_log_conf()
                return await client.set_log_conf({'n': n})
            except adminer.AdminerError as e:
                return str(e)

        def number(self, type, data):
            return None

        def answer(self, kind, n, action):
            type = ('HatEventAdminer.MsgGetLogConfRes' if kind == 'get' else
                    'HatEventAdminer.MsgSetLogConfRes')
            if action == 'fail':
                return type, ('error', f'error {n}'), f'error {n}'
            if kind == 'get':
                return type, ('success', f'{{"n": {n}}}'), {'n': n}
            return type, ('success', None), None

    kinds = {'eventer': Eventer(), 'adminer': Adminer()}

    ends = ('malformed', 'unknown', 'request', 'garbage', 'raising', 'close')

    def encode(kind, action, first, number, kinds):
        """Bytes of server's message"""
        name, *args = action
        if name in ('ok', 'fail'):
            i, = args
            type, data, _ = kind.answer(kinds[i], number[i], name)
            return message(type, data, 100 + i, first[i], False, True)
        if name == 'wrong':
            # response of other request type
            i, = args
            other = 'set' if kinds[i] == 'get' else 'get'
            type, data, _ = kind.answer(other, 7, 'ok')
            return message(type, data, 100 + i, first[i], False, True)
        if name == 'own':
            # conversation of server, same number as request
            i, = args
            type, data, _ = kind.answer(kinds[i], 8, 'ok')
            return message(type, data, 200, first[i], True, True)
        if name == 'stray':
            type, data, _ = kind.answer(kinds[0], 9, 'ok')
            return message(type, data, 201, 5000, False, True)
        if name == 'malformed':
            type, _, __ = kind.answer(kinds[0], 9, 'ok')
            return message(type, b'\xff\xff\xff', 202, first[0], False, True,
                           raw=True)
        if name == 'unknown':
            return message('Unknown.Msg', b'abc', 203, raw=True)
        if name == 'request':
            return (message('HatEventAdminer.MsgGetLogConfReq', None, 204)
                    if kind is kinds_adminer else
                    message('HatEventer.MsgRegisterReq', [], 204))
        if name == 'garbage':
            return b'\x01\x05abcde'
        if name == 'ping':
            return message('HatChatter.Ping', b'', 205, raw=True)
        if name == 'status':
            status, = args
            return message('HatEventer.MsgStatusNotify',
                           (status.lower(), None), 206, None, True, True)
        if name in ('events', 'raising'):
            n, ack = args
            return message('HatEventer.MsgEventsNotify',
                           [common.event_to_sbs(event(n))], 300 + n, None,
                           True, not ack)
        raise ValueError(name)

    kinds_adminer = kinds['adminer']

    async def harness(ctx):
        p = ctx.params
        kind = kinds[p['kind']]
        state = {'statuses': [], 'events': [], 'acks': [], 'first': {},
                 'number': {}, 'closed': False, 'conn': None}
        ready = asyncio.Event()
        count = len(p['requests'])

        async def server(conn):
            state['conn'] = conn
            try:
                if kind.init:
                    type, _, msg = await receive(conn)
                    if type != 'HatEventer.MsgInitReq':
                        raise Violation(f'first message is {type}')
                    await conn.write(message(
                        kind.init, ('success', ('operational', None)), 1,
                        msg['first'], False, False))
                while True:
                    type, data, msg = await receive(conn)
                    if type == 'HatEventer.MsgEventsAck':
                        if msg['owner'] or not msg['first'] > 300:
                            raise Violation('acknowledge of unknown message')
                        state['acks'].append(msg['first'] - 300)
                        continue
                    i = len(state['first'])
                    state['first'][i] = msg['first']
                    state['number'][i] = kind.number(type, data)
                    if state['number'][i] is None:
                        state['number'][i] = 10 + i
                    ready.set()
            except ConnectionError:
                pass
            finally:
                state['closed'] = True
                ready.set()

        srv = await tcp.listen(server, addr, bind_connections=True)
        ctx.owned('c')
        client = await kind.connect(state)
        results = {}
        tasks = {}

        async def request(i, name):
            try:
                results[i] = 'ok', await kind.request(client, name, 10 + i)
            except ConnectionError:
                results[i] = 'lost', None
            except asyncio.CancelledError:
                results[i] = 'cancelled', None
                raise
            ctx.log(i, results[i][0])

        for i, name in enumerate(p['requests']):
            tasks[i] = ctx.loop.create_task(request(i, name))
            if not p.get('points'):
                await ctx.quiesce()
        await ctx.quiesce()
        if len(state['first']) != count:
            raise Violation(f'{len(state["first"])} requests received')

        async def act():
            conn = state['conn']
            data = b''
            for j, action in enumerate(p['actions']):
                if p.get('points'):
                    await ctx.point(f'a{j}')
                try:
                    if action[0] in ('close', 'reset'):
                        if data:
                            await conn.write(data)
                            data = b''
                        if action[0] == 'close':
                            conn.close()
                        else:
                            ctx.reset('c')
                        break
                    msg = encode(kind, action, state['first'],
                                 state['number'], p['requests'])
                    if p.get('joined'):
                        data += msg
                    else:
                        await conn.write(msg)
                except ConnectionError:
                    break
                if not p.get('points') and not p.get('joined'):
                    await ctx.quiesce()
            if data:
                await conn.write(data)

        async def cancel(i):
            await ctx.point(f'x{i}')
            tasks[i].cancel()

        async def late(i):
            await ctx.point(f'l{i}')
            await request(f'late{i}', p['requests'][0])

        others = [ctx.spawn(act())]
        others += [ctx.spawn(cancel(i)) for i in p.get('cancel', ())]
        late_tasks = [ctx.loop.create_task(late(i))
                      for i in range(p.get('late', 0))]
        await ctx.join(*others)
        await ctx.quiesce()

        # model

        expected = {}
        statuses = [] if kind.init else None
        events, acks = [], []
        closed = False
        unsure = False
        last = p.get('joined') and any(i[0] in ends or i[0] == 'reset'
                                       for i in p['actions'])
        # data which is not yet processed is lost
        lossy = last and (('reset',) in p['actions'] or
                          any(i[0] == 'events' and i[2]
                              for i in p['actions']))
        for name, *args in p['actions']:
            if closed:
                break
            if name in ('ok', 'fail') and args[0] not in expected:
                i, = args
                expected[i] = kind.answer(p['requests'][i], 10 + i, name)[2]
            elif name == 'wrong':
                if args[0] not in expected:
                    closed = True
                    unsure = unsure or args[0] in p.get('cancel', ())
            elif name == 'request' and kind is kinds_adminer:
                pass  # message of other conversation
            elif name in ends or name == 'reset':
                closed = True
            elif name == 'status':
                statuses.append(common.Status[args[0]])
            elif name == 'events':
                events.append(args[0])
                if args[1]:
                    acks.append(args[0])
        if not lossy and not p.get('points'):
            if client.is_open is closed:
                raise Violation('connection is closed' if not closed else
                                'connection is open after '
                                f'{p["actions"]}')
            if kind.init:
                got = [i for i in state['statuses']]
                if got != statuses:
                    raise Violation(f'statuses {got}, expected {statuses}')
                current = ([common.Status.OPERATIONAL] + statuses)[-1]
                if client.status != current:
                    raise Violation(f'status {client.status}, expected '
                                    f'{current}')
                if state['events'] != events:
                    raise Violation(f'events {state["events"]}, expected '
                                    f'{events}')
                if not closed and state['acks'] != acks:
                    raise Violation(f'acknowledged {state["acks"]}, expected '
                                    f'{acks}')
        if closed and not unsure:
            if client.is_open or not client.is_closed:
                raise Violation('connection is not closed after '
                                f'{p["actions"]}')
            if not state['closed']:
                raise Violation('server side of connection is not closed')
        for i, task in tasks.items():
            if i in p.get('cancel', ()):
                if not task.done():
                    raise Violation(f'cancelled request {i} is pending')
                if results[i][0] == 'cancelled':
                    continue
            if not task.done():
                if not client.is_open:
                    raise Violation(f'request {i} is pending on closed '
                                    'connection')
                if i in expected:
                    raise Violation(f'request {i} is not answered')
                continue
            status, value = results[i]
            if status == 'ok':
                if i not in expected or value != expected[i]:
                    raise Violation(f'request {i} answered with {value}')
            elif not closed:
                raise Violation(f'request {i} failed on open connection')
            elif not lossy and not p.get('points') and i in expected:
                raise Violation(f'request {i} failed although answered')
        for task in late_tasks:
            if not task.done() and not client.is_open:
                raise Violation('late request is pending on closed '
                                'connection')

        # rest

        pending = [i for i, task in tasks.items() if not task.done()]
        if client.is_open:
            name = p['requests'][0]
            extra = ctx.loop.create_task(kind.request(client, name, 77))
            await ctx.quiesce()
            i = len(state['first']) - 1
            number = state['number'][i]
            type, data, result = kind.answer(name, number, 'ok')
            await state['conn'].write(message(
                type, data, 400, state['first'][i], False, True))
            await ctx.quiesce()
            if not extra.done():
                raise Violation('later request is not answered')
            got = await extra
            if got != result:
                raise Violation(f'later request answered with {got}, '
                                f'expected {result}')
            if any(tasks[i].done() for i in pending):
                raise Violation('answer of other request is used')
            state['conn'].close()
            await ctx.quiesce()
            if client.is_open:
                raise Violation('connection not closed')
        for i in pending:
            if not tasks[i].done():
                raise Violation(f'request {i} hangs after connection is lost')
            await asyncio.wait([tasks[i]])
            if results[i][0] != 'lost':
                raise Violation(f'request {i}: {results[i]}')
        for name in p['requests']:
            try:
                got = await asyncio.wait_for(kind.request(client, name, 78),
                                             1000)
            except ConnectionError:
                continue
            except asyncio.TimeoutError:
                raise Violation('request on closed connection hangs')
            raise Violation(f'request on closed connection returned {got}')
        for task in late_tasks:
            if not task.done():
                raise Violation('late request hangs')
        await client.async_close()
        await srv.async_close()

    def run_case(case):
        kind, requests, actions, joined = case
        result = execute(harness, {'kind': kind, 'requests': requests,
                                   'actions': actions, 'joined': joined},
                         Options(), [])
        if result.violation is not None:
            raise Violation(f'{kind} {actions}: {result.violation}')
        return len(actions), result.events, 1, result.outcome

    alphabets = {
        'eventer': [('ok', 0), ('ok', 1), ('ok', 2), ('fail', 1), ('own', 0),
                    ('own', 1), ('stray',), ('ping',), ('malformed',),
                    ('unknown',), ('request',), ('garbage',), ('close',),
                    ('reset',), ('status', 'STANDBY'), ('status', 'STOPPING'),
                    ('events', 1, False), ('events', 2, True),
                    ('raising', 13, True)],
        'adminer': [('ok', 0), ('ok', 1), ('ok', 2), ('fail', 0), ('fail', 1),
                    ('own', 0), ('own', 1), ('stray',), ('ping',),
                    ('wrong', 0), ('wrong', 1), ('malformed',), ('unknown',),
                    ('request',), ('garbage',), ('close',), ('reset',)]}
    last = ends + ('reset',)
    cases = []
    for name, alphabet in alphabets.items():
        for size in range(0, 4 + check.thorough):
            for actions in itertools.product(alphabet, repeat=size):
                if any(i[0] in last for i in actions[:-2]):
                    continue
                cases.append((name, kinds[name].kinds, actions,
                              len(cases) % 2 == 0))
    check.enumerate('sequences', cases, run_case, time_limit=100)

    # answers which are cut or changed

    async def bytes_harness(ctx):
        name, data, end, is_init, exact = ctx.params
        kind = kinds[name]
        state = {'statuses': [], 'events': []}
        closed = asyncio.Event()

        async def server(conn):
            try:
                if kind.init:
                    _, __, msg = await receive(conn)
                    if not is_init:
                        await conn.write(init_response)
                if not is_init:
                    for _ in kind.kinds:
                        await receive(conn)
                await conn.write(data)
                if end == 'close':
                    await conn.drain()
                    conn.close()
                elif end == 'reset':
                    await ctx.quiesce()
                    ctx.reset('c')
                while True:
                    await conn.readexactly(1)
            except ConnectionError:
                pass
            finally:
                closed.set()

        srv = await tcp.listen(server, addr, bind_connections=True)
        ctx.owned('c')
        task = ctx.loop.create_task(kind.connect(state))
        await ctx.quiesce()
        await ctx.quiesce()
        client = None
        if not task.done():
            if end or not is_init:
                raise Violation('connect hangs after connection is lost')
            task.cancel()
            await asyncio.wait([task])
            if not task.cancelled():
                raise Violation('connect is not cancelled')
            outcome = 'cancelled'
        elif task.exception():
            outcome = type(task.exception()).__name__
            if outcome == 'EventerInitError':
                outcome = str(task.exception())
        else:
            client = task.result()
            outcome = 'connected'
        if is_init:
            if exact == 'refused' and outcome in ('connected', 'cancelled'):
                raise Violation(f'init response is not refused: {outcome}')
            if exact and exact != 'refused' and outcome not in exact:
                raise Violation(f'connect: {outcome}, expected {exact}')
            if client:
                await client.async_close()
            await ctx.quiesce()
            if not closed.is_set():
                raise Violation('connection remains open')
            await srv.async_close()
            return ctx.log(outcome)

        results = []
        tasks = [ctx.loop.create_task(kind.request(client, i, 10 + j))
                 for j, i in enumerate(kind.kinds)]
        await ctx.quiesce()
        await ctx.quiesce()
        for i, task in enumerate(tasks):
            if not task.done():
                if end or not client.is_open:
                    raise Violation(f'request {i} hangs after connection is '
                                    'lost')
                results.append('pending')
            elif task.exception():
                if not isinstance(task.exception(), ConnectionError):
                    # content which can not be decoded
                    if exact is not None:
                        raise Violation(f'request {i}: {task.exception()!r}')
                results.append('lost')
            else:
                results.append(task.result())
        if exact is not None and results != exact:
            raise Violation(f'results {results}, expected {exact}')
        ctx.log([i if i in ('lost', 'pending') else 'ok' for i in results])
        await client.async_close()
        for task in tasks:
            await asyncio.wait([task], timeout=1000)
            if not task.done():
                raise Violation('request hangs after close')
        await ctx.quiesce()
        if not closed.is_set():
            raise Violation('connection remains open')
        await srv.async_close()

    init_response = message('HatEventer.MsgInitRes',
                            ('success', ('operational', None)), 1, 1, False,
                            False)

    def run_bytes(case):
        result = execute(bytes_harness, case[1:], Options(), [])
        if result.violation is not None:
            raise Violation(f'{case[0]}: {result.violation}')
        return 1, result.events, 1, result.outcome

    init_cases = {
        'success': (init_response, ['connected']),
        'error': (message('HatEventer.MsgInitRes', ('error', 'some reason'),
                          1, 1, False, False), ['some reason']),
        'nothing': (b'', None),
        'other conversation': (message(
            'HatEventer.MsgInitRes', ('success', ('operational', None)), 1, 9,
            False, False), []),
        'own conversation': (message(
            'HatEventer.MsgInitRes', ('success', ('operational', None)), 1, 1,
            True, False), []),
        'other type': (message('HatEventer.MsgStatusNotify',
                               ('operational', None), 1, 1, False, False), []),
        'events first': (message('HatEventer.MsgEventsNotify', [], 1) +
                         init_response, []),
        'malformed': (message('HatEventer.MsgInitRes', b'\xff', 1, 1, False,
                              False, raw=True), []),
        'unknown': (message('Unknown.Msg', b'', 1, 1, False, False,
                            raw=True), []),
        'ping': (message('HatChatter.Ping', b'', 1, raw=True) + init_response,
                 ['connected']),
        'garbage': (b'\x01\x05abcde', ['ConnectionError'])}

    cases = []
    for name, (data, exact) in init_cases.items():
        for end in (None, 'close', 'reset'):
            expected = exact or 'refused'  # any exception, but never success
            if name == 'nothing':
                expected = ['cancelled'] if end is None else [
                    'ConnectionError']
            cases.append((f'init {name} {end}', 'eventer', data, end, True,
                          expected))
    for i in range(len(init_response)):
        cases.append((f'init cut at {i}', 'eventer', init_response[:i],
                      'close', True, ['ConnectionError']))
        for value in range(256) if check.thorough else (
                0, 0xff, *(init_response[i] ^ (1 << j) for j in range(8))):
            data = init_response[:i] + bytes([value]) + init_response[i + 1:]
            cases.append((f'init byte {i} is {value}', 'eventer', data,
                          'close', True, None))
    check.enumerate('connect', cases, run_bytes)

    cases = []
    for name, kind in kinds.items():
        for order in itertools.permutations(range(3)):
            answers, parts, results = [], [], ['lost'] * 3
            bounds = [0]
            for i in order:
                type_, data, exp = kind.answer(kind.kinds[i], 10 + i, 'ok')
                parts.append(message(type_, data, 100 + i, kind.first_id + i,
                                     False, True))
                bounds.append(bounds[-1] + len(parts[-1]))
            stream = b''.join(parts)
            for cut in range(len(stream) + 1):
                if order != (0, 1, 2) and cut not in bounds and \
                        not check.thorough:
                    continue
                done = [i for i, end in zip(order, bounds[1:]) if end <= cut]
                for end in ('close', 'reset', None):
                    exact = [kind.answer(kind.kinds[i], 10 + i, 'ok')[2]
                             if i in done else
                             ('lost' if end else 'pending')
                             for i in range(3)]
                    cases.append((f'{name} {order} cut at {cut} {end}', name,
                                  stream[:cut], end, False, exact))
            if order != (1, 0, 2):
                continue
            for i in range(len(stream)):
                for value in (0, 0xff, stream[i] ^ 1, stream[i] ^ 0x80):
                    data = stream[:i] + bytes([value]) + stream[i + 1:]
                    cases.append((f'{name} byte {i} is {value}', name, data,
                                  'close', False, None))
    check.enumerate('answers', cases, run_bytes)

    # interleavings

    scenarios = []

    def add(name, kind, actions, inject=(), **params):
        scenarios.append((f'{kind} {name}', harness, {
            'kind': kind, 'requests': kinds[kind].kinds, 'actions': actions,
            'points': True, **params}, Options(inject=inject)))

    for kind in kinds:
        for bad in ('malformed', 'unknown', 'request', 'garbage', 'close',
                    'reset'):
            add(f'{bad}', kind, [('ok', 1), (bad,), ('ok', 0)], cancel=[2],
                late=1)
        add('stray', kind, [('own', 0), ('stray',), ('ok', 0), ('ok', 0),
                            ('ok', 2)], cancel=[1, 2])
        add('reset injected', kind, [('ok', 0), ('reset',)], inject=('a1',),
            cancel=[1])
    add('wrong', 'adminer', [('ok', 1), ('wrong', 0), ('ok', 2)], late=1)
    add('raising', 'eventer', [('ok', 1), ('raising', 13, True), ('ok', 2)],
        late=1)
    add('notifications', 'eventer', [('events', 1, True), ('ok', 1),
                                     ('status', 'STOPPING'), ('close',)],
        cancel=[1, 2], late=1)
    check.explore(scenarios, bound=2)
    check.assumptions = [
        'eventer client: response of the other request type is not considered '
        '(client does not check it)']
