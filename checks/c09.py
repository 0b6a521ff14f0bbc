"""C09: notifications of eventer clients"""

from mc.core import Violation
from mc.loop import Options
from checks import ref


def run(check):
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer

    addr = tcp.Address('127.0.0.1', 23012)
    T = common.Timestamp

    def event(server, n, *type):
        return common.Event(id=common.EventId(server, n, 1), type=type,
                            timestamp=T(n, 0), source_timestamp=None,
                            payload=common.EventPayloadJson(n))

    def matching(conf, events):
        return [e for e in events
                if ref.matches_any(e.type, conf['subscriptions']) and
                (conf['server_id'] is None or
                 conf['server_id'] == e.id.server)]

    async def harness(ctx):
        p = ctx.params
        notified = []       # (start seq, end seq, persisted, events)
        seq = [0]

        def tick():
            seq[0] += 1
            return seq[0]

        srv = await eventer.listen(addr)

        async def client(name, conf):
            received = []
            opened = None
            closed = None

            async def on_events(client, events):
                if conf.get('slow'):
                    await ctx.point(f'{name}.slow')
                received.append((tick(), list(events)))

            ctx.owned(name)
            if conf.get('late'):
                await ctx.point(f'{name}.connect')
            started = tick()
            conn = await eventer.connect(
                addr, name, subscriptions=conf['subscriptions'],
                server_id=conf['server_id'], persisted=conf['persisted'],
                events_cb=on_events)
            opened = tick()
            if conf.get('close'):
                await ctx.point(f'{name}.close')
                closed = tick()
                if conf['close'] == 'reset':
                    ctx.reset(name)
                else:
                    await conn.async_close()
                await conn.wait_closed()
            return conf, received, started, opened, closed, conn

        clients = [ctx.spawn(client(f'c{i}', conf))
                   for i, conf in enumerate(p['clients'])]
        for i, conf in enumerate(p['clients']):
            if not conf.get('late') and not conf.get('close'):
                await clients[i]

        async def notifier(name, groups, persisted):
            for i, (events, with_ack) in enumerate(groups):
                await ctx.point(f'{name}.{i}')
                start = tick()
                record = [start, None, persisted, events]
                notified.append(record)
                await srv.notify_events(events, persisted, with_ack)
                record[1] = tick()

        notifiers = [ctx.spawn(notifier(f'n{persisted}', groups, persisted))
                     for persisted, groups in p['notify']]
        await ctx.join(*notifiers)
        await ctx.join(*clients)
        await ctx.quiesce()

        for i, task in enumerate(clients):
            conf, received, started, opened, closed, conn = task.result()
            got = [events for _, events in received]
            what = f'client {i} {conf}'
            groups = [(n, matching(conf, n[3])) for n in notified
                      if n[2] == conf['persisted']]
            groups = [(n, events) for n, events in groups if events]
            if any(not events for events in got):
                raise Violation(f'{what}: empty notification')
            ids = [e.id for events in got for e in events]
            if len(set(ids)) != len(ids):
                raise Violation(f'{what}: received duplicates {ids}')
            # received groups must be contiguous part of all groups
            expected = [events for _, events in groups]
            if not got:
                first = None
            else:
                if got[0] not in expected:
                    raise Violation(f'{what}: unexpected group {got[0]}')
                first = expected.index(got[0])
            n = len(got)
            if got and got != expected[first:first + n]:
                raise Violation(f'{what}:\nreceived {got}\n'
                                f'notified {expected}')
            for j, (record, events) in enumerate(groups):
                delivered = first is not None and first <= j < first + n
                start, end = record[0], record[1]
                if delivered and start and end is not None and end < started:
                    raise Violation(f'{what}: event notified before '
                                    f'connection received')
                if not delivered and start > opened and closed is None:
                    raise Violation(f'{what}: missing notification {events}; '
                                    f'received {got}')
            if closed is None and not conn.is_open:
                raise Violation(f'{what}: connection closed')
            for when, _ in received:
                if when < started:
                    raise Violation(f'{what}: received before connect')
            ctx.log(i, len(got), first)

        for task in clients:
            await task.result()[-1].async_close()
        await srv.async_close()
        if srv.get_conn_infos():
            raise Violation('connection infos remain after close')

    def conf(subscriptions, server_id=None, persisted=False, **kwargs):
        return dict(subscriptions=subscriptions, server_id=server_id,
                    persisted=persisted, **kwargs)

    g1 = [event(1, 1, 'a', 'b'), event(1, 2, 'b'), event(2, 3, 'a')]
    g2 = [event(2, 4, 'a', 'c'), event(1, 5, 'a', 'b')]
    g3 = [event(3, 6, 'c')]
    g4 = [event(1, 7, 'a'), event(1, 8, 'a', 'b')]
    groups = [(g1, False), (g2, False), (g3, False), (g4, False)]
    acks = [(g1, True), (g2, False), (g3, True), (g4, True)]
    mixed = [(g1, False), (g2, True), ([], True), (g4, False)]

    scenarios = []

    def add(name, clients, notify, **options):
        scenarios.append((name, harness,
                          {'clients': clients, 'notify': notify},
                          Options(merge=('x',), **options)))

    every = conf([('*',)])
    add('filters', [every, conf([('a', '?')]), conf([('a', '*')], 1),
                    conf([('b',), ('a',)], 2), conf([]), conf([()])],
        [(False, groups)])
    add('persisted', [every, conf([('*',)], None, True),
                      conf([('a', '*')], 1, True)],
        [(False, groups[:3]), (True, groups[:3])])
    add('acks', [every, conf([('a', '*')], slow=True)],
        [(False, acks)])
    add('late', [conf([('*',)], late=True), every],
        [(False, mixed)])
    add('late persisted', [conf([('a', '*')], 1, True, late=True)],
        [(True, acks), (False, groups[:2])])
    add('close', [conf([('*',)], close='close'), every],
        [(False, mixed)])
    add('reset', [conf([('*',)], close='reset'), every],
        [(False, acks)])
    add('late and close', [conf([('*',)], late=True, close='close'), every],
        [(False, groups[:3])])
    add('slow', [conf([('*',)], slow=True), conf([('*',)], slow=True)],
        [(False, [(g1, True), (g2, False), (g4, True)])])

    # notifications in the middle of other processing
    for inject in (('nFalse',), ('c0.', 'n1')):
        add(f'late injected {inject}', [conf([('*',)], late=True)],
            [(False, [(g1, False), (g2, True), (g4, False)])], inject=inject)
        add(f'reset injected {inject}', [conf([('*',)], close='reset')],
            [(False, [(g1, True), (g2, False)])], inject=inject)

    check.explore(scenarios, bound=2)

    # filter on every subscription/server id/persisted combination

    async def combination(ctx):
        p = ctx.params
        received = []
        srv = await eventer.listen(addr)
        conn = await eventer.connect(
            addr, 'c', subscriptions=p['subscriptions'],
            server_id=p['server_id'], persisted=p['persisted'],
            events_cb=lambda _, events: received.append(list(events)))
        expected = []
        events = []
        n = 0
        for server in (1, 2):
            for type in ref.types(['a', 'b', ''], 2):
                n += 1
                events.append(event(server, n, *type))
        for persisted in (False, True):
            for group in (events, events[::2], events[1:2], []):
                group = [i._replace(id=i.id._replace(instance=len(expected)))
                         for i in group]
                await srv.notify_events(group, persisted, False)
                if persisted == p['persisted']:
                    group = matching(p, group)
                    if group:
                        expected.append(group)
        await ctx.quiesce()
        if received != expected:
            raise Violation(f'client {p}:\nreceived {received}\n'
                            f'expected {expected}')
        await conn.async_close()
        await srv.async_close()
        return len(received)

    from mc.explore import execute

    def run_combination(case):
        result = execute(combination, case, Options(), [])
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, result.outcome

    queries = ref.query_types(['a', 'b'], 2)
    lists = [[], *([i] for i in queries),
             *([a, b] for i, a in enumerate(queries)
               for b in queries[i + 1::1 if check.thorough else 5])]
    cases = [conf(subs, server_id, persisted)
             for subs in lists for server_id in (None, 0, 1, 2, 3)
             for persisted in (False, True)]
    check.enumerate('filter combinations', cases, run_combination)

    # many clients, large and many notifications

    async def scale(ctx):
        count, size, calls, payload, with_ack, persisted = ctx.params
        srv = await eventer.listen(addr)
        received = [[] for _ in range(count)]
        confs = [conf([('*',)] if i % 2 else [('?', str(i)), ('x', '*')],
                      [None, 1, 2][i % 3], i % 5 == 4) for i in range(count)]
        conns = []
        for i, c in enumerate(confs):
            conns.append(await eventer.connect(
                addr, 'c', subscriptions=c['subscriptions'],
                server_id=c['server_id'], persisted=c['persisted'],
                events_cb=lambda _, events, i=i: received[i].append(
                    list(events))))
        expected = [[] for _ in range(count)]
        for call in range(calls):
            events = [event(1 + i % 2, call * size + i, 'x' if i % 3 else 'y',
                            str(i % 300))._replace(
                                payload=common.EventPayloadBinary(
                                    str(i), b'0' * payload))
                      for i in range(size)]
            await srv.notify_events(events, persisted, with_ack)
            for i, c in enumerate(confs):
                group = (matching(c, events) if c['persisted'] == persisted
                         else [])
                if group:
                    expected[i].append(group)
        await ctx.quiesce()
        for i in range(count):
            if received[i] != expected[i]:
                raise Violation(
                    f'client {i} of {count}: received '
                    f'{[len(g) for g in received[i]]} events, expected '
                    f'{[len(g) for g in expected[i]]}')
            if not conns[i].is_open:
                raise Violation(f'connection {i} of {count} closed')
        for conn in conns:
            await conn.async_close()
        await srv.async_close()
        return count * size * calls

    def run_scale(case):
        result = execute(scale, case, Options(max_steps=1_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, case

    check.enumerate('scale', [
        (*sizes, with_ack, persisted)
        for sizes in ((1, 1, 3000, 0), (6, 1, 1100, 0), (1, 5000, 2, 0),
                      (3, 1100, 3, 0), (300, 3, 5, 0), (2, 30, 2, 70000),
                      (2, 3, 3, 3_000_000), (40, 70, 30, 100))
        for with_ack in (False, True) for persisted in (False, True)],
        run_scale, chunk=1, time_limit=120)

    # event types which are easily confused with each other

    async def confusable(ctx):
        size, = ctx.params
        types = ref.confusable
        srv = await eventer.listen(addr)
        received = [[] for _ in types]
        conns = [await eventer.connect(
            addr, 'c', subscriptions=[*types[i:i + size], ('x', *types[i])],
            server_id=None, persisted=False,
            events_cb=lambda _, events, i=i: received[i].append(list(events)))
            for i in range(len(types))]
        expected = [[] for _ in types]
        n = 0
        for names in (types, types[::-2], *([i] for i in types)):
            events = []
            for name in names:
                n += 1
                events.append(event(1, n, *name))
            await srv.notify_events(events, False, False)
            for i in range(len(types)):
                group = [e for e in events if e.type in types[i:i + size]]
                if group:
                    expected[i].append(group)
        await ctx.quiesce()
        for i in range(len(types)):
            if received[i] != expected[i]:
                raise Violation(f'client subscribed to {types[i:i + size]}: '
                                f'received {received[i]}\n'
                                f'expected {expected[i]}')
        for conn in conns:
            await conn.async_close()
        await srv.async_close()
        return n

    def run_confusable(case):
        result = execute(confusable, case, Options(max_steps=1_000_000), [],
                         cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, case

    check.enumerate('confusable types', [(1,), (2,), (30,)], run_confusable,
                    chunk=1, time_limit=60)

    check.assumptions = [
        'asyncio FIFO ready queue; network delivers messages of one '
        'connection in order',
        'notifications of one persisted mode are issued sequentially']
