"""Values through real eventer client and server (default schedule, each value
is one scenario step) and through real LMDB backend."""

import itertools
import pathlib
import shutil
import tempfile

from mc.core import Violation


def run(check, types, payloads, stamps, params):
    from hat.drivers import tcp
    from hat.event import common
    from hat.event import eventer
    from hat.event.backends import lmdb
    from checks.c05 import same
    from checks import env
    from mc.explore import execute
    from mc.loop import Options

    addr = tcp.Address('127.0.0.1', 23012)
    big = (1 << 63) - 1
    ids = [(1, 1, 1), (0, 0, 0), (big, big, big), (1 << 32, 256, 255)]

    async def wire(ctx):
        case = ctx.params
        seen = {}

        async def on_register(info, events):
            seen['info'] = info
            seen['register'] = list(events)
            return seen['result']

        async def on_query(info, params):
            seen['query'] = params
            return seen['query_result']

        async def on_events(client, events):
            seen.setdefault('events', []).append(list(events))

        srv = await eventer.listen(addr, status=case.get(
            'status', common.Status.OPERATIONAL), register_cb=on_register,
            query_cb=on_query)
        name = case.get('name', 'c')
        token = case.get('token')
        subs = case.get('subscriptions', [('*',)])
        client = await eventer.connect(
            addr, name, client_token=token, subscriptions=subs,
            server_id=case.get('server_id'),
            persisted=case.get('persisted', False), events_cb=on_events)
        info, = srv.get_conn_infos()
        for what, got, exp in [
                ('client name', info.client_name, name),
                ('token', info.client_token, token),
                ('server id', info.server_id, case.get('server_id')),
                ('persisted', info.persisted, case.get('persisted', False)),
                ('status', client.status, case.get(
                    'status', common.Status.OPERATIONAL))]:
            if not same(exp, got):
                raise Violation(f'{what} {exp!r} arrived as {got!r}')
        for t in types[:30]:
            got = info.subscription.matches(t)
            exp = common.create_subscription(subs).matches(t)
            if got is not exp:
                raise Violation(f'subscriptions {subs} arrived as '
                                f'{list(info.subscription.get_query_types())}')

        def expect(what, exp, got):
            if not same(exp, got):
                raise Violation(f'{what}: {exp!r}\narrived as {got!r}'[:600])

        if 'events' in case:
            events = case['events']
            regs = [common.RegisterEvent(i.type, i.source_timestamp, i.payload)
                    for i in events]
            seen['result'] = events
            result = await client.register(regs, with_response=True)
            expect('register request', regs, seen['register'])
            expect('register response', events, list(result))
            for with_ack in (False, True):
                seen['events'] = []
                await srv.notify_events(events, case.get('persisted', False),
                                        with_ack)
                await ctx.quiesce()
                expect('notified events', [events] if events else [],
                       seen['events'])
            for more in (False, True):
                seen['query_result'] = common.QueryResult(events, more)
                got = await client.query(common.QueryLatestParams())
                expect('query result', seen['query_result'],
                       got._replace(events=list(got.events)))
            seen['result'] = None
            expect('register failure', None,
                   await client.register(regs, with_response=True))
        for p in case.get('params', []):
            seen['query_result'] = common.QueryResult([], False)
            await client.query(p)
            expect('query params', p, seen['query'])
        await client.async_close()
        await srv.async_close()

    def event(n, type, stamp, payload):
        return common.Event(common.EventId(*ids[n % len(ids)]), type, stamp,
                            None if n % 2 else stamps[-1], payload)

    cases = [{'events': [event(n, types[n % len(types)],
                               stamps[n % len(stamps)], payload)]}
             for n, payload in enumerate(payloads)]
    cases += [{'events': [event(n, t, stamps[0], None)]}
              for n, t in enumerate(types)]
    cases.append({'events': []})
    cases.append({'events': [event(n, types[0], stamps[0], p)
                             for n, p in enumerate(payloads[:20])]})
    cases += [{'params': params[i:i + 20]}
              for i in range(0, len(params), 20)]
    cases += [{'status': i} for i in common.Status]
    cases += [{'name': i, 'token': j} for i in ('', 'x', 'č\U0001f600')
              for j in (None, '', 'x', 'č')]
    cases += [{'server_id': i, 'persisted': j, 'subscriptions': s}
              for i in (None, 0, 1, -1, big) for j in (False, True)
              for s in ([], [()], [('*',)], [('a', '?'), ('', '*')])]

    def run_wire(case):
        result = execute(wire, case, Options(), [])
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, result.outcome

    check.enumerate('wire', cases, run_wire)

    # storage

    def store_case(case):
        payload, type, stamp, source = case
        ev = common.Event(common.EventId(1, 1, 1), type, stamp, source,
                          payload)

        def body(ctx, path):
            async def harness():
                conf = env.lmdb_conf(path, latest=[('*',)],
                                     timeseries=[('TIMESTAMP', [('*',)])])
                for attempt in range(3):
                    backend = await lmdb.info.create(conf, None, None)
                    if attempt == 0:
                        await backend.register([ev])
                    for p in (common.QueryLatestParams(),
                              common.QueryTimeseriesParams(),
                              common.QueryServerParams(1)):
                        got = await backend.query(p)
                        if not same([ev], list(got.events)):
                            raise Violation(f'{ev} is stored as '
                                            f'{got.events}'[:600])
                    await backend.async_close()
            return harness()

        env.run_scratch(body)
        return 1, 9, 1, case

    cases = [(p, types[n % len(types)], stamps[n % len(stamps)],
              [None, *stamps][n % (len(stamps) + 1)])
             for n, p in enumerate(payloads)]
    cases += [(None, t, stamps[0], None) for t in types]
    check.enumerate('storage', cases, store_case)
