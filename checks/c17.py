"""C17: acceptance and reporting of registered events"""

import asyncio
import itertools

from mc.loop import Options


def run(check):
    from hat.event import common
    from hat.event.backends import lmdb
    from checks import env
    from checks import lmdblib as lib

    Violation = lib.Violation
    A, B, C = ('a',), ('b',), ('c',)
    good = common.EventPayloadJson({'v': 1})
    bad = common.EventPayloadJson({'v': 'x'})
    condition = [{'subscriptions': [['a'], ['b', '*']],
                  'condition': {'type': 'json', 'data_path': 'v',
                                'data_type': 'number'}}]

    def holds(event):
        return event.type == C or event.payload != bad

    confs = {
        'all': lib.Conf(latest=(('*',),), timeseries=[
            ('TIMESTAMP', [('*',)])], conditions=condition, condition=holds),
        'part': lib.Conf(latest=(B,), timeseries=[
            ('SOURCE_TIMESTAMP', [A])], conditions=condition,
            condition=holds)}
    queries = [common.QueryTimeseriesParams(order=common.Order.ASCENDING),
               common.QueryTimeseriesParams(
                   order_by=common.OrderBy.SOURCE_TIMESTAMP)]

    def event(spec):
        server, session, instance, type, t, payload = spec
        return common.Event(common.EventId(server, session, instance), type,
                            lib.ts(t), lib.ts(t), payload)

    async def verify(r):
        n = await lib.check_timeseries(r.backend, r.model, queries, pages=())
        n += await lib.check_latest(r.backend, r.model, [None])
        n += await lib.check_server(r.backend, r.model, (1, 2),
                                    limits=(None,))
        for server in (1, 2, 3):
            got = await r.backend.get_last_event_id(server)
            want = r.model.logical.last_id.get(server, (server, 0, 0))
            if got != want:
                raise Violation(f'last event id {got}, expected {want}')
        return n

    def run_case(case):
        conf, batches, middle = case

        async def fn(ctx, path):
            r = lib.Runner(path, confs[conf])
            await r.open()
            for batch, ops in zip(batches, middle):
                await r.register_events([event(i) for i in batch])
                for op in ops:
                    await r.op(op)
            n = await verify(r)
            await r.op('o')
            n += await verify(r)
            if r.flushed != r.registered:
                raise Violation(f'flushed {r.flushed}, registered '
                                f'{r.registered}')
            await r.close()
            for fn in (lambda: r.backend.register([event(
                           (1, 9, 9, A, 9, good))]),
                       lambda: r.backend.register([]),
                       lambda: r.backend.flush(),
                       lambda: r.backend.get_last_event_id(1),
                       lambda: r.backend.query(common.QueryLatestParams()),
                       lambda: r.backend.query(
                           common.QueryTimeseriesParams()),
                       lambda: r.backend.query(common.QueryServerParams(1))):
                try:
                    await fn()
                except common.BackendClosedError:
                    continue
                raise Violation('operation on closed backend succeeded')
            return n, tuple(sorted(r.model.logical.retained(1)))

        n, outcome = env.run_scratch(fn)
        return len(batches) + sum(map(len, middle)) + 2, n, 1, outcome

    def cases():
        deep = check.thorough
        ids = [(1, 1), (1, 2), (2, 1), (3, 1)]
        single = [((1, s, i, A, t, good),) for s, i in ids for t in (1, 2)]
        single += [((2, 1, 1, A, 1, good),), ((1, 2, 2, A, 1, bad),),
                   ((1, 2, 2, B, 2, bad),), ((1, 2, 2, C, 1, bad),)]
        for batches in itertools.product(single, repeat=3):
            yield 'all', batches, ('', 'f', '')
            if deep:
                for middle in (('', '', ''), ('o', 'f', ''), ('', 'o', '')):
                    yield 'all', batches, middle
        for batches in itertools.product(single, repeat=2):
            for middle in itertools.product(('', 'f', 'o'), repeat=2):
                for conf in confs:
                    yield conf, batches, middle
        flat = [i[0] for i in single] + [(2, 1, 2, B, 0, bad),
                                         (1, 2, 2, B, 2, good)]
        for pair in itertools.product(flat, repeat=2):
            for conf in confs:
                yield conf, (pair, ((1, 2, 3, A, 2, good),), ()), (
                    '', '', 'f')
        for triple in itertools.product(flat[::2], repeat=3):
            yield 'all', (triple,), ('',)

    check.enumerate('acceptance histories', list(cases()), run_case,
                    time_limit=60)

    # large and many batches

    def run_large(case):
        name, count, size, flushes, stale = case

        async def fn(ctx, path):
            registered, flushed, accepted, submitted = [], [], [], []
            conf = confs[name].json(path)
            stored = name == 'all'

            async def open_backend():
                return await lmdb.info.create(
                    conf, lambda events: registered.append(list(events)),
                    lambda events: flushed.append(list(events)))

            backend = await open_backend()
            batches = []
            for n in range(count):
                server = 1 + n % 2
                events = [event((server, n + 1, i + 1, (A, B, C)[i % 3],
                                 n // 3, bad if i % 7 == 6 else good))
                          for i in range(size)]
                kept = [e for e in events]
                if stale and n > 2:
                    # already registered, other session of the same server
                    old = batches[n - 2]
                    events = old[-1:] + events + events[-1:] + old[:1]
                await backend.register(events)
                submitted.append(events)
                if registered[-1] != events or \
                        len(registered) != len(submitted):
                    raise Violation('batch is not reported')
                batches.append(kept)
                accepted += [e for e in kept if holds(e)]
                if flushes and n % flushes == flushes - 1:
                    await backend.flush()
                    if flushed != registered:
                        raise Violation(f'{len(flushed)} batches flushed, '
                                        f'{len(registered)} registered')
            for reopened in (False, True):
                for server in (1, 2):
                    last = [b for b in batches if b and
                            b[-1].id.server == server]
                    got = await backend.get_last_event_id(server)
                    if last and got != last[-1][-1].id:
                        raise Violation(f'last event id {got}')
                want = [e for e in accepted if stored]
                got, more = [], stored
                while more:
                    result = await backend.query(
                        common.QueryTimeseriesParams(
                            order=common.Order.ASCENDING,
                            last_event_id=got[-1].id if got else None))
                    more = result.more_follows
                    got.extend(result.events)
                if stored and (len(got) != len(want) or
                               set(e.id for e in got) !=
                               set(e.id for e in want)):
                    raise Violation(f'{len(got)} events stored, expected '
                                    f'{len(want)}')
                if not reopened:
                    await backend.async_close()
                    if flushed != registered:
                        raise Violation(f'{len(flushed)} batches flushed, '
                                        f'{len(registered)} registered')
                    backend = await open_backend()
            await backend.async_close()
            if registered != submitted:
                raise Violation(f'{len(registered)} batches reported of '
                                f'{len(submitted)}')
            return count * size, len(registered)

        n, outcome = env.run_scratch(fn, cpu_limit=150)
        return count, n, 1, outcome

    check.enumerate('large batches', [
        (name, count, size, flushes, stale) for name in confs
        for count, size in ((60, 5000), (3, 300), (2, 5000), (1200, 1),
                            (300, 20))
        for flushes in (0, 1, 50) for stale in (False, True)
        if not (count == 1200 and flushes == 1) and
        not (count == 60 and (flushes or stale or name == 'all'))],
        run_large, chunk=1, time_limit=120)

    # concurrent operations and closing

    async def harness(ctx):
        p = ctx.params
        registered, flushed = [], []

        async def registered_cb(events):
            registered.append(list(events))
            if p.get('slow'):
                await ctx.point('registered')

        async def flushed_cb(events):
            flushed.append(list(events))
            if p.get('slow'):
                await ctx.point('flushed')

        scratch = env.Scratch()
        path = scratch.__enter__() / 'event.db'
        ctx.cleanup = lambda: scratch.__exit__()
        conf = confs['all'].json(path)
        if p.get('period'):
            conf['flush_period'] = p['period']
        backend = await lmdb.info.create(conf, registered_cb, flushed_cb)
        state = {'closed': False}
        accepted = []
        order = []

        async def guarded(name, fn):
            await ctx.point(name)
            closed = state['closed']
            try:
                result = await fn()
            except common.BackendClosedError:
                if backend.is_open:
                    raise Violation(f'{name}: closed error')
                return None
            except Exception:
                # operation in progress while backend is closing
                if backend.is_open or closed:
                    raise
                return None
            if closed:
                raise Violation(f'{name} succeeded on closed backend')
            return result

        def register(n):
            events = [event((1, n, i, (A, B)[i % 2], 1, good))
                      for i in range(1, 3)]

            async def fn():
                if n < len(order) + 1:
                    raise Violation('invalid harness')
                order.append(n)
                before = len(registered)
                result = await backend.register(events)
                accepted.append(events)
                if events not in registered[before:]:
                    raise Violation('registered callback not called before '
                                    'return')
                return result
            return fn

        async def registers():
            for n in range(1, p['registers'] + 1):
                result = await guarded(f'r{n}', register(n))
                if result is None and backend.is_open:
                    raise Violation('register failed')

        async def flusher(i):
            before = [list(i) for i in accepted]
            mark = {}

            async def fn():
                mark['accepted'] = list(accepted)
                await backend.flush()
                for events in mark['accepted']:
                    if events not in flushed:
                        raise Violation('flush returned before flushed '
                                        'callback')
                return True

            await guarded(f'f{i}', fn)

        async def query():
            mark = {}

            async def fn():
                mark['n'] = len(accepted)
                return await backend.query(common.QueryServerParams(1))

            result = await guarded('q', fn)
            if result is None:
                return
            ids = [e.id for e in result.events]
            want = [e.id for b in accepted[:mark['n']] for e in b]
            if len(set(ids)) != len(ids):
                raise Violation('duplicates')
            if p.get('keep') and ids[:len(want)] != want:
                raise Violation(f'query {ids}, registered {want}')

        async def closer():
            await ctx.point('close')
            await backend.async_close()
            state['closed'] = True

        tasks = [ctx.spawn(registers())]
        for i in range(p.get('flushes', 0)):
            tasks.append(ctx.spawn(flusher(i)))
        if p.get('query'):
            tasks.append(ctx.spawn(query()))
        if p.get('close'):
            tasks.append(ctx.spawn(closer()))
        if p.get('period'):
            await asyncio.sleep(p['period'] * 1.5)
        await ctx.join(*tasks)
        await backend.async_close()
        if flushed != registered:
            raise Violation(f'flushed {flushed}\nregistered {registered}')
        for events in accepted:
            if registered.count(events) != 1:
                raise Violation('batch not reported once')
        # reopened
        backend = await lmdb.info.create(confs['all'].json(path), None, None)
        result = await backend.query(common.QueryTimeseriesParams(
            order=common.Order.ASCENDING))
        got = [e for e in result.events]
        want = [e for b in registered for e in b]
        if got != want:
            raise Violation(f'stored {lib.fmt(got)}, registered '
                            f'{lib.fmt(want)}')
        await backend.async_close()
        ctx.log(len(registered), len(accepted))

    scenarios = []

    def add(name, params, inject=('close', 'f', 'r')):
        scenarios.append((name, harness, params, Options(inject=inject)))

    add('flush', {'registers': 3, 'flushes': 2})
    add('flush slow', {'registers': 2, 'flushes': 2, 'slow': True})
    add('period', {'registers': 3, 'flushes': 1, 'period': 10})
    add('close', {'registers': 3, 'flushes': 1, 'close': True})
    add('close slow', {'registers': 2, 'flushes': 1, 'close': True,
                       'slow': True})
    add('close query', {'registers': 2, 'query': True, 'flushes': 1,
                        'close': True, 'keep': True})
    add('close period', {'registers': 2, 'close': True, 'period': 10})
    check.explore(scenarios, bound=2, time_limit=20)
    check.assumptions = ['operation in progress while backend is being '
                         'closed may end with any error']
