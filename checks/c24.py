"""C24: memory backend"""

import itertools


def run(check):
    from hat import aio
    from hat.event import common
    from hat.event.backends import memory
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    Violation = lib.Violation
    A, AX, B = ('a',), ('a', 'x'), ('b',)
    Order, OrderBy = common.Order, common.OrderBy

    class Model(lib.Model):
        """Everything is retained"""

        def __init__(self):
            super().__init__(lib.Conf(max_results=1 << 40))
            self.events = []

        def register(self, events):
            self.events.extend(events)
            self.registered.append(list(events))
            for e in events:
                previous = self.logical.latest.get(e.type)
                if previous is None or lib.newer(previous, e):
                    self.logical.latest[e.type] = e
                self.logical.parts.setdefault('all', {})[e.id] = (
                    e.timestamp, e)
            self.disk = self.logical

        def timeseries_events(self, p):
            self.conf.timeseries = [(p.order_by.name, [('*',)])]
            key = (lambda e: e.timestamp) if p.order_by == \
                OrderBy.TIMESTAMP else (lambda e: e.source_timestamp)
            self.logical.parts = {
                'all': self.logical.parts['all'],
                lib.definition(self.conf, 0): {
                    e.id: (key(e), e) for e in self.events
                    if key(e) is not None}} if self.events else {}
            return super().timeseries_events(
                p._replace(event_types=None)) if p.event_types is None else [
                    (k, e) for k, e in super().timeseries_events(
                        p._replace(event_types=None))
                    if lib.any_match(p.event_types, e.type)]

    def params(types, ranges, source_ranges, limits=(None,)):
        return [common.QueryTimeseriesParams(
            event_types=t, t_from=lib.ts(f), t_to=lib.ts(to),
            source_t_from=lib.ts(sf), source_t_to=lib.ts(sto),
            order=order, order_by=order_by, max_results=limit)
            for order in Order for order_by in OrderBy for t in types
            for f, to in ranges for sf, sto in source_ranges
            for limit in limits]

    none = [(None, None)]
    ranges = [(None, None), (1, None), (None, 1), (2, 2), (2, 1), (1, 2)]
    queries = (params([None], ranges, none) + params([None], none, ranges) +
               params([(A,)], ranges[1:3], ranges[1:3]) +
               params([None], none, none, (0, 1, 2, 5)) +
               params([(), (A,), (B, AX), (('?',),), (('a', '*'),)], none,
                      none))
    latest = [None, [], [A], [('a', '*')], [B, A], [('?',)], [('c',)]]

    def run_case(regs):

        async def fn(ctx):
            model = Model()
            registered, flushed = [], []
            order = []

            def registered_cb(events):
                order.append('r')
                registered.append(list(events))

            async def flushed_cb(events):
                order.append('f')
                flushed.append(list(events))

            backend = await aio.call(memory.info.create, {}, registered_cb,
                                     flushed_cb)
            runner = lib.Runner(None, model.conf)
            for reg in regs:
                events = runner.make(reg)
                result = await backend.register(events)
                if list(result) != events:
                    raise Violation(f'register result {result}')
                model.register(events)
                if registered != model.registered or flushed != registered:
                    raise Violation('batch is not reported once')
            await backend.flush()
            if flushed != registered:
                raise Violation('batch is not reported once')
            for server in (1, 2, 3):
                want = max((e.id for e in model.events
                            if e.id.server == server),
                           default=common.EventId(server, 0, 0))
                got = await backend.get_last_event_id(server)
                if got != want:
                    raise Violation(f'last event id {got}, expected {want}')
            n = await lib.check_latest(backend, model, latest)
            n += await lib.check_server(backend, model, (1, 2, 3),
                                        limits=(None, 0, 1, 2))
            n += await lib.check_timeseries(backend, model, queries)
            for p in queries[:2]:
                result = await backend.query(p._replace(
                    last_event_id=common.EventId(9, 9, 9)))
                if list(result.events) or result.more_follows:
                    raise Violation('continuation after unknown event')
            await backend.async_close()
            return n, len(model.events)

        n, outcome = env.run(fn)
        return len(regs), n, 1, (outcome, n)

    def cases():
        yield ()
        time = [((s, A, t, None),) for s in (1, 2) for t in (1, 2, 3)]
        source = [((1, A, 1, st),) for st in (None, 1, 2, 3)]
        mixed = [((s, ty, t, st),) for s in (1, 2) for ty in (A, AX)
                 for t in (1, 2) for st in (None, 1, 2)]
        deep = check.thorough
        for axis, depth in ((time, 3 + deep), (source, 3 + deep),
                            (mixed, 2 + deep)):
            yield from itertools.product(axis, repeat=depth)
        batches = [((1, A, 1, 2), (1, B, 1, 1)), ((2, A, 1, 1), (1, A, 1, 1)),
                   ((1, AX, 2, None), (1, A, 2, 3), (1, A, 2, 1))]
        yield from itertools.product(batches, repeat=2)

    check.enumerate('memory histories', list(cases()), run_case)
    # large histories

    def run_large(case):
        count, batch = case

        async def fn(ctx):
            backend = await aio.call(memory.info.create, {}, None, None)
            history = lib.large_history(count, batch)
            every = [e for events in history for e in events]
            for events in history:
                await backend.register(events)
            n = 0
            for order_by, key in ((common.OrderBy.TIMESTAMP,
                                   lambda e: e.timestamp),
                                  (common.OrderBy.SOURCE_TIMESTAMP,
                                   lambda e: e.source_timestamp)):
                for types in (None, [('t', '3'), ('t', '5')]):
                    for order in common.Order:
                        events = sorted(
                            (e for e in every
                             if types is None or e.type in types),
                            key=lambda e: (key(e), e.id),
                            reverse=order == common.Order.DESCENDING)
                        n += await lib.check_pages(
                            backend, common.QueryTimeseriesParams(
                                event_types=types, order=order,
                                order_by=order_by),
                            events, (None, 0, 500, 4096, 10000), f'{types}')
            n += await lib.check_pages(
                backend, common.QueryServerParams(1), every,
                (None, 0, 500, 4096, 10000), 'server')
            result = await backend.query(common.QueryLatestParams())
            want = {e.type: e for e in every}
            got = {e.type: e for e in result.events}
            if got != want or len(result.events) != len(want):
                raise Violation('latest events differ')
            await backend.async_close()
            return n

        return count, env.run(fn, cpu_limit=120), 1, case

    check.enumerate('large histories', [
        (count, batch) for count in (300, 4097, 5000)
        for batch in (1, 50, count)], run_large, chunk=1, time_limit=60)

    # event types which are easily confused with each other

    def run_confusable(case):
        types, batch = case

        async def fn(ctx):
            model = Model()
            backend = await aio.call(memory.info.create, {}, None, None)
            runner = lib.Runner(None, model.conf)
            for t, names in ((1, types), (2, types[::2]), (3, types[::-3])):
                for i in range(0, len(names), batch):
                    events = runner.make([(1, name, t, t)
                                          for name in names[i:i + batch]])
                    await backend.register(events)
                    model.register(events)
            probes = [None, *([i] for i in types), types[::2], types[1::3]]
            n = await lib.check_latest(backend, model, probes)
            n += await lib.check_timeseries(backend, model, [
                common.QueryTimeseriesParams(event_types=i)
                for i in probes], pages=())
            await backend.async_close()
            return n

        return len(case[0]), env.run(fn), 1, case

    check.enumerate('confusable types', [
        (types, batch) for types in (ref.confusable, ref.confusable[::-1])
        for batch in (1, 1000)], run_confusable)

    # dummy backend

    def dummy_case(case):
        async def fn(ctx):
            from hat.event.backends import dummy
            calls = []
            style, batches = case

            def callback(name):
                def sync(events):
                    calls.append((name, list(events)))

                async def coro(events):
                    await ctx.point(name)
                    calls.append((name, list(events)))

                return {'sync': sync, 'async': coro}.get(style)

            backend = await aio.call(dummy.info.create,
                                     {'module': 'dummy'},
                                     callback('registered'),
                                     callback('flushed'))
            n = 0
            for count in batches:
                events = [common.Event(
                    common.EventId(1 + i % 2, 1, n + i + 1), A, lib.ts(1),
                    None, None) for i in range(count)]
                n += count
                del calls[:]
                result = await backend.register(events)
                if result is None or list(result) != events:
                    raise Violation(f'register returned {result}')
                expected = [] if style == 'none' else [
                    ('registered', events), ('flushed', events)]
                if calls != expected:
                    raise Violation(f'callbacks {calls}')
                await backend.flush()
                if calls != expected:
                    raise Violation(f'callbacks after flush {calls}')
                for server in (1, 2, 3):
                    last = await backend.get_last_event_id(server)
                    if last != common.EventId(server, 0, 0):
                        raise Violation(f'last event id {last}')
                    result = await backend.query(
                        common.QueryServerParams(server))
                    if list(result.events) or result.more_follows:
                        raise Violation(f'server query {result}')
                for p in (common.QueryLatestParams(),
                          common.QueryTimeseriesParams()):
                    result = await backend.query(p)
                    if list(result.events) or result.more_follows:
                        raise Violation(f'query {result}')
            if not backend.is_open:
                raise Violation('backend is closed')
            await backend.async_close()
            if not backend.is_closed:
                raise Violation('backend is open')
            return len(batches), len(batches) * 6, 1, style

        return env.run(fn)

    check.enumerate('dummy', [
        (style, batches) for style in ('sync', 'async', 'none')
        for n in range(4) for batches in itertools.product(
            (1, 2, 3), repeat=n)], dummy_case)

    check.assumptions = [
        'events without source timestamp are not part of results ordered by '
        'source timestamp (as documented for LMDB backend)']
