"""C14: timeseries query"""

import itertools


def run(check):
    from hat.event import common
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    A, AX, B = ('a',), ('a', 'x'), ('b',)
    Order, OrderBy = common.Order, common.OrderBy

    def params(order_by, types, ranges, source_ranges, limits=(None,)):
        result = []
        for order in Order:
            for t, (f, to), (sf, sto), limit in itertools.product(
                    types, ranges, source_ranges, limits):
                result.append(common.QueryTimeseriesParams(
                    event_types=t, t_from=lib.ts(f), t_to=lib.ts(to),
                    source_t_from=lib.ts(sf), source_t_to=lib.ts(sto),
                    order=order, order_by=order_by, max_results=limit))
        return result

    none = [(None, None)]
    small = [(None, None), (2, None), (None, 1), (2, 2)]
    full = [(None, None), (1, None), (2, None), (None, 1), (None, 2),
            (1, 2), (2, 2), (2, 1)]

    def freeze(params_list):
        return [p._replace(event_types=None if p.event_types is None
                           else tuple(p.event_types)) for p in params_list]

    groups = {
        'time': params(OrderBy.TIMESTAMP, [None], full, none) +
        params(OrderBy.TIMESTAMP, [None], none, none, (0, 1, 2, 5)) +
        params(OrderBy.TIMESTAMP, [[A]], small, small),
        'source': params(OrderBy.SOURCE_TIMESTAMP, [None], none, full) +
        params(OrderBy.SOURCE_TIMESTAMP, [None], none, none, (0, 1, 2, 5)) +
        params(OrderBy.SOURCE_TIMESTAMP, [[A]], small, small),
        'types': [p for order_by in OrderBy for p in
                  params(order_by, [None, [], [A], [B, AX], [('?',)],
                                    [('*',)], [('a', '*')], [('c',)],
                                    [('?', 'x'), ('c',)], [B, ('b', 'y')]],
                         none, none, (None, 1))]}
    groups = {k: freeze(v) for k, v in groups.items()}

    both = [('TIMESTAMP', [('*',)]), ('SOURCE_TIMESTAMP', [('*',)])]
    confs = {
        'both': lib.Conf(latest=(), timeseries=both),
        'limit': lib.Conf(latest=(), timeseries=both, max_results=2),
        'split': lib.Conf(latest=(('*',),), timeseries=[
            ('TIMESTAMP', [A]), ('SOURCE_TIMESTAMP', [B, ('a', '*')]),
            ('TIMESTAMP', [('?',)]), ('SOURCE_TIMESTAMP', [('*',)]),
            ('TIMESTAMP', [('*',)])]),
        'split2': lib.Conf(latest=(), timeseries=[
            ('SOURCE_TIMESTAMP', [('a', '?')]), ('TIMESTAMP', [('?', 'x')]),
            ('TIMESTAMP', [('a', '*'), B])], cache_size=1)}

    def run_case(case):
        conf, regs, group = case

        async def history(ctx, path, flushes, answers):
            r = lib.Runner(path, confs[conf])
            await r.open()
            for reg, flush in zip(regs, flushes):
                await r.op(reg)
                if flush:
                    await r.op('of'[flush - 1])
            n = await lib.check_timeseries(r.backend, r.model, groups[group],
                                           answers=answers)
            # unknown last event id is never found
            for p in groups[group][:2]:
                result = await r.backend.query(p._replace(
                    last_event_id=common.EventId(9, 9, 9)))
                if list(result.events) or result.more_follows:
                    raise lib.Violation('continuation after unknown event '
                                        f'returned {result}')
            await r.close()
            return n

        answers = {}
        total = 0
        patterns = list(itertools.product((0, 2), repeat=len(regs)))
        patterns.append((0,) * (len(regs) - 1) + (1,))
        for flushes in patterns:
            total += env.run_scratch(
                lambda ctx, path: history(ctx, path, flushes, answers))
        return len(regs) * len(patterns), total, len(patterns), tuple(
            map(tuple, answers.values()))

    def batches(*axes):
        return [((s, t, ti, st),) for s, t, ti, st in itertools.product(*axes)]

    def histories(alphabet, depth):
        for regs in itertools.product(alphabet, repeat=depth):
            last = {}
            ok = True
            for reg in regs:
                for s, _, t, __ in reg:
                    if last.get(s, t) > t:
                        ok = False
                    last[s] = t
            if ok:
                yield regs

    def cases():
        deep = check.thorough
        time = batches((1, 2), (A,), (1, 2, 3), (None,))
        for regs in histories(time, 4 if deep else 3):
            yield 'both', regs, 'time'
        source = batches((1,), (A,), (1,), (None, 1, 2, 3))
        for regs in histories(source, 4 if deep else 3):
            yield 'both', regs, 'source'
        mixed = batches((1, 2), (A, B), (1, 2), (None, 1, 2))
        for regs in histories(mixed, 3 if deep else 2):
            for group in ('time', 'source'):
                yield 'both', regs, group
        typed = batches((1,), (A, AX, B, ('c',)), (1,), (None, 1))
        for conf in ('split', 'split2'):
            for regs in histories(typed, 3 if deep else 2):
                yield conf, regs, 'types'
        # batches of several events
        pairs = [((1, A, 1, 2), (2, A, 1, 1)), ((1, A, 1, 1), (1, B, 1, 1)),
                 ((2, B, 2, 1), (1, A, 2, 3)), ((2, A, 1, 1), (1, A, 1, 1)),
                 ((1, A, 1, 3), (1, A, 1, 1), (1, A, 1, 2))]
        for regs in itertools.product(pairs, repeat=2):
            last = {}
            if any(last.setdefault(s, t) > t or last.update({s: t})
                   for reg in regs for s, _, t, __ in reg):
                continue
            for conf in ('both', 'limit'):
                for group in ('time', 'source'):
                    yield conf, regs, group

    check.enumerate('timeseries histories', list(cases()), run_case,
                    time_limit=120)

    # event types which are easily confused with each other

    def run_confusable(case):
        order_by, separate, ops = case

        async def fn(ctx, path):
            types = ref.confusable
            r = lib.Runner(path, lib.Conf(latest=(), timeseries=[
                (order_by, [i]) for i in types] if separate else [
                    (order_by, [('*',)])]))
            await r.open()
            n = 0
            for t, names in ((1, types), (2, types[::2]), (3, types[::-3])):
                await r.register([(1, name, t, t) for name in names])
                for op in ops:
                    await r.op(op)
                n += await lib.check_timeseries(r.backend, r.model, [
                    common.QueryTimeseriesParams(
                        event_types=i, order_by=OrderBy[order_by])
                    for i in ([[i] for i in types] if separate else [
                        None, *([i] for i in types), types[::2],
                        types[1::3]])], pages=())
            await r.close()
            return n

        n = env.run_scratch(fn)
        return 3, n, 1, case

    check.enumerate('confusable types', list(itertools.product(
        ('TIMESTAMP', 'SOURCE_TIMESTAMP'), (False, True),
        ('', 'f', 'o'))), run_confusable, time_limit=60, chunk=1)

    # histories larger than default limit of results

    def run_large(case):
        from hat.event.backends import lmdb
        count, batch, flush_at, max_results = case

        async def fn(ctx, path):
            conf = lib.Conf(latest=(), timeseries=both,
                            max_results=max_results).json(path)
            if max_results is None:
                del conf['timeseries_max_results']
            backend = await lmdb.info.create(conf, None, None)
            history = lib.large_history(count, batch)
            n = 0
            for i, events in enumerate(history):
                await backend.register(events)
                if (i + 1) * batch in flush_at:
                    await backend.flush()
            every = [e for events in history for e in events]
            for order_by, key in ((OrderBy.TIMESTAMP, lambda e: e.timestamp),
                                  (OrderBy.SOURCE_TIMESTAMP,
                                   lambda e: e.source_timestamp)):
                for types in (None, [('t', '3'), ('t', '5')]):
                    for order in Order:
                        events = sorted(
                            (e for e in every
                             if types is None or e.type in types),
                            key=lambda e: (key(e), e.id),
                            reverse=order == Order.DESCENDING)
                        n += await lib.check_pages(
                            backend, common.QueryTimeseriesParams(
                                event_types=types, order=order,
                                order_by=order_by),
                            events, (None, 0, 500, 4095, 4096, 10000),
                            f'{types}')
            await backend.async_close()
            return n

        n = env.run_scratch(fn)
        return count, n, 1, case

    check.enumerate('large histories', [
        (count, batch, flush_at, max_results)
        for count, max_results in (
            (4095, None), (4096, None), (4097, None), (2000, 999),
            *([(8193, None), (4100, 4098)] if check.thorough else []))
        for batch, flush_at in ((1, ()), (count, (count,)),
                                (1, (count // 2,)))],
        run_large, time_limit=150, chunk=1)
    check.assumptions = [
        'order of events of different servers with same time is not '
        'asserted (only that it does not depend on flushing and paging)']
