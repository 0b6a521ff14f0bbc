"""C18: retention of timeseries"""

import itertools


def run(check):
    from hat.event import common
    from mc.explore import BASE_TIME
    from checks import env
    from checks import lmdblib as lib

    A, B = ('a',), ('b',)
    base = int(BASE_TIME)

    def t(value):
        """Time relative to creation of database"""
        if value is None:
            return None
        return common.Timestamp(base, 0).add(value)

    queries = [common.QueryTimeseriesParams(order=order, order_by=order_by)
               for order in common.Order for order_by in common.OrderBy]
    queries += [common.QueryTimeseriesParams(event_types=((i,)),
                                             order_by=order_by)
                for i in (A, B) for order_by in common.OrderBy]

    def conf(kind, limit):
        limit = dict(limit)
        if kind == 'time':
            return lib.Conf(latest=(), timeseries=[
                ('TIMESTAMP', [('*',)], limit)])
        if kind == 'source':
            return lib.Conf(latest=(), timeseries=[
                ('SOURCE_TIMESTAMP', [('*',)], limit)])
        if kind == 'several':
            return lib.Conf(latest=(A,), timeseries=[
                ('TIMESTAMP', [A], limit), ('TIMESTAMP', [B]),
                ('SOURCE_TIMESTAMP', [('*',)], {'max_entries': 2})])
        if kind == 'neighbours':
            return lib.Conf(latest=(B,), timeseries=[
                ('TIMESTAMP', [B]), ('TIMESTAMP', [A, B], limit),
                ('SOURCE_TIMESTAMP', [('*',)])])

    async def verify(r):
        n = await lib.check_timeseries(r.backend, r.model, queries, pages=())
        n += await lib.check_latest(r.backend, r.model, [None])
        n += await lib.check_server(r.backend, r.model, (1, 2),
                                    limits=(None,))
        return n

    def run_case(case):
        kind, limit, regs, middle, end = case

        async def fn(ctx, path):
            r = lib.Runner(path, conf(kind, limit))
            await r.open()
            n = 0
            for reg, ops in zip(regs, middle):
                await r.register([(s, ty, t(ti), t(st), *rest)
                                  for s, ty, ti, st, *rest in reg])
                for op in ops:
                    await r.op(op)
            n += await verify(r)
            for op in end:
                await r.op(op)
                n += await verify(r)
            outcome = tuple(sorted(r.model.disk.retained(1)))
            await r.close()
            return n, outcome

        n, outcome = env.run_scratch(fn)
        return sum(map(len, middle)) + len(regs) + len(end), n, 1, outcome

    def limits(mins, maxs, durations):
        result = []
        for i, j, k in itertools.product(mins, maxs, durations):
            limit = {'min_entries': i, 'max_entries': j, 'duration': k}
            result.append(tuple((k, v) for k, v in limit.items()
                                if v is not None))
        return result

    all_limits = limits((None, 0, 1, 2), (None, 0, 1, 3), (None, 0, 50, 150))
    some_limits = limits((None, 1, 2), (None, 0, 1), (None, 50, 150.000001))

    def cases():
        deep = check.thorough
        times = (0, 50, 100)
        middles = ('', 'f', 'fc')

        def history(depth, times=times):
            for ts in itertools.combinations_with_replacement(times, depth):
                yield tuple(((1, A, i, None),) for i in ts)

        for limit in all_limits:
            for depth in (2, 3) + ((4,) if deep else ()):
                for regs in history(depth):
                    for middle in itertools.product(
                            middles if deep or depth < 3 else ('', 'fc'),
                            repeat=depth - 1):
                        yield 'time', limit, regs, (*middle, ''), 'fcoc'
        # boundaries of duration (cleanup is at times 100 and 200)
        for limit in limits((None, 1), (None,), (50, 99.999999, 100.000001,
                                                 0.5)):
            for regs in history(3, (0, 0.000001, 49.999999, 50, 50.000001,
                                    99.5)):
                yield 'time', limit, regs, ('', '', ''), 'fcc'
        sources = list(itertools.product((None, 0, 50, 100), repeat=3))
        for limit in some_limits:
            for st in sources:
                regs = tuple(((1, A, 100, i),) for i in st)
                for middle in (('', '', ''), ('f', '', 'f'), ('', 'fc', '')):
                    yield 'source', limit, regs, middle, 'fcc'
        # several servers with same times
        for limit in some_limits:
            for s in itertools.product((1, 2), repeat=3):
                regs = tuple(((i, A, 50, 50),) for i in s)
                yield 'time', limit, regs, ('', 'f', ''), 'fcc'
                yield 'source', limit, regs, ('', 'f', ''), 'fcc'
        types = ((1, A, 0, 0), (1, B, 0, 50), (1, A, 0, None), (1, B, 0, 0))
        for kind in ('several', 'neighbours'):
            for limit in some_limits:
                for regs in itertools.product(types, repeat=3):
                    yield kind, limit, tuple((i,) for i in regs), (
                        '', 'fc', ''), 'fco'
        # size limit (average entry size is computed from database)
        for size in (0, 1, 200, 5000, 20_000, 100_000):
            for count in (0, 1, 40, 120):
                for other in ((), (('min_entries', 2),),
                              (('max_entries', 30),)):
                    yield 'time', (('size', size), *other), (tuple(
                        (1, A, 50, None) for _ in range(count + 1)),), (
                            '',), 'fccoc'
        # number of removed entries greater than limit of single cleanup
        for count in (1023, 1024, 1025, 2100):
            for limit in ((('max_entries', 1),), (('max_entries', 0),),
                          (('duration', 10), ('min_entries', 3))):
                yield 'large', limit, count

    def run_any(case):
        if case[0] != 'large':
            return run_case(case)
        _, limit, count = case

        async def fn(ctx, path):
            r = lib.Runner(path, conf('neighbours', limit))
            await r.open()
            await r.register([(1, (A, B)[i % 2], t(0), t(0))
                              for i in range(count)])
            for op in 'fc':
                await r.op(op)
            n = await lib.check_timeseries(r.backend, r.model, queries,
                                           pages=())
            result = await r.backend.query(common.QueryServerParams(1))
            left = r.model.disk.retained(1)
            if {e.id for e in result.events} != set(left):
                raise lib.Violation('wrong retained events')
            await r.close()
            return n

        return count, env.run_scratch(fn), 1, count

    check.enumerate('retention histories', list(cases()), run_any,
                    time_limit=120)
    check.assumptions = [
        'average entry size (size limit) is computed from statistics of the '
        'database in the same way as documented']
