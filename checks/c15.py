"""C15: server query"""

import itertools


def run(check):
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    A, AX, B, D = ('a',), ('a', 'x'), ('b',), ('d',)
    limited = {'min_entries': 0, 'max_entries': 1}
    confs = {
        'latest': lib.Conf(latest=(('*',),)),
        'latest a': lib.Conf(latest=(A,)),
        'series': lib.Conf(latest=(), timeseries=[('TIMESTAMP', [A])]),
        'both': lib.Conf(latest=(A, B), timeseries=[
            ('TIMESTAMP', [('a', '*')]), ('SOURCE_TIMESTAMP', [('*',)])]),
        'limit': lib.Conf(latest=(A,), timeseries=[
            ('TIMESTAMP', [('*',)], limited)]),
        'none': lib.Conf(latest=(), timeseries=[])}

    def run_case(case):
        conf, regs, middle, end = case

        async def fn(ctx, path):
            r = lib.Runner(path, confs[conf])
            await r.open()
            n = 0
            for i, reg in enumerate(regs):
                await r.op(reg)
                for op in middle[i]:
                    await r.op(op)
            for op in ('', *end):
                if op:
                    await r.op(op)
                n += await lib.check_server(r.backend, r.model, (1, 2, 3))
            await r.close()
            return n, len(regs) + len(end), tuple(
                sorted(r.model.logical.retained(1)))

        n, ops, outcome = env.run_scratch(fn)
        return ops, n, 1, outcome

    def histories(alphabet, depth):
        for regs in itertools.product(alphabet, repeat=depth):
            last = {}
            ok = True
            for reg in regs:
                for s, _, t, __ in reg:
                    if last.get(s, t) > t:
                        ok = False
                    last[s] = t
            if ok:
                yield regs

    def cases():
        deep = check.thorough
        middles = ['', 'f', 'o']
        base = [((s, t, 1, None),) for s, t in ((1, A), (1, B), (2, A))]
        cross = [((1, A, 1, None),), ((1, A, 2, None),), ((2, A, 1, None),),
                 ((2, A, 2, 1),), ((1, AX, 2, 1),)]
        batch = [((1, A, 1, None), (1, A, 1, None)),
                 ((1, A, 1, 1), (1, B, 1, 1)), ((1, D, 1, 1),),
                 ((2, A, 2, 1), (1, B, 1, 1), (1, AX, 1, None))]
        for conf in confs:
            for depth in (1, 2, 3) + ((4,) if deep else ()):
                for regs in histories(base, depth):
                    ops = middles + (['c'] if conf == 'limit' else [])
                    for middle in itertools.product(ops, repeat=depth):
                        yield conf, regs, middle, (
                            'fc' if conf == 'limit' else 'fo')
            for regs in histories(cross, 3):
                for middle in itertools.product(
                        ['', 'fc' if conf == 'limit' else 'f'], repeat=3):
                    yield conf, regs, middle, 'f'
            for regs in itertools.product(batch, repeat=2):
                for middle in itertools.product(middles, repeat=2):
                    yield conf, regs, middle, 'f'

    check.enumerate('server histories', list(cases()), run_case,
                    time_limit=120)
    # histories larger than default limit of results

    def run_large(case):
        from hat.event import common
        from hat.event.backends import lmdb
        count, batch, flush_at, latest = case

        async def fn(ctx, path):
            conf = lib.Conf(latest=(('*',),) if latest else (),
                            timeseries=() if latest else
                            [('TIMESTAMP', [('*',)])]).json(path)
            backend = await lmdb.info.create(conf, None, None)
            history = lib.large_history(count, batch,
                                        count if latest else 7)
            n = 0
            for i, events in enumerate(history):
                await backend.register(events)
                if (i + 1) * batch in flush_at:
                    await backend.flush()
            expected = [e for events in history for e in events]
            for persisted in (False, True):
                if persisted:
                    last = max((i for i in flush_at if i <= count),
                               default=0)
                    expected = expected[:last]
                n += await lib.check_pages(
                    backend, common.QueryServerParams(1, persisted),
                    expected, (None, 0, 1000, 4095, 4096, 4097, 10000),
                    f'persisted={persisted}')
            await backend.async_close()
            return n

        n = env.run_scratch(fn)
        return count, n, 1, case

    check.enumerate('large histories', [
        (count, batch, flush_at, latest)
        for count in (4095, 4096, 4097) + (
            (8192, 8193, 9000) if check.thorough else (8193,))
        for batch, flush_at in ((1, ()), (1, (4096,)), (count, ()),
                                (count, (count,)), (1, (4095, 4097)))
        for latest in (False, True)], run_large, time_limit=120, chunk=1)

    # event types which are easily confused with each other

    def run_confusable(case):
        latest, ops = case

        async def fn(ctx, path):
            types = ref.confusable
            r = lib.Runner(path, lib.Conf(
                latest=[('*',)] if latest else [],
                timeseries=[('TIMESTAMP', [i]) for i in types[::2]]))
            await r.open()
            n = 0
            for t, names in ((1, types), (2, types[::2]), (3, types[::-3])):
                await r.register([(1, name, t, t) for name in names])
                for op in ops:
                    await r.op(op)
                n += await lib.check_server(r.backend, r.model, (1, 2),
                                            limits=(None, 7))
            await r.close()
            return n

        n = env.run_scratch(fn)
        return 3, n, 1, case

    check.enumerate('confusable types', list(itertools.product(
        (False, True), ('', 'f', 'o', 'fo'))), run_confusable,
        time_limit=60, chunk=1)
    check.assumptions = [
        'event replaced as latest by an event which is not flushed may still '
        'be reported']
