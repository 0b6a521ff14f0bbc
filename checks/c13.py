"""C13: latest query"""

import itertools


def run(check):
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    A, AX, B, E = ('a',), ('a', 'x'), ('b',), ()
    queries = [None, [], [A], [B], [A, B], [('?',)], [('*',)], [('a', '*')],
               [('?', 'x'), B], [AX, A], [('c',)], [('a', '?')],
               [A, A, ('*',)], [('c',), B, AX, ('d',)], [E], [('?',), A],
               [A, A], [AX, B, AX]]
    confs = {
        'all': lib.Conf(),
        'wild': lib.Conf(latest=(('a', '*'),)),
        'exact': lib.Conf(latest=(A, B)),
        'none': lib.Conf(latest=()),
        'series': lib.Conf(latest=(('?',),),
                           timeseries=[('TIMESTAMP', [('*',)])])}

    def run_case(case):
        conf, regs, middle, end = case

        async def fn(ctx, path):
            r = lib.Runner(path, confs[conf])
            await r.open()
            n = 0
            for i, reg in enumerate(regs):
                await r.op(reg)
                if i + 1 < len(regs):
                    for op in middle[i]:
                        await r.op(op)
            n += await lib.check_latest(r.backend, r.model, queries)
            for op in end:
                await r.op(op)
                n += await lib.check_latest(r.backend, r.model, queries)
            await r.close()
            return n, len(regs) + len(end), tuple(sorted(
                (t, e.id) for t, e in r.model.logical.latest.items()))

        n, ops, outcome = env.run_scratch(fn)
        return ops, n, 1, outcome

    def single(servers, types, times):
        return [((s, t, i, None),) for s in servers for t in types
                for i in times]

    middles = ['', 'f', 'o']

    def histories(alphabet, depth):
        for regs in itertools.product(alphabet, repeat=depth):
            # times of one server do not go backwards (checked by C17)
            last = {}
            ok = True
            for reg in regs:
                for s, _, t, __ in reg:
                    if last.get(s, t) > t:
                        ok = False
                    last[s] = t
            if ok:
                yield regs

    def cases():
        cross = single((1, 2), (A,), (1, 2)) + single((1,), (B,), (2,))
        for depth in (1, 2, 3) + ((4,) if check.thorough else ()):
            for regs in histories(cross, depth):
                for middle in itertools.product(middles, repeat=depth - 1):
                    yield 'all', regs, middle, 'fo'
        types = single((1, 2), (A, AX, B, E), (1,))
        batches = [i + j for i in types[:4] for j in types[2:6]]
        for conf in confs:
            for regs in histories(types, 3 if check.thorough else 2):
                for middle in middles:
                    yield conf, regs, (middle,) * 2, 'of'
            for regs in histories(batches, 2):
                yield conf, regs, ('f', 'o'), 'o'
        three = single((1, 2, 3), (A,), (1, 2, 3))
        for regs in histories(three, 3):
            yield 'series', regs, ('', ''), 'fo'

    check.enumerate('latest histories', list(cases()), run_case)

    # event types which are easily confused with each other

    def run_confusable(case):
        types, ops, batch = case

        async def fn(ctx, path):
            r = lib.Runner(path, lib.Conf())
            await r.open()
            probes = [None, *([i] for i in types), types[::2], types[1::3]]
            n = 0
            for t, names in ((1, types), (2, types[::2]), (3, types[::-3])):
                for i in range(0, len(names), batch):
                    await r.register([(1, name, t, None)
                                      for name in names[i:i + batch]])
                for op in ops:
                    await r.op(op)
                n += await lib.check_latest(r.backend, r.model, probes)
            await r.close()
            return n

        n = env.run_scratch(fn)
        return 3, n, 1, case

    pairs = list(itertools.combinations(ref.confusable, 2))
    check.enumerate('confusable types', [
        *((types, ops, batch)
          for types in (ref.confusable, ref.confusable[::-1])
          for ops in ('', 'f', 'o', 'fo') for batch in (1, 1000)),
        *((list(i), 'o', 1) for i in pairs[::1 if check.thorough else 3])],
        run_confusable, time_limit=60)

    # many event types

    def run_large(case):
        types, batch, rounds, ops = case

        async def fn(ctx, path):
            r = lib.Runner(path, lib.Conf(latest=(('t', '*'), ('u', '?'))))
            await r.open()
            n = 0
            t = 0
            names = [('t', str(i)) if i % 3 else ('u', str(i), 'x')[:2 + (
                i % 2)] for i in range(types)]
            probes = [None, [('t', '?')], [('u', '?')], [('?', '7')],
                      [names[-1]], [names[0], names[-1]], [('u', '*')],
                      names[:300]]
            for round in range(rounds):
                # later rounds refresh part of types
                todo = names[round * 7::round + 1]
                for i in range(0, len(todo), batch):
                    t += 1
                    await r.register([(1, name, t, None)
                                      for name in todo[i:i + batch]])
                for op in ops[round]:
                    await r.op(op)
                    n += await lib.check_latest(r.backend, r.model, probes)
                n += await lib.check_latest(r.backend, r.model, probes)
            await r.op('o')
            n += await lib.check_latest(r.backend, r.model, probes)
            await r.close()
            return n

        n = env.run_scratch(fn)
        return types, n, 1, case

    check.enumerate('many types', [
        (types, batch, rounds, ops)
        for types, batch in ((257, 1), (300, 300), (1025, 64), (5000, 5000),
                             (5000, 1000),
                             *([(70000, 7000)] if check.thorough else []))
        for rounds, ops in ((1, ('',)), (2, ('', '')), (2, ('f', '')),
                            (3, ('o', 'f', 'o')))],
        run_large, time_limit=120, chunk=1)
    check.assumptions = [
        'flush and cleanup periods are longer than the history (flush is '
        'explicit)']
