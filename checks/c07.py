"""C07: session processing by modules"""

import itertools

from mc.core import Violation
from mc.loop import Options


def run(check):
    from hat.event import common
    from hat.event.server.engine import create_engine
    from checks import env
    from checks import enginelib as lib

    server_id = 3
    A, B, X = ('a',), ('b',), ('x', 'y')

    def reg(recorder, types, st=None):
        return [common.RegisterEvent(t, st, common.EventPayloadJson(
            {'t': recorder.token(), 'h': 0})) for t in types]

    async def session(ctx, confs_args, request_lists, concurrent=False,
                      backend=None):
        recorder = lib.Recorder()
        behaviours = confs_args(ctx)
        confs, modules = lib.install(recorder, behaviours)
        backend = backend or env.scripted_backend()
        engine = await create_engine(
            backend, lib.EventerServerStub(), confs, server_id,
            lambda: None, lambda: None)
        if engine.server_id != server_id:
            raise Violation('wrong server id')
        requests = {}
        order = []

        async def request(i, types):
            source = common.Source(common.SourceType.EVENTER, i + 1)
            events = reg(recorder, types, common.Timestamp(i, i))
            requests[events[0].payload.data['t']] = source, events
            if concurrent:
                await ctx.point(f'r{i}')
            order.append(events[0].payload.data['t'])
            result = await engine.register(source, events)
            if result is None or [(e.type, e.source_timestamp, e.payload)
                                  for e in result] != \
                    [tuple(e) for e in events]:
                raise Violation(f'request {events}\nresult {result}')
            registered = [e for b in backend.batches for e in b]
            for e in result:
                if e not in registered:
                    raise Violation('result is not registered')

        if concurrent:
            tasks = [ctx.spawn(request(i, types))
                     for i, types in enumerate(request_lists)]
            await ctx.join(*tasks)
        else:
            for i, types in enumerate(request_lists):
                await request(i, types)
        await engine.async_close()
        for module in modules:
            if not module.is_closed:
                raise Violation('module not closed with engine')
        lib.verify_sessions(recorder.log, backend.batches, behaviours,
                            requests, server_id)
        got = [b[0].payload.data['t'] for b in backend.batches
               if isinstance(b[0].payload.data, dict)]
        if got != order:
            raise Violation(f'sessions {got}, requests {order}')
        if len(backend.batches) != len(request_lists) + 2:
            raise Violation(f'{len(backend.batches)} sessions')
        return len(recorder.log), len(backend.events), tuple(
            len(b) for b in backend.batches)

    outputs = [(), (A,), (B,), (A, B)]
    table = []       # behaviours (subscriptions, reactions)
    for subs in ([A], [B], [A, B], [('*',)]):
        types = [A, B] if len(subs) > 1 or subs == [('*',)] else list(subs)
        if subs == [('*',)]:
            for out in outputs[1:]:
                table.append((subs, {A: out, B: (X,)}))
            continue
        for outs in itertools.product(outputs, repeat=len(types)):
            table.append((subs, dict(zip(types, outs))))
    table.append(([('?', 'y'), ('b',)], {B: (X, B), X: (A,)}))
    table.append(([('x', '*'), A], {A: (X,), X: (B, X)}))

    def run_case(case):
        behaviours, styles, max_hop, request_lists = case

        def args(ctx):
            async def step(label):
                import asyncio
                await asyncio.sleep(0)
            return [lib.Behaviour(*table[b], style=style, max_hop=max_hop,
                                  step=step)
                    for b, style in zip(behaviours, styles)]

        async def fn(ctx):
            return await session(ctx, args, request_lists)

        calls, events, shape = env.run(fn)
        return events, calls, 1, shape

    n = range(len(table))
    styles2 = [('sync', 'async'), ('iter', 'sync')]

    def cases():
        for b in n:
            for style in ('sync', 'async', 'iter'):
                for hop in (1, 2, 3):
                    yield (b,), (style,), hop, ((A,), (A, B), (B, A, A))
        for bs in itertools.product(n, repeat=2):
            yield bs, styles2[sum(bs) % 2], 2, ((A, B), (B,))
        third = [0, 3, 4, 7, 10, 15, 24, len(table) - 1]
        for bs in itertools.product(
                n if check.thorough else third, repeat=3):
            yield bs, ('sync', 'async', 'iter'), 1, ((A, B),)

    check.enumerate('module tables', list(cases()), run_case, time_limit=120)

    # long cascades, large requests and many modules

    same = next(i for i, t in enumerate(table)
                if t == ([A], {A: (A,)}))
    swap = next(i for i, t in enumerate(table)
                if t == ([A, B], {A: (B,), B: (A,)}))
    grow = next(i for i, t in enumerate(table)
                if t == ([A, B], {A: (A, B), B: (A,)}))
    idle = next(i for i, t in enumerate(table) if t == ([A], {A: ()}))

    def large_cases():
        for hop in (5, 9, 17, 33, 65, 130, 300):
            for b in (same, swap):
                yield (b,), ('sync',), hop, ((A,), (B, A))
            yield (idle, swap), ('async', 'sync'), hop, ((A,),)
        for hop in (4, 6, 8, 10):
            yield (grow,), ('iter',), hop, ((A,),)
        for size in (2, 3, 10, 100, 300, 1100):
            yield (same,), ('sync',), 1, ((A, B) * (size // 2), (A,) * size)
            yield (), (), 1, ((A, B) * size,)
        for count in (4, 5, 9, 17, 40):
            yield ((idle,) * (count - 1) + (swap,), ('sync',) * count, 2,
                   ((A,), (B,)))
            yield ((swap,) + (idle,) * (count - 1), ('sync',) * count, 2,
                   ((A,), (B,)))

    check.enumerate('large sessions', list(large_cases()), run_case,
                    time_limit=120)

    # concurrent requests and suspended modules

    def async_args(indexes, hop=1, steps=('process',)):
        def args(ctx):
            async def step(label):
                if any(i in label for i in steps):
                    await ctx.point(label)
            return [lib.Behaviour(*table[b], style='async', max_hop=hop,
                                  step=step) for b in indexes]
        return args

    async def harness(ctx):
        args, request_lists = ctx.params
        backend = env.scripted_backend()

        async def before(events):
            await ctx.point('backend')

        backend.before_register = before
        result = await session(ctx, args, request_lists, True, backend)
        ctx.log(*result)

    ab = table.index(([A, B], {A: (A, B), B: (A,)}))
    ba = table.index(([A], {A: (B,)}))
    scenarios = [
        ('one', harness, (async_args([ab]), ((A,), (B,), (A, B))),
         Options()),
        ('two', harness, (async_args([ba, ab]), ((A,), (B, A))),
         Options(inject=('r',))),
        ('edges', harness, (async_args([ba], steps=('start', 'stop')),
                            ((A,), (A,), (B,))), Options(inject=('r',))),
        ('three', harness, (async_args([ba, ab, ba]), ((A,), (B,))),
         Options())]
    check.explore(scenarios, bound=2, time_limit=20)
    check.assumptions = [
        'modules are deterministic scripted reactions with bounded cascade']
