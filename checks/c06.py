"""C06: event identifiers"""

import itertools


def run(check):
    from hat import aio
    from hat.event import common
    from hat.event.backends import lmdb
    from hat.event.backends import memory
    from hat.event.server.engine import create_engine
    from checks import env
    from checks import enginelib
    from checks import lmdblib as lib

    Violation = lib.Violation
    A, C, Z = ('a',), ('c',), ('z',)
    condition = [{'subscriptions': [['c']], 'condition': {
        'type': 'json', 'data_type': 'number'}}]
    limit = {'max_entries': 0}
    confs = {
        'all': lib.Conf(conditions=condition),
        'only a': lib.Conf(latest=(A, C), conditions=condition),
        'series': lib.Conf(latest=(), timeseries=[
            ('SOURCE_TIMESTAMP', [('*',)])], conditions=condition),
        'limited': lib.Conf(latest=(), timeseries=[
            ('TIMESTAMP', [('*',)], limit)], conditions=condition),
        'none': lib.Conf(latest=(), conditions=condition)}
    requests = {'a': [A], 'z': [Z], 'c': [C], 'az': [A, Z], 'zc': [Z, C],
                'ca': [C, A]}

    def run_case(case):
        kind, server_id, modules, ops = case

        async def fn(ctx, path):
            batches = []
            other = []

            def registered_cb(events):
                batches.append(list(events))

            async def open_backend():
                if kind == 'memory':
                    return await aio.call(memory.info.create,
                        {}, registered_cb, None)
                conf = confs[kind].json(path)
                return await lmdb.info.create(conf, registered_cb, None)

            behaviours = [enginelib.Behaviour(
                [A, C], {A: (Z,), C: (C, A)}) for _ in range(modules)]
            recorder = enginelib.Recorder()
            confs_, _ = enginelib.install(recorder, behaviours)

            async def open_engine():
                return await create_engine(
                    backend, enginelib.EventerServerStub(), confs_,
                    server_id, lambda: None, lambda: None)

            backend = await open_backend()
            engine = await open_engine()
            returned = []
            for op in ops:
                if isinstance(op, tuple):
                    # large requests or many of them
                    count, size = op
                    for i in range(count):
                        result = await engine.register(common.Source(
                            common.SourceType.EVENTER, 1),
                            [common.RegisterEvent((A, C, Z)[j % 3], None,
                                                  None)
                             for j in range(size)])
                        returned.extend(result)
                elif op in requests:
                    events = [common.RegisterEvent(
                        t, None, common.EventPayloadJson({'h': 0}))
                        for t in requests[op]]
                    result = await engine.register(common.Source(
                        common.SourceType.EVENTER, 1), events)
                    returned.extend(result)
                elif op == 'f':
                    await backend.flush()
                elif op == 'e':
                    await engine.async_close()
                    engine = await open_engine()
                elif op == 'o':
                    await engine.async_close()
                    await backend.async_close()
                    backend = await open_backend()
                    engine = await open_engine()
                elif op == 'b':
                    # burst interrupted by close
                    import asyncio
                    tasks = [asyncio.ensure_future(engine.register(
                        common.Source(common.SourceType.EVENTER, 1),
                        [common.RegisterEvent(Z, None,
                                              common.EventPayloadJson(
                                                  {'h': 0}))]))
                             for _ in range(2)]
                    await asyncio.sleep(0)
                    await engine.async_close()
                    for task in tasks:
                        try:
                            returned.extend(await task)
                        except Exception:
                            pass
                    engine = await open_engine()
                elif op == 'r':
                    # events of another server
                    other.append(len(other) + 1)
                    await backend.register([common.Event(
                        common.EventId(server_id + 1, len(other), 1), Z,
                        common.now(), None, None)])
            await engine.async_close()
            await backend.async_close()
            own = [b for b in batches if b[0].id.server == server_id]
            if len(own) + len(other) != len(batches):
                raise Violation('events with other server id')
            session = 0
            for batch in own:
                step = batch[0].id.session - session
                if step != 1 and not (step > 1 and 'b' in ops):
                    raise Violation(f'session {batch[0].id.session} after '
                                    f'{session}')
                session = batch[0].id.session
                want = [common.EventId(server_id, session, i + 1)
                        for i in range(len(batch))]
                if [e.id for e in batch] != want:
                    raise Violation(f'ids {[e.id for e in batch]}')
                if len({e.timestamp for e in batch}) != 1:
                    raise Violation('different timestamps')
            ids = [e.id for b in own for e in b]
            if len(set(ids)) != len(ids):
                raise Violation(f'event ids are reused: {ids}')
            flat = [e for b in own for e in b]
            by_id = {e.id: e for e in flat}
            for e in returned:
                if by_id.get(e.id) != e:
                    raise Violation(f'returned event {e} not registered')
            return len(flat), tuple(len(b) for b in own)

        n, outcome = env.run_scratch(fn, cpu_limit=150)
        return len(ops), n, 1, outcome

    def cases():
        deep = check.thorough
        ops = ['a', 'z', 'c', 'e', 'o', 'f']
        for kind in confs:
            for depth in (1, 2, 3) + ((4,) if deep else ()):
                for seq in itertools.product(ops, repeat=depth):
                    yield kind, 1, 0, seq
            for seq in itertools.product(
                    ['az', 'zc', 'ca', 'e', 'o'], repeat=4):
                if seq[-1] in 'eo' or seq[0] in 'eo':
                    continue
                if not deep and seq[1] not in 'eo':
                    continue
                yield kind, 7, 1, seq
            for seq in itertools.product(['b', 'r', 'z', 'o'], repeat=3):
                yield kind, 1, 0, seq
        for seq in itertools.product(['a', 'z', 'ca', 'e', 'b', 'r'],
                                     repeat=3):
            yield 'memory', 2, 2, seq

    check.enumerate('restart histories', list(cases()), run_case,
                    time_limit=60)
    # large sessions, many sessions

    def large_cases():
        for kind in ('all', 'none', 'limited', 'memory'):
            for server_id in (1, 300, 70_000):
                for op in ((1, 300), (300, 1), (10, 1200)):
                    yield kind, server_id, 0, (op, 'e', 'z', 'o', op, 'z')[
                        :None if kind != 'memory' else 3]
            yield kind, 1, 1, ((40, 40), 'e', (300, 2))
        for kind in ('all', 'none'):
            yield kind, 1, 0, ((1, 66_000), 'o', 'z')
            yield kind, 1, 0, ((1500, 1), 'o', (1500, 1), 'f', 'o', 'z')

    check.enumerate('large sessions', list(large_cases()), run_case, chunk=1,
                    time_limit=120)
    check.assumptions = ['clock does not go backwards',
                         'restarts of process are orderly (crashes are part '
                         'of C16)']
