"""C19: linearisability of concurrent backend operations"""

import asyncio
import itertools

from mc.loop import Options


def run(check):
    from hat.event import common
    from hat.event.backends import lmdb
    from checks import env
    from checks import lmdblib as lib

    Violation = lib.Violation
    A, B = ('a',), ('b',)
    limit = 2
    confs = {
        'plain': lib.Conf(latest=(('*',),), timeseries=[
            ('TIMESTAMP', [('*',)]), ('SOURCE_TIMESTAMP', [A])]),
        'limit': lib.Conf(latest=(A,), timeseries=[
            ('TIMESTAMP', [('*',)], {'max_entries': limit}),
            ('SOURCE_TIMESTAMP', [('*',)])])}

    Ts = common.QueryTimeseriesParams
    S = common.QueryServerParams
    ASC, DESC = common.Order.ASCENDING, common.Order.DESCENDING
    SRC = common.OrderBy.SOURCE_TIMESTAMP
    queries = {
        'latest': common.QueryLatestParams(),
        'asc': Ts(order=ASC),
        'desc': Ts(),
        'src asc': Ts(order_by=SRC, order=ASC),
        'src desc': Ts(order_by=SRC),
        'asc 2': Ts(order=ASC, max_results=2),
        'desc 2': Ts(max_results=2),
        'src 2': Ts(order_by=SRC, order=ASC, max_results=2),
        'server': S(1),
        'server 2': S(1, max_results=2),
        'persisted': S(1, persisted=True),
        'persisted 2': S(1, persisted=True, max_results=2)}

    # batches of (type, source timestamp)
    batches_specs = [
        [(A, 5), (B, 4)],
        [(A, 3)],
        [(B, 9), (A, 1)],
        [(A, 6), (A, 2)],
        [(B, 7)]]
    batches = [
        [common.Event(common.EventId(1, i + 1, j + 1), type,
                      lib.ts(i // 2 + 1), lib.ts(st), None)
         for j, (type, st) in enumerate(specs)]
        for i, specs in enumerate(batches_specs)]

    class History:

        def __init__(self, conf):
            self.conf = conf
            self.states = []
            model = lib.Model(conf)
            self.states.append(model.logical.copy())
            for batch in batches:
                model.register(batch)
                self.states.append(model.logical.copy())
            self.started = 0
            self.completed = 0
            self.flushed = 0

        def partition(self, order_by):
            for i, (name, _, *rest) in enumerate(self.conf.timeseries):
                if name == order_by.name:
                    return lib.definition(self.conf, i), bool(rest)

        def cleaned(self, n):
            """Ids of events which cleanup can remove from partitions after
            registration of n batches {definition: ids}"""
            result = {}
            for i, (_, __, *rest) in enumerate(self.conf.timeseries):
                if not rest:
                    continue
                definition = lib.definition(self.conf, i)
                entries = sorted(
                    self.states[n].parts.get(definition, {}).values(),
                    key=lambda i: (i[0], i[1].id))
                result[definition] = {e.id for _, e in entries[:-limit]}
            return result

        def retained(self, n, cleaned):
            store = self.states[n]
            ids = {e.id: e for e in store.latest.values()}
            for definition, part in store.parts.items():
                removed = cleaned.get(definition, ())
                ids.update((e.id, e) for _, e in part.values()
                           if e.id not in removed)
            return ids

        def check(self, params, result, first, last, flushed, what):
            """Result has to be valid for one of first..last registered
            batches"""
            events = list(result.events)
            ids = [e.id for e in events]
            lib.check_unique(events, what)
            if isinstance(params, common.QueryLatestParams):
                got = {e.id: e for e in events}
                for n in range(first, last + 1):
                    if got == {e.id: e
                               for e in self.states[n].latest.values()}:
                        return
                raise Violation(f'{what}: {lib.fmt(events)} was never valid')
            limit = params.max_results
            if limit is not None and (len(events) > limit or (
                    result.more_follows and len(events) < limit)):
                raise Violation(f'{what}: {len(events)} results, more '
                                f'follows {result.more_follows}')
            if limit is None and result.more_follows:
                raise Violation(f'{what}: more follows')
            cleaned = self.cleaned(last)
            reasons = []
            for n in range(first, last + 1):
                if isinstance(params, common.QueryServerParams):
                    key = {e.id: e.id for i in self.states
                           for e in self.retained(n, {}).values()}
                    low = flushed if params.persisted else n
                    required = dict(self.retained(low, cleaned))
                    allowed = {}
                    for i in range(flushed, n + 1):
                        allowed.update(self.retained(i, {}))
                    if params.persisted:
                        # replacement of latest event can already be flushed
                        required = {i: e for i, e in required.items() if all(
                            i in self.retained(j, cleaned)
                            for j in range(flushed, n + 1))}
                    key = {i: i for i in allowed}
                    desc = False
                else:
                    definition, _ = self.partition(params.order_by)
                    part = self.states[n].parts.get(definition, {})
                    allowed = {e.id: e for _, e in part.values()}
                    key = {e.id: (k, e.id) for k, e in part.values()}
                    required = {i: e for i, e in allowed.items()
                                if i not in cleaned.get(definition, ())}
                    desc = params.order == DESC
                wrong = [e for e in events if allowed.get(e.id) != e]
                if wrong:
                    reasons.append(f'unexpected {lib.fmt(wrong)}')
                    continue
                keys = [key[i] for i in ids]
                if keys != sorted(keys, reverse=desc):
                    reasons.append('wrong order')
                    continue
                missing = [e for i, e in required.items() if i not in ids]
                if limit is not None and len(events) == limit:
                    # other events are after the last one
                    before = [e for e in missing if (
                        key[e.id] > keys[-1] if desc else
                        key[e.id] < keys[-1])]
                    if before:
                        reasons.append(f'missing {lib.fmt(before)}')
                        continue
                    if missing and not result.more_follows:
                        reasons.append('not more follows')
                        continue
                    if (result.more_follows and
                            len(allowed) <= len(events)):
                        reasons.append('more follows')
                        continue
                    return
                if missing:
                    reasons.append(f'missing {lib.fmt(missing)}')
                    continue
                return
            raise Violation(f'{what}: result {lib.fmt(events)} '
                            f'more_follows={result.more_follows} is not '
                            f'valid at any moment ({first}..{last} batches):'
                            f' {"; ".join(reasons)}')

    async def harness(ctx):
        p = ctx.params
        conf = confs[p['conf']]
        scratch = env.Scratch()
        path = scratch.__enter__() / 'event.db'
        ctx.cleanup = lambda: scratch.__exit__()
        history = History(conf)
        ctx.loop.preemption = False
        backend = await lmdb.info.create(conf.json(path), None, None)
        await asyncio.sleep(1)

        async def register():
            batch = batches[history.started]
            history.started += 1
            await backend.register(batch)
            history.completed += 1

        async def flush():
            n = history.completed
            await backend.flush()
            history.flushed = max(history.flushed, n)

        for op in p['before']:
            await {'r': register, 'f': flush}[op]()
        ctx.loop.preemption = True

        querying = asyncio.Event()

        async def late():
            # other operations are started during the query
            if p.get('late'):
                await querying.wait()
                for _ in range(10):
                    await asyncio.sleep(0)

        async def registers():
            await late()
            for i in range(p['registers']):
                await ctx.point(f'r{i}')
                await register()

        async def flusher(i):
            await late()
            await ctx.point(f'f{i}')
            await flush()

        async def query(name):
            params = queries[name]
            await ctx.point('q' + name)
            first, flushed = history.completed, history.flushed
            querying.set()
            result = await backend.query(params)
            history.check(params, result, first, history.started, flushed,
                          f'query {name}')
            ctx.log(name, len(result.events))

        async def pages(name):
            params = queries[name]._replace(max_results=1)
            await ctx.point('q' + name)
            first, flushed = history.completed, history.flushed
            events = []
            while True:
                result = await backend.query(params)
                events.extend(result.events)
                if not result.more_follows:
                    break
                if len(result.events) != 1:
                    raise Violation(f'pages of {name}: {result}')
                params = params._replace(
                    last_event_id=result.events[-1].id)
                await ctx.point('q' + name)
            if name.startswith('src'):
                # events registered between pages can be before the last one
                ids = [e.id for e in events]
                lib.check_unique(events, f'pages of {name}')
                definition, _ = history.partition(SRC)
                for _, e in history.states[first].parts[definition].values():
                    if e.id not in ids:
                        raise Violation(f'pages of {name}: missing '
                                        f'{lib.fmt([e])} in '
                                        f'{lib.fmt(events)}')
            else:
                history.check(queries[name], common.QueryResult(events,
                                                                False),
                              first, history.started, flushed,
                              f'pages of {name}')
            ctx.log(name, len(events))

        tasks = [ctx.spawn(registers())]
        tasks += [ctx.spawn(flusher(i)) for i in range(p['flushes'])]
        tasks += [ctx.spawn(query(i)) for i in p.get('queries', ())]
        tasks += [ctx.spawn(pages(i)) for i in p.get('pages', ())]
        if p.get('cleanup'):
            await asyncio.sleep(lib.CLEANUP_PERIOD - 1)
        await ctx.join(*tasks)
        ctx.loop.preemption = False
        await backend.async_close()

    scenarios = []

    def add(name, params, inject=('f', 'q', 'r'), **kwargs):
        scenarios.append((name, harness, params, Options(
            inject=inject, **kwargs)))

    for conf in confs:
        extra = ({'early_timers': lib.CLEANUP_PERIOD} if conf == 'limit'
                 else {})
        cleanup = conf == 'limit'
        for name in queries:
            for before in ('rr', 'rrfr'):
                add(f'{conf} {before} {name}', {
                    'conf': conf, 'before': before, 'registers': 2,
                    'flushes': 1, 'queries': [name], 'cleanup': cleanup},
                    **extra)
    for name in ('asc', 'src asc', 'src desc', 'server'):
        add(f'pages {name}', {'conf': 'plain', 'before': 'rrfr',
                              'registers': 1, 'flushes': 1,
                              'pages': [name]})
    for first, second in (('server', 'asc'), ('src desc', 'persisted')):
        add(f'two {first} {second}', {
            'conf': 'plain', 'before': 'rr', 'registers': 2, 'flushes': 2,
            'queries': [first, second]})
    check.explore(scenarios, bound=2, extra=1, time_limit=45)

    # executor jobs preempted by event loop at any function call
    scenarios.clear()
    for name in ('asc', 'desc', 'src asc', 'server', 'persisted'):
        for before in ('rr', 'rrfr'):
            for ops in ('r', 'f', 'rf') if check.thorough else ('r', 'rf'):
                add(f'preempt {before} {name} {ops}', {
                    'conf': 'plain', 'before': before,
                    'registers': 'r' in ops, 'flushes': 'f' in ops,
                    'queries': [name], 'late': True}, inject=(),
                    preempt='/backends/lmdb/')
    check.explore(scenarios, bound=1, extra=1, time_limit=30)
    check.assumptions = ['event which exceeds partition limits may or may '
                         'not be returned while cleanup is running']
