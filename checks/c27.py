"""C27: adminer requests"""

import asyncio
import logging.config  # NOQA

from mc.core import Violation
from mc.explore import execute
from mc.loop import Options


def run(check):
    from hat.drivers import tcp
    from hat.event import adminer
    from hat.event.server.adminer_server import create_adminer_server

    addr = tcp.Address('127.0.0.1', 23014)

    def answer(n):
        return {'n': n}

    async def harness(ctx):
        p = ctx.params
        state = {'conf': answer(0), 'calls': 0, 'writes': [0]}

        async def on_get():
            state['calls'] += 1
            n = state['calls']
            if n in p.get('slow', ()):
                await ctx.point(f's{n}')
            if n in p.get('fail', ()):
                raise Exception(f'error {n}')
            return state['conf']

        async def on_set(conf):
            state['calls'] += 1
            n = state['calls']
            if n in p.get('slow', ()):
                await ctx.point(f's{n}')
            if conf['n'] < 0:
                raise Exception(f'error {conf["n"]}')
            state['conf'] = conf
            state['writes'].append(conf['n'])

        # short queues and buffers - sending of requests is blocked
        kwargs = {'receive_queue_size': 1} if p.get('blocked') else {}
        srv = await adminer.listen(addr, get_log_conf_cb=on_get,
                                   set_log_conf_cb=on_set, **kwargs)
        lost = set()

        async def request(name, conn, i, kind):
            """kind: get or number to set"""
            if i in p.get('points', ()):
                await ctx.point(f'{name}.{i}')
            known = len(state['writes']) - 1
            try:
                if kind == 'get':
                    got = await conn.get_log_conf()
                    # value which was current at some time of request
                    if got['n'] not in state['writes'][known:]:
                        raise Violation(f'get returned {got}, expected one '
                                        f'of {state["writes"][known:]}')
                else:
                    got = await conn.set_log_conf(answer(kind))
                    if got is not None:
                        raise Violation(f'set returned {got}')
                    if kind < 0:
                        raise Violation(f'set of {kind} succeeded')
                    if kind not in state['writes'][known:]:
                        raise Violation(f'set of {kind} is not applied')
            except adminer.AdminerError as e:
                if kind == 'get':
                    if not any(str(e) == f'error {n}' for n in
                               p.get('fail', ())):
                        raise Violation(f'get failed with {e}')
                elif kind >= 0 or str(e) != f'error {kind}':
                    raise Violation(f'set of {kind} failed with {e}')
                ctx.log(name, i, 'error')
                return
            except ConnectionError:
                if name not in lost:
                    raise Violation(f'request {name} {kind} failed with '
                                    f'connection error')
                ctx.log(name, i, 'lost')
                return
            ctx.log(name, i, got)

        async def client(name, reqs, end):
            ctx.owned(name)
            try:
                conn = await adminer.connect(addr, **kwargs)
            except ConnectionError:
                if srv.is_open:
                    raise
                return
            tasks = [ctx.loop.create_task(request(name, conn, i, kind))
                     for i, kind in enumerate(reqs)]
            others = []

            async def cancel(i):
                await ctx.point(f'{name}.x{i}')
                tasks[i].cancel()

            async def finish():
                await ctx.point(f'{name}.end')
                lost.add(name)
                if end == 'reset':
                    ctx.reset(name)
                elif end == 'close':
                    conn.close()
                else:
                    srv.close()

            others += [ctx.spawn(cancel(i)) for i in p.get('cancel', ())
                       if i < len(tasks)]
            if end:
                others.append(ctx.spawn(finish()))
            for i, task in enumerate(tasks):
                try:
                    await task
                except asyncio.CancelledError:
                    if i not in p.get('cancel', ()):
                        raise Violation(f'request {i} was cancelled')
                    ctx.log(name, i, 'cancelled')
            await ctx.join(*others)
            if end:
                await conn.wait_closed()
                for kind in ('get', 5):
                    try:
                        await (conn.get_log_conf() if kind == 'get' else
                               conn.set_log_conf(answer(kind)))
                    except ConnectionError:
                        continue
                    raise Violation('request on closed connection succeeded')
            elif srv.is_open and not p.get('server_end'):
                await ctx.quiesce()
                if not conn.is_open:
                    raise Violation(f'connection of {name} closed')
                if not p.get('fail'):
                    await conn.set_log_conf(answer(50))
                    got = await conn.get_log_conf()
                    if got != state['conf'] or len(p['clients']) == 1 and \
                            got != answer(50):
                        raise Violation(f'get after set returned {got}')
            await conn.async_close()

        if p.get('server_end'):
            lost.update(name for name, _, __ in p['clients'])
        await ctx.join(*[ctx.spawn(client(name, reqs, end))
                         for name, reqs, end in p['clients']])
        await ctx.quiesce()
        if not p.get('server_end') and not srv.is_open:
            raise Violation('server closed')
        await srv.async_close()

    scenarios = []

    def add(name, clients, inject=(), **params):
        options = ({'kernel_buffer': 0, 'high_water': 0}
                   if params.get('blocked') else {})
        scenarios.append((name, harness, {'clients': clients, **params},
                          Options(inject=inject, **options)))

    add('in flight', [('c0', ['get', 1, 'get', -1, 'get'], None)],
        points=[2], slow=[1, 2])
    add('in flight errors', [('c0', ['get', 1, 'get', 'get'], None)],
        points=[2], slow=[1, 2], fail=[1, 3])
    add('two clients', [('c0', ['get', 1], None), ('c1', [2, 'get'], None)],
        slow=[1, 2])
    add('cancel', [('c0', ['get', 1, 'get'], None)], slow=[1, 2],
        cancel=[0, 1])
    add('cancel set', [('c0', [1, -1, 'get'], None),
                       ('c1', ['get', 2], None)], cancel=[0, 1])
    add('cancel injected', [('c0', ['get', 1, 'get'], None)], cancel=[0, 2],
        inject=('c0.x',))
    for end in ('reset', 'close', 'server'):
        add(f'lost {end}', [('c0', ['get', 1, 'get', -1], end)], points=[2],
            slow=[1], server_end=end == 'server')
        add(f'lost {end} two', [('c0', ['get', 1], end),
                                ('c1', [2, 'get'], None)],
            slow=[1, 2], server_end=end == 'server')
        add(f'lost {end} injected', [('c0', ['get', 1], end)], slow=[1],
            points=[1], inject=('c0.end', 'c0.1'), server_end=end == 'server')
        add(f'lost {end} cancel', [('c0', ['get', 1, 'get'], end)],
            cancel=[0], slow=[1], server_end=end == 'server')

    many = ['get', 1, 'get', -1, 2, 'get', 3]
    add('blocked', [('c0', many, None)], slow=[1, 3], blocked=True)
    add('blocked cancel', [('c0', many, None)], slow=[1], cancel=[2, 4],
        blocked=True)
    for end in ('reset', 'close', 'server'):
        add(f'blocked {end}', [('c0', many, end)], slow=[1], blocked=True,
            server_end=end == 'server')

    # server of the application

    async def application(ctx):
        import logging
        initial, sequence = ctx.params
        srv = await create_adminer_server(addr, initial)
        conn = await adminer.connect(addr)
        other = await adminer.connect(addr)
        expected = initial
        for conf, valid in sequence:
            try:
                await conn.set_log_conf(conf)
                failed = False
            except adminer.AdminerError as e:
                failed = True
                if not str(e):
                    raise Violation('error without description')
            if failed is valid:
                raise Violation(f'set of {conf} '
                                f'{"failed" if failed else "succeeded"}')
            if valid:
                expected = conf
                levels = {k: v['level']
                          for k, v in conf.get('loggers', {}).items()}
                for name, level in levels.items():
                    got = logging.getLevelName(logging.getLogger(name).level)
                    if got != level:
                        raise Violation(f'logger {name} level {got}, '
                                        f'expected {level}')
            for i in (conn, other):
                got = await i.get_log_conf()
                if got != expected:
                    raise Violation(f'get returned {got}, expected '
                                    f'{expected}')
        await conn.async_close()
        await other.async_close()
        await srv.async_close()

    def level(i):
        return {'version': 1, 'disable_existing_loggers': False,
                'loggers': {'verif': {'level': i}}}

    cases = []
    confs = [(level('DEBUG'), True), (level('ERROR'), True),
             ({'version': 2}, False), (None, False),
             ({'version': 1, 'handlers': {'x': {'class': 'nope'}}}, False)]
    for i, initial in enumerate((None, {'version': 1})):
        for a in confs:
            for b in confs:
                for c in confs[:3]:
                    cases.append((initial, [a, b, c]))

    def run_application(case):
        result = execute(application, case, Options(), [])
        if result.violation is not None:
            raise Violation(result.violation)
        return 1, result.events, 1, result.outcome

    check.enumerate('application', cases, run_application)
    check.explore(scenarios, bound=2)

    # many requests in flight

    def run_many(case):
        count, others, params = case
        reqs = ['get' if i % 3 else (-i if i % 4 else i) or 7
                for i in range(count)]
        result = execute(harness, {
            'clients': [('c0', reqs, dict(params).get('end')),
                        *((f'd{i}', ['get', 100 + i], None)
                          for i in range(others))], **dict(params)},
            Options(max_steps=1_000_000), [], cpu_limit=120)
        if result.violation is not None:
            raise Violation(result.violation)
        return count, result.events, 1, case

    check.enumerate('many requests', [
        (count, others, params)
        for count, others in ((30, 0), (300, 0), (300, 10), (3, 60))
        for params in ((), (('slow', (1, 2, 9)),),
                       (('cancel', tuple(range(0, 300, 7))),),
                       (('fail', (3, 4, 20)),),
                       (('cancel', (1, 3, 5)), ('slow', (1,))),
                       (('end', 'reset'),), (('end', 'close'),),
                       (('end', 'server'), ('server_end', True)))],
        run_many, chunk=1, time_limit=120)
    check.assumptions = ['requests of one connection are processed in order']
