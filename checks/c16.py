"""C16: state after crash or failing write"""

import asyncio
import contextlib
import errno
import hashlib
import itertools
import os
import pickle
import signal
import traceback

from mc import iofault
from mc.loop import Options


def run(check):
    iofault.ensure()

    from hat.event import common
    from hat.event.backends import lmdb
    from checks import env
    from checks import lmdblib as lib

    Violation = lib.Violation
    A, B, C = ('a',), ('b',), ('c',)
    confs = {
        'plain': lib.Conf(latest=(('*',),), timeseries=[
            ('TIMESTAMP', [('*',)]), ('SOURCE_TIMESTAMP', [A])]),
        'limit': lib.Conf(latest=(A,), timeseries=[
            ('TIMESTAMP', [('*',)], {'max_entries': 2}),
            ('SOURCE_TIMESTAMP', [A, B])])}
    order_bys = (common.OrderBy.TIMESTAMP, common.OrderBy.SOURCE_TIMESTAMP)
    servers = (1, 2)

    # observable state

    def observe_store(store, conf):
        parts = []
        for order_by in order_bys:
            entries = {}
            for i, (name, *_) in enumerate(conf.timeseries):
                if name == order_by.name:
                    entries = store.parts.get(lib.definition(conf, i), {})
                    break
            parts.append(tuple(e for _, e in sorted(
                entries.values(), key=lambda i: (i[0], i[1].id))))
        return (
            tuple(sorted(store.latest.values(), key=lambda e: e.id)),
            tuple(parts),
            tuple(tuple(e for _, e in sorted(store.retained(i).items()))
                  for i in servers),
            tuple(tuple(store.last_id.get(i, (i, 0, 0))) for i in servers))

    async def observe(backend, conf):
        latest = await backend.query(common.QueryLatestParams())
        parts = []
        for order_by in order_bys:
            result = await backend.query(common.QueryTimeseriesParams(
                order_by=order_by, order=common.Order.ASCENDING))
            attr = ('timestamp' if order_by == common.OrderBy.TIMESTAMP else
                    'source_timestamp')
            parts.append(tuple(sorted(
                result.events, key=lambda e: (getattr(e, attr), e.id))))
        server = []
        for i in servers:
            result = await backend.query(common.QueryServerParams(i))
            server.append(tuple(result.events))
        return (tuple(sorted(latest.events, key=lambda e: e.id)),
                tuple(parts), tuple(server),
                tuple([tuple(await backend.get_last_event_id(i))
                       for i in servers]))

    extra = [(1, A, 1000, 1000), (2, B, 1000, 1000)]

    def make_extra():
        return [common.Event(common.EventId(server, 90, 1), type, lib.ts(t),
                             lib.ts(st), None)
                for server, type, t, st in extra]

    async def reopen(path, conf):
        """Observable state of reopened database and its continuation"""
        backend = await lmdb.info.create(conf.json(path), None, None)
        try:
            await asyncio.sleep(1)
            first = await observe(backend, conf)
            await backend.register(make_extra())
            await backend.flush()
            await asyncio.sleep(lib.CLEANUP_PERIOD)
            second = await observe(backend, conf)
        finally:
            await backend.async_close()
        return first, second

    def expected(conf, batches):
        """Observable states for each number of registered batches"""
        result = []
        for n in range(len(batches) + 1):
            model = lib.Model(conf)
            for batch in batches[:n]:
                model.register(batch)
            model.flush()
            model.cleanup(common.now())
            first = observe_store(model.disk, conf)
            model.register(make_extra())
            model.flush()
            model.cleanup(common.now())
            result.append((first, observe_store(model.disk, conf)))
        return result

    memo = {}

    def digest(content):
        return hashlib.sha1(content).digest()

    def observe_contents(conf_name, contents):
        """Observable state (or error) of each of contents {digest: bytes}

        Databases are opened in other process because opening of corrupted
        database can end the process.
        """
        contents = {k: v for k, v in contents.items()
                    if (conf_name, k) not in memo}
        items = list(contents.items())
        while items:
            results = _forked(_observe_all, conf_name, items)
            for (k, _), result in zip(items, results):
                memo[(conf_name, k)] = result
            items = items[len(results):]
        if len(memo) > 50_000:
            memo.clear()

    def _observe_all(conf_name, items, report):
        iofault.no_fail()
        iofault.track('')
        with env.Scratch() as path:
            for i, (_, content) in enumerate(items):
                db = path / f'{i}.db'
                db.write_bytes(content)
                try:
                    result = env.run(lambda ctx: reopen(db, confs[conf_name]))
                except Violation as e:
                    result = str(e)
                report(result)
                db.unlink()

    def check_states(conf_name, batches, states, required, what):
        """states: (position, content), required: function which returns
        number of batches which must be included"""
        conf = confs[conf_name]
        want = expected(conf, batches)
        contents = {}
        low = {}
        for position, content in states:
            key = digest(content)
            contents[key] = content
            low[key] = max(low.get(key, (0, 0)), (required(position),
                                                  position))
        observe_contents(conf_name, contents)
        outcome = set()
        for key in contents:
            result = memo.get((conf_name, key))
            minimum, position = low[key]
            if isinstance(result, str):
                raise Violation(f'{what}: database state at write {position} '
                                f'can not be reopened: {result}')
            if result not in want:
                first = [i for i, w in enumerate(want) if w[0] == result[0]]
                raise Violation(
                    f'{what}: state at write {position} is not prefix of '
                    f'registered batches{" (after continuation)" * bool(first)}\n'
                    f'state {fmt_state(result[1 if first else 0])}\n' +
                    '\n'.join(f'prefix {i} {fmt_state(w[1 if first else 0])}'
                              for i, w in enumerate(want)))
            n = max(i for i, w in enumerate(want) if w == result)
            if n < minimum:
                raise Violation(f'{what}: state at write {position} has {n} '
                                f'batches, {minimum} were reported as flushed')
            outcome.add(n)
        return len(contents), tuple(sorted(outcome))

    def fmt_state(state):
        latest, parts, server, ids = state
        return (f'latest {lib.fmt(latest)} partitions '
                f'{[lib.fmt(i) for i in parts]} servers '
                f'{[lib.fmt(i) for i in server]} ids {ids}')

    # histories

    specs = {
        'x': [(1, A)],
        'y': [(1, B), (1, A), (1, B)],
        'z': [(2, A)],
        'e': []}

    class History:
        """Executed history"""

        def __init__(self, conf_name):
            self.conf = confs[conf_name]
            self.batches = []        # registered
            self.confirmed = [(0, 0)]   # (position of log, batches)
            self.flushed = 0
            self.marks = []          # positions after each operation
            self.error = None

        def required(self, position):
            return max(n for pos, n in self.confirmed if pos <= position)

        def flushed_cb(self, events):
            if (self.flushed < len(self.batches) and
                    list(events) != self.batches[self.flushed]):
                raise Violation(f'flushed {lib.fmt(events)}, expected '
                                f'{lib.fmt(self.batches[self.flushed])}')
            self.flushed += 1
            self.confirmed.append((iofault.length(), self.flushed))

        async def execute(self, path, ops):
            sessions = {}
            t = 0
            backend = None
            try:
                backend = await self.open(path)
                self.marks.append(iofault.length())
                for op in ops:
                    if op == 'f':
                        n = len(self.batches)
                        await backend.flush()
                        self.confirmed.append((iofault.length(), n))
                    elif op == 'c':
                        await asyncio.sleep(lib.CLEANUP_PERIOD)
                    elif op == 'o':
                        await backend.async_close()
                        backend = None
                        backend = await self.open(path)
                    else:
                        t += 10
                        events = []
                        for i, (server, type) in enumerate(specs[op]):
                            if i == 0:
                                sessions[server] = sessions.get(server, 0) + 1
                            events.append(common.Event(
                                common.EventId(server, sessions[server],
                                               i + 1),
                                type, lib.ts(t), lib.ts(t + i), None))
                        self.batches.append(events)
                        await backend.register(events)
                    if not backend.is_open:
                        raise Exception('backend closed')
                    self.marks.append(iofault.length())
            except Violation:
                raise
            except Exception as e:
                self.error = e
            finally:
                if backend:
                    await backend.async_close()

        async def open(self, path):
            backend = await lmdb.info.create(self.conf.json(path), None,
                                             self.flushed_cb)
            await asyncio.sleep(1)
            return backend

    def crash_case(case):
        conf_name, ops, power = case

        async def fn(ctx, path):
            iofault.no_fail()
            iofault.track(path.parent)
            history = History(conf_name)
            await history.execute(path, ops)
            if history.error:
                raise Violation(f'history failed: {history.error!r}')
            if iofault.lib().iofault_mapped():
                raise Violation('database is written by memory map (not '
                                'supported by this check)')
            log = iofault.log()
            iofault.track('')
            # crashes before the last operation are part of other histories
            start = history.marks[-2] if len(ops) > 1 else 0
            return history, log, start

        history, log, start = env.run_scratch(fn)
        n, outcome = check_states(conf_name, history.batches,
                                  iofault.killed_states(log, start),
                                  history.required, f'{ops} killed')
        if power:
            created = history.marks[0]
            m, second = check_states(
                conf_name, history.batches,
                iofault.power_states(log, max(start, created)),
                history.required, f'{ops} system crash')
            n += m
            outcome += second
        return n, len(log), n, (outcome, len(log))

    def crash_cases():
        depth = 6 if check.thorough else 5
        for conf in confs:
            for n in range(1, depth + 1):
                for ops in itertools.product('xyzfco' if n < depth else
                                             'xyfo', repeat=n):
                    if ops[0] in 'fco':
                        continue
                    yield conf, ops, n < (6 if check.thorough else 5)

    check.enumerate('crash points', sorted(crash_cases(), key=lambda i: (
        i[0], i[1])), crash_case, time_limit=150, chunk=10)

    # failing writes

    def fail_case(case):
        conf_name, ops, mode = case
        count, err, short = modes[mode]
        total = 0
        cases = 0
        outcomes = []
        for k in itertools.count(1 if short else 0):

            async def fn(ctx, path):
                iofault.track(path.parent)
                iofault.fail(k, count, err, short)
                history = History(conf_name)
                try:
                    await history.execute(path, ops)
                finally:
                    hits = iofault.hits()
                    iofault.no_fail()
                    log = iofault.log()
                    iofault.track('')
                content = path.read_bytes() if path.exists() else None
                return history, log, hits, content

            history, log, hits, content = env.run_scratch(fn)
            if not hits:
                break
            if content is None:
                continue
            n, outcome = check_states(
                conf_name, history.batches, [(len(log), content)],
                history.required, f'{ops} failing write {k} ({mode})')
            total += len(log)
            cases += n
            outcomes.append(outcome)
        return cases, total, k, tuple(outcomes)

    modes = {'error': (1, errno.EIO, False),
             'full': (1 << 40, errno.ENOSPC, False),
             'short': (1, errno.ENOSPC, True),
             'retry': (2, errno.EIO, False)}

    def fail_cases():
        depth = 5 if check.thorough else 4
        for conf in confs:
            for n in range(1, depth + 1):
                for ops in itertools.product('xyzfco' if check.thorough else
                                             'xyfc', repeat=n):
                    if ops[0] in 'fco':
                        continue
                    for mode in modes:
                        yield conf, (*ops, 'x', 'f'), mode

    check.enumerate('failing writes', list(fail_cases()), fail_case,
                    time_limit=120, chunk=4)

    # concurrent operations

    async def harness(ctx):
        p = ctx.params
        scratch = env.Scratch()
        path = scratch.__enter__() / 'event.db'
        ctx.cleanup = lambda: scratch.__exit__()
        iofault.no_fail()
        iofault.track(path.parent)
        history = History(p['conf'])
        backend = await lmdb.info.create(history.conf.json(path), None,
                                         history.flushed_cb)
        await asyncio.sleep(1)
        created = iofault.length()
        if p.get('fail') is not None:
            count, err, short = modes[p.get('mode', 'error')]
            iofault.fail(p['fail'], count, err, short)

        async def registers():
            for i, name in enumerate(p['registers']):
                await ctx.point(f'r{i}')
                events = [common.Event(common.EventId(1, i + 1, j + 1), type,
                                       lib.ts(i), lib.ts(i), None)
                          for j, (_, type) in enumerate(specs[name])]
                if not backend.is_open:
                    return
                history.batches.append(events)
                await backend.register(events)

        async def flusher(i):
            await ctx.point(f'f{i}')
            n = len(history.batches)
            try:
                await backend.flush()
            except common.BackendClosedError:
                return
            history.confirmed.append((iofault.length(), n))

        async def closer():
            await ctx.point('close')
            await backend.async_close()

        tasks = [ctx.spawn(registers())]
        tasks += [ctx.spawn(flusher(i)) for i in range(p['flushes'])]
        if p.get('close'):
            tasks.append(ctx.spawn(closer()))
        await ctx.join(*tasks)
        await backend.async_close()
        log = iofault.log()
        iofault.no_fail()
        iofault.track('')
        # logical state of database is determined by its first two pages
        states = {}
        for position, content in iofault.killed_states(log, created):
            states.setdefault(content[:8192], (position, content))
        states = list(states.values())
        states.append((len(log), path.read_bytes()))
        loop = asyncio.get_running_loop()
        ctx.after = lambda: check_states(p['conf'], history.batches, states,
                                         history.required, 'schedule')
        asyncio.events._set_running_loop(None)
        try:
            _, outcome = check_states(p['conf'], history.batches, states,
                                      history.required, 'schedule')
        finally:
            asyncio.events._set_running_loop(loop)
        ctx.log(outcome, history.flushed)

    scenarios = []

    def add(name, params, inject=()):
        scenarios.append((name, harness, params, Options(inject=inject)))

    for conf in confs:
        add(f'{conf} flush', {'conf': conf, 'registers': 'xyx',
                              'flushes': 2}, ('f', 'r'))
        add(f'{conf} close', {'conf': conf, 'registers': 'xy', 'flushes': 1,
                              'close': True}, ('close',))
    for k in (0, 1, 2, 3):
        for mode in modes:
            add(f'fail {mode} {k}', {'conf': 'plain', 'registers': 'xyx',
                                     'flushes': 2, 'fail': k, 'mode': mode},
                ('f', 'r'))
    check.explore(scenarios, bound=2, extra=1, time_limit=30)
    check.assumptions = [
        'write in progress of killed process is done partially only at page '
        'boundaries; single database meta page (120 bytes) is written '
        'atomically by the system',
        'system crash (lost unsynced writes) is not combined with creation '
        'of database file']


def _forked(fn, conf_name, items):
    """Results of fn(conf_name, items, report) executed in other process -
    result of the item which ends the process is error"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with open(w, 'wb') as f:
                def report(result):
                    pickle.dump(result, f)
                    f.flush()
                from mc import core
                signal.setitimer(signal.ITIMER_PROF, 0)
                fn(conf_name, items, report)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        finally:
            os._exit(0)
    os.close(w)
    results = []
    with open(r, 'rb') as f:
        while True:
            try:
                results.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError):
                break
    _, status = os.waitpid(pid, 0)
    if len(results) < len(items):
        if os.WIFEXITED(status):
            raise Exception('internal error while reading database')
        results.append(f'process ended by signal {os.WTERMSIG(status)}')
    return results
