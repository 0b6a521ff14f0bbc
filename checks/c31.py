"""C31: command line client (hat-event-manager)"""

import asyncio
import io
import itertools
import json
import signal
import socket
import sys
import threading
import time

from checks.c25 import run_main
from mc.core import Violation


class Server:
    """Real eventer server on loopback interface with scripted answers"""

    _instance = None

    @classmethod
    def get(cls):
        if cls._instance is None:
            cls._instance = cls()
        return cls._instance

    def __init__(self):
        self.loop = asyncio.new_event_loop()
        started = threading.Event()

        def run():
            asyncio.set_event_loop(self.loop)
            self.loop.call_soon(started.set)
            self.loop.run_forever()

        threading.Thread(target=run, daemon=True).start()
        started.wait()
        self.server = None
        self.task = None

    def _listen(self):
        for _ in range(100):
            with socket.socket() as s:
                s.bind(('127.0.0.1', 0))
                self.port = s.getsockname()[1]
            try:
                return asyncio.run_coroutine_threadsafe(
                    self._create(), self.loop).result()
            except OSError:
                continue
        raise Exception('no free port')

    async def _create(self):
        from hat.drivers import tcp
        from hat.event import common
        from hat.event import eventer

        async def on_connected(info):
            self.connected.append(info)

        async def on_register(info, events):
            self.requests.append(('register', list(events)))
            return self.result

        async def on_query(info, params):
            self.requests.append(('query', params))
            return self.result

        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', self.port), connected_cb=on_connected,
            register_cb=on_register, query_cb=on_query,
            status=common.Status.OPERATIONAL)

    async def _notify(self, notifications):
        """Notify events to first client and close server"""
        while not self.server.get_conn_infos():
            await asyncio.sleep(0.001)
        for persisted, events in notifications:
            await self.server.notify_events(events, persisted, True)
        await self.server.async_close()
        self.server = None

    def prepare(self, result, notify=None):
        if self.task:
            task, self.task = self.task, None
            try:
                task.result(10)
            except TimeoutError:
                task.cancel()
                raise Violation('events are not received')
        self.connected = []
        self.requests = []
        self.result = result
        if self.server is None:
            self._listen()
        if notify is not None:
            self.task = asyncio.run_coroutine_threadsafe(
                self._notify(notify), self.loop)


def run(check):
    from hat.event import common
    from hat.event.manager.main import main
    from mc.explore import BASE_TIME
    from checks import env

    T = common.Timestamp

    def ts(text):
        if text is None:
            return None
        if text == 'now':
            return T(int(BASE_TIME), 0)
        micros = round(float(text) * 1_000_000)
        return T(micros // 1_000_000, micros % 1_000_000)

    def event(n, type=('a', 'b'), st=None, payload=None):
        return common.Event(common.EventId(1, 2, n), type, T(n, 7), st,
                            payload)

    def ts_json(t):
        return None if t is None else {'s': t.s, 'us': t.us}

    def event_json(e):
        payload = e.payload
        if isinstance(payload, common.EventPayloadBinary):
            payload = {'data_type': 'binary', 'binary_type': payload.type,
                       'data': bytes(payload.data).hex()}
        elif payload is not None:
            payload = {'data_type': 'json', 'data': payload.data}
        return {'id': dict(zip(('server', 'session', 'instance'), e.id)),
                'type': list(e.type), 'timestamp': ts_json(e.timestamp),
                'source_timestamp': ts_json(e.source_timestamp),
                'payload': payload}

    events = [event(1), event(2, (), T(-1, 5), common.EventPayloadJson(None)),
              event(3, ('č', ''), T(0, 0),
                    common.EventPayloadBinary('t', b'\x00\xff')),
              event(4, ('a',), None, common.EventPayloadJson({'x': [1.5]}))]

    def connection(options):
        args = []
        for name, value in options.items():
            args += [f'--{name}', value]
        return args

    def expired(*args):
        raise Violation('tool does not finish')

    def call(args, options=None, stdin=None):
        server = Server.get()
        saved = sys.stdin
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin or b''),
                                     encoding='utf-8')
        # signal handlers of tool would prevent termination of this process
        saved_signal, signal.signal = signal.signal, lambda *args: None
        saved_signal(signal.SIGALRM, expired)
        signal.alarm(30)
        saved_time = time.time, time.time_ns
        time.time = lambda: BASE_TIME
        time.time_ns = lambda: int(BASE_TIME) * 1_000_000_000
        try:
            code, out, err = run_main(
                main, '--port', server.port, *connection(options or {}),
                *args)
        finally:
            signal.alarm(0)
            sys.stdin = saved
            signal.signal = saved_signal
            time.time, time.time_ns = saved_time
        return server, code, out, err

    def check_connection(server, options, subscriptions=(), server_id=None,
                         persisted=False):
        if len(server.connected) != 1:
            raise Violation(f'{len(server.connected)} connections')
        info = server.connected[0]
        got = (info.client_name, info.client_token, info.server_id,
               info.persisted)
        want = (options.get('client-name', 'manager'),
                options.get('client-token'), server_id, persisted)
        if got != want:
            raise Violation(f'connection {got}, expected {want}')
        types = set(info.subscription.get_query_types())
        want = set(common.create_subscription(
            subscriptions).get_query_types())
        if types != want:
            raise Violation(f'subscriptions {types}, expected {want}')

    def check_request(server, request, code, err, exit=0):
        if code != exit:
            raise Violation(f'exit {code}, expected {exit}: {err}')
        if server.requests != [request]:
            raise Violation(f'requests {server.requests}\n'
                            f'expected {[request]}')

    connections = [{}, {'client-name': 'c', 'host': '127.0.0.1'},
                   {'client-token': 't'}]

    # query

    def query_case(case):
        args, params, options, answer = case
        server = Server.get()
        server.prepare(common.QueryResult([events[i] for i in answer],
                                          len(answer) > 1))
        server, code, out, err = call(['query', *args], options)
        check_request(server, ('query', params), code, err)
        check_connection(server, options)
        want = {'events': [event_json(events[i]) for i in answer],
                'more_follows': len(answer) > 1}
        if json.loads(out) != want:
            raise Violation(f'printed {out}\nexpected {want}')
        return 1, 2, 1, (params, answer)

    def option(name, values, parse):
        """Possible uses of single option"""
        yield [], {}
        for i in values:
            args = i if isinstance(i, (list, tuple)) else [i]
            yield ([f'--{name}', *args],
                   {name.replace('-', '_'): parse(i)})

    def combine(options, strength):
        """Uses of at most `strength` options at the same time"""
        options = [list(i) for i in options]
        for n in range(strength + 1):
            for chosen in itertools.combinations(options, n):
                for items in itertools.product(*(i[1:] for i in chosen)):
                    args, params = [], {}
                    for a, p in items:
                        args += a
                        params.update(p)
                    yield args, params

    def types(values):
        return [tuple(i.split('/')) for i in values]

    type_option = list(option('event-types', [
        [], ['a'], ['a/b', '*'], ['a/?/č', '']], types))
    times = ['0', '12.5', '-1.25', '1e9', 'now']
    last = list(option('last-event-id', ['1,2,3', f'0,{1 << 40},0'],
                       lambda i: common.EventId(*map(int, i.split(',')))))
    limit = list(option('max-results', ['1', '0', '500'], int))
    timeseries = [
        type_option,
        *(option(i, times, ts) for i in ('t-from', 't-to', 'source-t-from',
                                         'source-t-to')),
        option('order', [i.name for i in common.Order],
               lambda i: common.Order[i]),
        option('order-by', [i.name for i in common.OrderBy],
               lambda i: common.OrderBy[i]),
        limit, last]
    persisted = [([], {}), (['--persisted'], {'persisted': True})]

    def query_cases():
        answers = itertools.cycle([(), (0,), (1, 2), (3, 0), (2,)])
        options = itertools.cycle(connections)
        for args, params in combine([type_option], 1):
            for i in connections:
                yield (['latest', *args], common.QueryLatestParams(**params),
                       i, next(answers))
        for args, params in combine(timeseries, 4 if check.thorough else 3):
            yield (['timeseries', *args],
                   common.QueryTimeseriesParams(**params), next(options),
                   next(answers))
        for server_id in (0, 1, 1 << 40):
            for args, params in combine([persisted, limit, last], 3):
                yield (['server', *args, server_id],
                       common.QueryServerParams(
                           server_id, **{'persisted': False, **params}),
                       next(options), next(answers))

    check.enumerate('query', list(query_cases()), query_case, time_limit=200)

    # register

    yaml = 'a: [1, 2.5, true, č]\nb:\n'.encode()
    toml = 'a = [1, 2.5, true, "č"]\n'.encode()
    text = '{"a": [1, 2.5, true, "č"], "b": null}'.encode()
    value = {'a': [1, 2.5, True, 'č'], 'b': None}
    toml_value = {'a': [1, 2.5, True, 'č']}
    Json = common.EventPayloadJson
    Binary = common.EventPayloadBinary

    def payload_cases():
        """(args, stdin, {file: content}, payload)"""
        yield ['--payload-type', 'none'], b'', {}, None
        yield ['--payload-type', 'none'], text, {}, None
        for args in ([], ['--payload-path', '-']):
            yield args, text, {}, Json(value)
            yield ['--payload-type', 'json', *args], text, {}, Json(value)
            yield ['--payload-type', 'yaml', *args], yaml, {}, Json(value)
            yield (['--payload-type', 'toml', *args], toml, {},
                   Json(toml_value))
            for data in (b'', b'\x00\xff\n'):
                yield (['--payload-type', 'binary', *args], data, {},
                       Binary('', data))
                yield (['--payload-type', 'binary', '--binary-type', 'č',
                        *args], data, {}, Binary('č', data))
        for name, content, payload in (
                ('x.json', text, Json(value)), ('x.yaml', yaml, Json(value)),
                ('x.yml', yaml, Json(value)),
                ('x.toml', toml, Json(toml_value)),
                ('x.bin', b'\xff\x00', Binary('', b'\xff\x00')),
                ('x', b'', Binary('', b''))):
            yield ['--payload-path', name], b'', {name: content}, payload
        for type, content, payload in (
                ('json', text, Json(value)), ('yaml', yaml, Json(value)),
                ('toml', toml, Json(toml_value)),
                ('binary', text, Binary('', text))):
            for name in ('y', 'y.json', 'y.toml'):
                yield (['--payload-type', type, '--payload-path', name], b'',
                       {name: content}, payload)
        yield (['--binary-type', 't', '--payload-path', 'z'], b'',
               {'z': b'1'}, Binary('t', b'1'))

    def register_case(case):
        (args, stdin, files, payload), st, type, options, failed = case
        with env.Scratch() as path:
            args = [path / i if i in files else i for i in args]
            for name, content in files.items():
                (path / name).write_bytes(content)
            if st is not None:
                args += ['--source-timestamp', st]
            server = Server.get()
            server.prepare(None if failed else [events[0]])
            server, code, out, err = call(['register', *args, type], options,
                                          stdin)
        register_event = common.RegisterEvent(tuple(type.split('/')), ts(st),
                                              payload)
        check_request(server, ('register', [register_event]), code, err,
                      1 if failed else 0)
        check_connection(server, options)
        return 1, 2, 1, (register_event, failed)

    def register_cases():
        for i, case in enumerate(payload_cases()):
            for st in (None, '1.5', '-1', 'now'):
                for failed in (False, True):
                    yield (case, st, ('a', 'a/b//č')[i % 2],
                           connections[i % 3], failed)

    check.enumerate('register', list(register_cases()), register_case,
                    time_limit=120)

    # subscribe

    def subscribe_case(case):
        args, types, server_id, persisted, options, batches = case
        server = Server.get()
        server.prepare(None, [(p, [events[i] for i in batch])
                              for p, batch in batches])
        server, code, out, err = call(['subscribe', *args], options)
        if code:
            raise Violation(f'exit {code}: {err}')
        check_connection(server, options, types, server_id, persisted)
        subscription = common.create_subscription(types)
        want = []
        for p, batch in batches:
            selected = [event_json(events[i]) for i in batch
                        if subscription.matches(events[i].type) and
                        server_id in (None, events[i].id.server)]
            if p == persisted and selected:
                want.append(selected)
        got = [json.loads(i) for i in out.splitlines()]
        if got != want:
            raise Violation(f'printed {got}\nexpected {want}')
        return 1, len(batches), 1, (types, server_id, persisted, batches)

    def subscribe_cases():
        options = itertools.cycle(connections)
        sequences = [(), ((False, (0, 1)), (True, (0, 1))),
                     ((False, (0,)), (False, (1, 2, 3)), (True, (3,)))]
        for types_, server_id, persisted, batches in itertools.product(
                [(), ('a/b',), ('a/*', 'č/?')], (None, 1, 2), (False, True),
                sequences):
            args = list(types_)
            if persisted:
                args = ['--persisted', *args]
            if server_id is not None:
                args = ['--server-id', server_id, *args]
            yield (args, types(types_) or [('*',)], server_id, persisted,
                   next(options), batches)

    check.enumerate('subscribe', list(subscribe_cases()), subscribe_case,
                    time_limit=120)

    # refused arguments

    def refused(args):
        server = Server.get()
        server.prepare(None)
        server, code, out, err = call(args)
        if not code or not err or server.requests:
            raise Violation(f'{args}: exit {code}, requests '
                            f'{server.requests}, reported {err!r}')
        return 1, 1, 1, tuple(args)

    check.enumerate('refused', [
        [], ['query'], ['register'], ['query', 'server'],
        ['query', 'server', 'x'], ['query', 'timeseries', '--order', 'x'],
        ['query', 'timeseries', '--order-by', 'x'],
        ['query', 'timeseries', '--last-event-id', '1,2'],
        ['query', 'timeseries', '--last-event-id', '1,2,3,4'],
        ['query', 'timeseries', '--last-event-id', 'a,b,c'],
        ['query', 'timeseries', '--t-from', 'x'],
        ['query', 'timeseries', '--max-results', 'x'],
        ['register', '--payload-type', 'x', 'a']], refused)
