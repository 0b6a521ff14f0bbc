"""C35: event server process - configuration, start and signals"""

import asyncio
import contextlib
import itertools
import json
import os
import pathlib
import signal
import socket
import subprocess
import sys
import time

from mc.core import Violation

MODULE = '''
import asyncio
import json
import pathlib
from hat import aio
from hat.event import common


class Module(common.Module):

    def __init__(self, conf, engine, source):
        self.conf = conf
        self._async_group = aio.Group()
        self._subscription = common.create_subscription([('*',)])
        self._async_group.spawn(aio.call_on_cancel, self.on_close)
        self.write('created', self.conf)

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    def write(self, suffix, data):
        pathlib.Path(self.conf['file'] + '.' + suffix).write_text(
            json.dumps(data))

    async def on_close(self):
        await asyncio.sleep(self.conf.get('delay', 0))
        self.write('closed', None)

    async def process(self, source, event):
        return


async def create(conf, engine, source):
    return Module(conf, engine, source)

'''

SCHEMA = '''
schema = {'$id': 'verif://module.yaml', 'type': 'object',
          'required': ['file', 'value'],
          'properties': {'file': {'type': 'string'},
                         'value': {'type': 'integer'}}}
from hat.json import create_schema_repository
repo = create_schema_repository(schema)
'''

MODULES = {
    'verif_plain': MODULE + 'info = common.ModuleInfo(create)\n',
    'verif_schema': MODULE + SCHEMA + (
        'info = common.ModuleInfo(create, "verif://module.yaml", repo)\n'),
    'verif_other': SCHEMA + 'info = 1\n',
    'verif_backend': SCHEMA.replace('file', 'path') + '''
from hat.event import common
from hat.event.backends.memory import MemoryBackend
info = common.BackendInfo(MemoryBackend, "verif://module.yaml", repo)
'''}


def run(check):
    from hat import aio
    from hat.drivers import tcp
    from hat.event import adminer
    from hat.event import common
    from hat.event import eventer
    from hat.event.backends import lmdb
    from checks import env

    LIMIT = 60

    def lmdb_conf(path):
        return {'module': 'hat.event.backends.lmdb',
                'db_path': str(path / 'event.db'), 'identifier': 'i',
                'flush_period': 30, 'cleanup_period': 60.5,
                'conditions': [
                    {'subscriptions': [['c', '*']], 'condition': {
                        'type': 'all', 'conditions': [
                            {'type': 'any', 'conditions': [
                                {'type': 'json'}]}]}},
                    {'subscriptions': [['c', '?']], 'condition': {
                        'type': 'json', 'data_path': ['a', 0, ['b']],
                        'data_type': 'number', 'data_value': 1}}],
                'latest': {'subscriptions': [['*']]},
                'timeseries': [
                    {'order_by': 'TIMESTAMP', 'subscriptions': [['*']],
                     'limit': {'min_entries': 1000, 'max_entries': 2000,
                               'duration': 1e6, 'size': 1e9}},
                    {'order_by': 'SOURCE_TIMESTAMP',
                     'subscriptions': [['a', '?'], []]}],
                'timeseries_max_results': 100,
                'timeseries_event_type_cache_size': 10}

    def full(path, host):
        return {'type': 'event', 'version': '1',
                'log': {'version': 1},
                'name': 'es', 'server_id': 3, 'server_token': None,
                'backend': lmdb_conf(path),
                'modules': [
                    {'module': 'verif_plain', 'file': str(path / 'm0'),
                     'other': [None]},
                    {'module': 'verif_schema', 'file': str(path / 'm1'),
                     'value': 7}],
                'eventer_server': {'host': host, 'port': 23012},
                'adminer_server': {'host': host, 'port': 23015}}

    # changes of complete configuration

    DELETE = ('delete',)

    def change(conf, path, value):
        node = conf
        for i in path[:-1]:
            node = node[i]
        if value == DELETE:
            del node[path[-1]]
        else:
            node[path[-1]] = value

    ANY = {'null': None, 'boolean': True, 'integer': 5, 'number': 5.5,
           'string': 's', 'array': [], 'object': {}}

    def wrong(*types):
        if 'number' in types:
            types = *types, 'integer'
        return [value for name, value in ANY.items() if name not in types]

    B = 'backend',
    T, S = (*B, 'timeseries'), 'subscriptions'
    C = *B, 'conditions'
    REQUIRED = [
        ('name',), ('server_id',), ('backend',), ('modules',),
        ('eventer_server',), ('eventer_server', 'host'),
        ('eventer_server', 'port'), ('adminer_server', 'host'),
        ('adminer_server', 'port'), (*B, 'module'), ('modules', 0, 'module'),
        ('modules', 1, 'module'), ('modules', 1, 'file'),
        ('modules', 1, 'value'), (*B, 'db_path'), (*B, 'identifier'),
        (*B, 'flush_period'), (*B, 'cleanup_period'), (*B, 'conditions'),
        (*B, 'latest'), (*B, 'timeseries'), (*B, 'latest', S),
        (*T, 0, 'order_by'), (*T, 0, S), (*T, 1, 'order_by'), (*T, 1, S),
        (*C, 0, S), (*C, 0, 'condition'), (*C, 0, 'condition', 'type'),
        (*C, 1, 'condition'), (*C, 1, 'condition', 'type'),
        (*C, 0, 'condition', 'conditions'),
        (*C, 0, 'condition', 'conditions', 0, 'conditions')]
    TYPES = {
        ('name',): ['string'], ('version',): ['string'],
        ('server_id',): ['integer'],
        ('server_token',): ['string', 'null'], ('backend',): [],
        ('modules',): ['array'], ('modules', 0): [], ('modules', 1): [],
        ('modules', 1, 'file'): ['string'],
        ('modules', 1, 'value'): ['integer'], ('modules', 0, 'module'): [],
        (*B, 'module'): [],
        **{(f'{name}_server',): [] for name in ('eventer', 'adminer')},
        **{(f'{name}_server', 'host'): ['string']
           for name in ('eventer', 'adminer')},
        **{(f'{name}_server', 'port'): ['integer']
           for name in ('eventer', 'adminer')},
        (*B, 'db_path'): ['string'], (*B, 'identifier'): ['string', 'null'],
        (*B, 'flush_period'): ['number'], (*B, 'cleanup_period'): ['number'],
        (*B, 'conditions'): ['array'], (*B, 'latest'): [],
        (*B, 'timeseries'): ['array'], (*B, 'latest', S): ['array'],
        (*B, 'latest', S, 0): ['array'], (*B, 'latest', S, 0, 0): ['string'],
        (*T, 0): [], (*T, 0, 'order_by'): [], (*T, 0, S): ['array'],
        (*T, 1, S, 0): ['array'], (*T, 1, S, 0, 1): ['string'],
        (*T, 0, 'limit'): ['object'],
        **{(*T, 0, 'limit', i): ['number'] for i in (
            'min_entries', 'max_entries', 'duration', 'size')},
        (*B, 'timeseries_max_results'): ['integer'],
        (*B, 'timeseries_event_type_cache_size'): ['integer'],
        (*C, 0): [], (*C, 0, S): ['array'], (*C, 0, S, 0): ['array'],
        (*C, 0, S, 0, 0): ['string'], (*C, 0, 'condition'): [],
        (*C, 0, 'condition', 'type'): [],
        (*C, 0, 'condition', 'conditions'): ['array'],
        (*C, 0, 'condition', 'conditions', 0): [],
        (*C, 1, 'condition', 'data_path'): ['string', 'integer', 'array'],
        (*C, 1, 'condition', 'data_path', 2): ['string', 'integer', 'array'],
        (*C, 1, 'condition', 'data_type'): []}

    def invalid():
        for path in REQUIRED:
            yield path, DELETE
        for path, types in TYPES.items():
            for value in wrong(*types):
                yield path, value
        yield ('type',), 'events'
        yield ('type',), None
        yield ('modules', 0, 'module'), 'verif_other'
        yield ('modules', 0, 'module'), 'verif_backend'
        yield ('modules', 0, 'module'), 'verif_missing'
        yield ('modules', 0, 'module'), 'hat.event.backends.lmdb'
        yield (*B, 'module'), 'verif_plain'
        yield (*B, 'module'), 'verif_backend'
        yield (*B, 'module'), 'verif_missing'
        yield (*T, 0, 'order_by'), 'timestamp'
        yield (*C, 1, 'condition', 'data_type'), 'integer'

    def valid():
        yield ()
        for path in (('type',), ('version',), ('log',), ('server_token',),
                     ('adminer_server',), ('modules', 0, 'other'),
                     (*B, 'timeseries_max_results'),
                     (*B, 'timeseries_event_type_cache_size'),
                     (*T, 0, 'limit'), (*T, 0, 'limit', 'size'),
                     (*T, 0, 'limit', 'min_entries'),
                     (*T, 0, 'limit', 'max_entries'),
                     (*T, 0, 'limit', 'duration'), (*T, 0), (*T, 1),
                     (*C, 0), (*C, 1), (*C, 1, 'condition', 'data_path'),
                     (*C, 1, 'condition', 'data_type'),
                     (*C, 1, 'condition', 'data_value'),
                     ('modules', 0), ('modules', 1)):
            yield (path, DELETE),
        for path, value in (
                (('modules',), []), (('server_token',), 't'),
                (('server_id',), 1), (('server_id',), 0),
                (('name',), ''), ((*B, 'identifier'), None),
                ((*B, 'flush_period'), 0.5), ((*B, 'cleanup_period'), 100),
                ((*B, 'conditions'), []), ((*B, 'timeseries'), []),
                ((*B, 'latest', S), []), ((*T, 0, S), []),
                ((*C, 1, 'condition', 'data_path'), 'a'),
                ((*C, 1, 'condition', 'data_path'), 3),
                ((*C, 1, 'condition', 'data_value'), None),
                ((*C, 1, 'condition', 'data_value'), {'a': [1]}),
                *(((*C, 1, 'condition', 'data_type'), i) for i in (
                    'null', 'boolean', 'string', 'array', 'object')),
                (('backend',), {'module': 'hat.event.backends.memory'}),
                (('backend',), {'module': 'hat.event.backends.dummy'}),
                (('backend',), {'module': 'verif_backend', 'path': '',
                                'value': 1}),
                (('modules', 0, 'delay'), 1), (('other',), [{}])):
            yield (path, value),

    class Process:

        def __init__(self, path, conf, source, signals=()):
            modules = path / 'py'
            modules.mkdir()
            for name, content in MODULES.items():
                (modules / f'{name}.py').write_text(content)
            args, stdin = [], None
            home = path / 'home'
            home.mkdir()
            if source == 'stdin':
                args, stdin = ['--conf', '-'], json.dumps(conf)
            elif source.startswith('default'):
                (home / 'hat').mkdir()
                suffixes = source.split()[1:]
                write(home / 'hat' / f'event.{suffixes[0]}', conf)
                for suffix in suffixes[1:]:
                    write(home / 'hat' / f'event.{suffix}',
                          {**conf, 'name': None})
            else:
                write(path / f'conf.{source}', conf)
                args = ['--conf', str(path / f'conf.{source}')]
            self.out = path / 'out'
            self.process = subprocess.Popen(
                [sys.executable, '-m', 'hat.event.server', *args],
                env={**os.environ, 'XDG_CONFIG_HOME': str(home),
                     'HOME': str(home), 'PYTHONPATH': ':'.join(
                         [str(modules), os.environ['PYTHONPATH']])},
                cwd=path, stdin=subprocess.PIPE,
                stdout=self.out.open('wb'), stderr=subprocess.STDOUT)
            if stdin:
                self.process.stdin.write(stdin.encode())
            self.process.stdin.close()

        def wait(self):
            try:
                return self.process.wait(LIMIT)
            except subprocess.TimeoutExpired:
                raise Violation('process does not end')

        def kill(self):
            with contextlib.suppress(ProcessLookupError):
                self.process.kill()
            self.process.wait()

        def text(self):
            return self.out.read_text()[-500:]

    def write(path, conf):
        if path.suffix in ('.yaml', '.yml', '.json'):
            path.write_text(json.dumps(conf))
        else:
            path.write_text(toml(conf))

    def toml(conf):
        def value(x):
            if isinstance(x, dict):
                return '{' + ', '.join(f'{json.dumps(k)} = {value(v)}'
                                       for k, v in x.items()) + '}'
            if isinstance(x, list):
                return '[' + ', '.join(map(value, x)) + ']'
            return json.dumps(x)
        return ''.join(f'{k} = {value(v)}\n' for k, v in conf.items())

    def strip(x):
        """Data without null values (which toml does not have)"""
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if v is not None}
        if isinstance(x, list):
            return [strip(i) for i in x if i is not None]
        return x

    def listening(host, port):
        with socket.socket() as s:
            s.settimeout(1)
            return s.connect_ex((host, port)) == 0

    async def use(conf):
        """Server serves what is configured"""
        addr = tcp.Address(conf['eventer_server']['host'],
                           conf['eventer_server']['port'])
        client = await eventer.connect(addr, 'c',
                                       client_token=conf.get('server_token'))
        try:
            for _ in range(LIMIT * 100):
                if client.status == common.Status.OPERATIONAL:
                    break
                await asyncio.sleep(0.01)
            else:
                raise Violation('server is not operational')
            events = await client.register(
                [common.RegisterEvent(('a', 'b'), None,
                                      common.EventPayloadJson(i))
                 for i in range(3)], with_response=True)
            if events is None or {e.id.server for e in events} != {
                    conf['server_id']}:
                raise Violation(f'registered {events}')
            result = await client.query(common.QueryLatestParams(
                [('a', 'b')]))
            backend = conf['backend']
            stored = (backend['module'] != 'hat.event.backends.dummy' and
                      ('latest' not in backend or
                       backend['latest']['subscriptions']))
            if list(result.events) != ([events[-1]] if stored else []):
                raise Violation(f'latest {result}')
        finally:
            await client.async_close()
        if 'adminer_server' in conf:
            client = await adminer.connect(tcp.Address(
                conf['adminer_server']['host'],
                conf['adminer_server']['port']))
            try:
                found = await client.get_log_conf()
            finally:
                await client.async_close()
            if found != conf.get('log'):
                raise Violation(f'logging configuration {found}')
        return events

    async def history(conf):
        backend = await aio.call(lmdb.info.create, conf['backend'], None,
                                 None)
        result = await backend.query(common.QueryServerParams(
            conf['server_id']))
        await backend.async_close()
        return list(result.events)

    def real(coro):
        # real loop, clock and network
        loop = asyncio.SelectorEventLoop()
        try:
            return loop.run_until_complete(asyncio.wait_for(coro, LIMIT))
        finally:
            loop.run_until_complete(loop.shutdown_default_executor())
            loop.close()

    def run_case(case):
        index, changes, source, signals = case
        host = f'127.{1 + (index >> 16)}.{(index >> 8) & 255}.{index & 255}'
        with env.Scratch() as path:
            conf = full(path, host)
            for where, value in changes:
                change(conf, where, value)
            if source == 'toml' or source.startswith('default toml'):
                conf = strip(conf)
                conf['backend'].setdefault('identifier', 'i')
            process = Process(path, conf, source)
            try:
                if signals is None:
                    return refused(path, conf, host, process)
                return accepted(path, conf, host, process, signals)
            finally:
                process.kill()

    def refused(path, conf, host, process):
        if process.wait() == 0:
            raise Violation(f'invalid configuration is accepted: '
                            f'{process.text()}')
        found = sorted(i.name for i in path.iterdir()
                       if i.name not in ('py', 'home', 'out') and
                       not i.name.startswith('conf.'))
        if found:
            raise Violation(f'refused configuration created {found}')
        return 1, 1, 1, 'refused'

    def accepted(path, conf, host, process, signals):
        end = time.monotonic() + LIMIT
        while not listening(host, 23012):
            if process.process.poll() is not None:
                raise Violation(f'process ended: {process.text()}')
            if time.monotonic() > end:
                raise Violation('server does not listen')
            time.sleep(0.02)
        try:
            events = real(use(conf))
        except (ConnectionError, OSError, asyncio.TimeoutError) as e:
            raise Violation(f'server can not be used: {e!r}')
        for i in conf['modules']:
            created = pathlib.Path(i['file'] + '.created')
            if not created.exists() or json.loads(created.read_text()) != i:
                raise Violation(f'configuration of module {i}')
        if process.process.poll() is not None:
            raise Violation(f'process ended: {process.text()}')
        for i in signals:
            process.process.send_signal(i)
        code = process.wait()
        if code:
            raise Violation(f'exit code {code}: {process.text()}')
        if listening(host, 23012) or listening(host, 23015):
            raise Violation('still listening')
        for i in conf['modules']:
            if not pathlib.Path(i['file'] + '.closed').exists():
                raise Violation(f'module {i} is not closed')
        backend = conf['backend']
        if 'db_path' in backend and (backend['latest']['subscriptions'] or
                                     backend['timeseries']):
            found = real(history(conf))
            states = [e.payload.data for e in found
                      if e.type == ('event', str(conf['server_id']),
                                    'engine')]
            if not states or states[-1] != 'STOPPED':
                raise Violation(f'engine events {states}')
            stored = [e for e in found if e.type == ('a', 'b')]
            if stored != (events if any(
                    i['order_by'] == 'TIMESTAMP' and i['subscriptions']
                    for i in backend['timeseries']) else events[-1:]):
                raise Violation(f'stored {stored}')
        return 1, 2 + len(signals), 1, 'accepted'

    TERM, INT = signal.SIGTERM, signal.SIGINT

    def cases():
        for changes in valid():
            yield changes, 'json', (TERM,)
        for source in ('yaml', 'yml', 'toml', 'stdin', 'default yaml',
                       'default yml', 'default toml', 'default json',
                       *(f'default {i} {j}' for i, j in
                         itertools.combinations(
                             ['yaml', 'yml', 'toml', 'json'], 2))):
            yield (), source, (INT,)
        for signals in (TERM, TERM), (INT, TERM):
            yield ((('modules', 0, 'delay'), 1),), 'json', signals
        for signals in ((INT,), (TERM, TERM), (INT, TERM), (INT, INT),
                        (TERM, INT, TERM)):
            yield (), 'json', signals
        for where, value in invalid():
            yield ((where, value),), 'json', None
        if check.thorough:
            for where, value in invalid():
                yield ((where, value),), 'stdin', None
            for first, second in itertools.combinations(
                    list(itertools.islice(valid(), 1, 24)), 2):
                try:
                    conf = full(pathlib.Path('/'), '')
                    for where, value in (*first, *second):
                        change(conf, where, value)
                except (KeyError, IndexError):
                    continue
                yield (*first, *second), 'json', (TERM,)

    check.enumerate('processes', [(i, *case)
                                  for i, case in enumerate(cases(), 1)],
                    run_case, time_limit=120, chunk=1, cpu_limit=120)
    check.assumptions = [
        'processes run with real loop, clock and loopback network: order of '
        'their events is not controlled (C23 explores it)']
