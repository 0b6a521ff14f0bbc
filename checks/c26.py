"""C26: query and copy tools of LMDB manager"""

import itertools
import json
import struct

from checks.c25 import run_main
from mc.core import Violation

NAMES = ('SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
         'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
         'TIMESERIES_PARTITION', 'TIMESERIES_COUNT')


def raw(path):
    """Content of database (encoded entries)"""
    import lmdb
    result = {}
    with lmdb.Environment(str(path), subdir=False, max_dbs=16, readonly=True,
                          lock=False) as env:
        for name in NAMES:
            db = env.open_db(name.encode(), create=False)
            with env.begin() as txn:
                result[name] = {bytes(k): bytes(v)
                                for k, v in txn.cursor(db=db)}
    return result


def uint(x):
    return struct.unpack('>Q', x)[0]


def id_json(x):
    server, session, instance = struct.unpack('>QQQ', x)
    return {'server': server, 'session': session, 'instance': instance}


def t_json(x):
    s, us = struct.unpack('>QI', x)
    return {'s': s - (1 << 63), 'us': us}


def ts_json(t):
    return None if t is None else {'s': t.s, 'us': t.us}


def decode_event(x):
    from hat.event import common
    return common.event_from_sbs(
        common.sbs_repo.decode('HatEventer.Event', x))


def event_json(e):
    from hat.event import common
    payload = e.payload
    if isinstance(payload, common.EventPayloadBinary):
        payload = {'type': 'BINARY', 'subtype': payload.type,
                   'data': bytes(payload.data).hex()}
    elif payload is not None:
        payload = {'type': 'JSON', 'data': payload.data}
    return {'id': dict(zip(('server', 'session', 'instance'), e.id)),
            'type': list(e.type), 'timestamp': ts_json(e.timestamp),
            'source_timestamp': ts_json(e.source_timestamp),
            'payload': payload}


def refs(x):
    while x:
        size = {4: 8, 6: 44}[x[0]]
        yield x[0], x[1:size + 1]
        x = x[size + 1:]


def expected(content, action, server=None, partition=None, types=None):
    from checks import lmdblib as lib

    def selected(type):
        return types is None or lib.any_match(
            [tuple(i.split('/')) for i in types], type)

    if action == 'settings':
        for k, v in content['SYSTEM_SETTINGS'].items():
            yield {'settings_id': ('VERSION', 'IDENTIFIER')[uint(k)],
                   'data': json.loads(v)}
    elif action == 'last_event_id':
        for k, v in content['SYSTEM_LAST_EVENT_ID'].items():
            if server in (None, uint(k)):
                yield id_json(v)
    elif action == 'last_timestamp':
        for k, v in content['SYSTEM_LAST_TIMESTAMP'].items():
            if server in (None, uint(k)):
                yield t_json(v)
    elif action == 'ref':
        for k, v in content['REF'].items():
            id = id_json(k)
            if server not in (None, id['server']):
                continue
            for ref_type, key in refs(v):
                if ref_type == 4:
                    yield {'event_id': id, 'ref_type': 'latest',
                           'event_type': json.loads(
                               content['LATEST_TYPE'][key])}
                else:
                    yield {'event_id': id, 'ref_type': 'timeseries',
                           'partition_id': uint(key[:8]),
                           'timestamp': t_json(key[8:20])}
    elif action == 'latest':
        for v in content['LATEST_DATA'].values():
            event = decode_event(v)
            if selected(event.type):
                yield event_json(event)
    elif action == 'partition':
        for k, v in content['TIMESERIES_PARTITION'].items():
            if partition in (None, uint(k)):
                yield {'partition_id': uint(k), 'data': json.loads(v)}
    elif action == 'timeseries':
        for k, v in content['TIMESERIES_DATA'].items():
            event = decode_event(v)
            if (partition in (None, uint(k[:8])) and
                    server in (None, event.id.server) and
                    selected(event.type)):
                yield event_json(event)


def run(check):
    from hat.event import common
    from hat.event.backends.lmdb.manager.main import main
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    A, B, C = ('a',), ('b', 'x'), ()

    def actions():
        yield 'settings', {}
        for server in (None, 1, 2, 9):
            for action in ('last_event_id', 'last_timestamp', 'ref'):
                yield action, {'server': server}
        for partition in (None, 0, 1, 2, 3):
            yield 'partition', {'partition': partition}
        types = (None, (), ('*',), ('a',), ('b/?',), ('b', 'a'), ('b/*',))
        for i in types:
            yield 'latest', {'types': i}
        for partition, server, i in itertools.product(
                (None, 1, 2), (None, 2), types[:1] + types[2:5]):
            yield 'timeseries', {'partition': partition, 'server': server,
                                 'types': i}

    actions = list(actions())

    def arguments(action, params):
        args = [action]
        for name, option in (('server', '--server-id'),
                             ('partition', '--partition-id')):
            if params.get(name) is not None:
                args += [option, params[name]]
        if params.get('types') is not None:
            args += ['--event-types', *params['types']]
        return args

    def canonical(items):
        return sorted(json.dumps(i, sort_keys=True) for i in items)

    def verify_queries(path):
        content = raw(path)
        before = path.read_bytes()
        n = 0
        for action, params in actions:
            args = ['query', '--db', path, *arguments(action, params)]
            code, out, err = run_main(main, *args)
            n += 1
            what = ' '.join(map(str, args[3:]))
            if code:
                raise Violation(f'query {what}: exit {code}: {err}')
            got = canonical(json.loads(i) for i in out.splitlines())
            want = canonical(expected(content, action, **params))
            if got != want:
                raise Violation(f'query {what}\nprinted  {got}\n'
                                f'expected {want}')
        if path.read_bytes() != before:
            raise Violation('database changed by query')
        return n

    queries = [common.QueryTimeseriesParams(order=order, order_by=order_by)
               for order in common.Order for order_by in common.OrderBy]

    async def verify(r, limits=None):
        retained = sum(len(r.model.logical.retained(i)) for i in (1, 2))
        page = 1 if retained < 50 else 97
        limits = limits or (None, page)
        n = await lib.check_latest(r.backend, r.model, [None, [A], [('*',)]])
        n += await lib.check_timeseries(r.backend, r.model, queries,
                                        pages=(page,))
        n += await lib.check_server(r.backend, r.model, (1, 2),
                                    limits=limits)
        for server in (1, 2, 3):
            got = await r.backend.get_last_event_id(server)
            want = r.model.logical.last_id.get(
                server, common.EventId(server, 0, 0))
            if got != want:
                raise Violation(f'last event id of server {server} is {got}, '
                                f'expected {want}')
        return n

    async def build(path, conf, ops):
        r = lib.Runner(path, conf)
        await r.open()
        for op in ops:
            await r.op(op)
        await r.close()
        return r

    def query_case(case):
        conf, ops = case

        async def fn(ctx, path):
            r = await build(path, conf, ops)
            return verify_queries(path), tuple(sorted(
                i for s in (1, 2) for i in r.model.disk.retained(s)))

        n, outcome = env.run_scratch(fn)
        return len(ops), n, 1, outcome

    def copy_case(case):
        conf, ops, skip, identifier = case

        async def fn(ctx, path):
            r = await build(path, conf, ops)
            conf2 = r.model.conf
            before = path.read_bytes()
            copy = path.parent / 'copy.db'
            code, out, err = run_main(
                main, 'copy', *(f'--skip-{i}' for i in skip), path, copy)
            if code:
                raise Violation(f'copy exit {code}: {err}')
            if path.read_bytes() != before:
                raise Violation('source changed by copy')

            r2 = lib.Runner(copy, conf2)
            r2.model = r.model
            r2.sessions = r.sessions
            r2.registered, r2.flushed = r.registered, r.flushed
            for store in (r.model.logical, r.model.disk):
                if 'latest' in skip:
                    store.latest = {}
                if 'timeseries' in skip:
                    store.parts = {}
            n = verify_queries(copy)
            await r2.open()
            n += await verify(r2)
            # registration continues
            await r2.register([(1, A, 50, 3), (2, B, 50, None)])
            n += await verify(r2)
            await r2.op('f')
            await r2.op('o')
            n += await verify(r2)
            for i in range(len(conf2.timeseries)):
                await r2.op(('conf', conf_of(*(
                    (*j[:2], {'max_entries': 1}) if i == k else j[:2]
                    for k, j in enumerate(conf2.timeseries)),
                    latest=conf2.latest, identifier=conf2.identifier)))
                n += await verify(r2, (None,))
            outcome = tuple(sorted(i for s in (1, 2)
                                   for i in r.model.disk.retained(s)))
            await r2.close()
            if path.read_bytes() != before:
                raise Violation('source changed')
            return n, outcome

        n, outcome = env.run_scratch(fn)
        return len(ops) + 3, n, 1, outcome

    def conf_of(*timeseries, latest=(('*',),), identifier=None):
        return lib.Conf(latest=latest, timeseries=timeseries,
                        identifier=identifier)

    by_t = ('TIMESTAMP', [('*',)])
    by_st = ('SOURCE_TIMESTAMP', [('*',)])
    confs = [
        conf_of(by_t, by_st),
        conf_of(('TIMESTAMP', [A, ('c', '*')]),
                ('TIMESTAMP', [('b', '*')], {'max_entries': 1}),
                ('SOURCE_TIMESTAMP', [('a', '*'), B]),
                latest=(('a', '*'), B), identifier='id'),
        conf_of(), conf_of(by_st, latest=())]
    json_ = common.EventPayloadJson({'k': ['č', 1.5, None]})
    binary = common.EventPayloadBinary('t', b'\x00\xff')
    regs = [[(1, A, 10, None, json_)], [(1, A, 10, 5), (1, B, 10, 4, binary)],
            [(2, B, 10, 3)], [(2, A, 10, 6), (2, C, 10, None)]]
    ops = [*regs, 'f', 'c', ('conf', conf_of(
        by_st, ('TIMESTAMP', [B]), latest=(B,)))]
    plain = [*regs, 'f']

    def sequences(alphabet, length):
        for n in range(length + 1):
            yield from itertools.product(alphabet, repeat=n)

    def query_cases():
        for conf in confs:
            for seq in sequences(ops, 4 if check.thorough else 3):
                # identifier is not part of changed configuration
                yield conf, [o for o in seq]

    def copy_cases():
        for conf, skip in itertools.product(
                confs, ((), ('latest',), ('timeseries',),
                        ('latest', 'timeseries'))):
            for seq in sequences(plain, 4 if check.thorough else 3):
                yield conf, seq, skip, None

    check.enumerate('query', list(query_cases()), query_case,
                    time_limit=900 if check.thorough else 120)
    check.enumerate('copy', list(copy_cases()), copy_case,
                    time_limit=900 if check.thorough else 150)

    # event types which are easily confused with each other

    confusable = [
        [[(1, i, 1, 1, json_) for i in ref.confusable]],
        [*([(1, i, 1, 2, binary)] for i in ref.confusable), 'f',
         [(2, i, 1, 1) for i in ref.confusable[::2]]]]
    check.enumerate('confusable query', [
        (conf, ops) for conf in confs for ops in confusable], query_case,
        time_limit=60, chunk=1)
    check.enumerate('confusable copy', [
        (conf, ops, skip, None) for conf in confs for ops in confusable
        for skip in ((), ('latest',), ('timeseries',))], copy_case,
        time_limit=60, chunk=1)

    # large contents

    def batch(server, start, count, types):
        return [(server, (('a', 'b', 'c')[i % 3], str(i % types)), start,
                 i * 37 % 101 if i % 4 else None) for i in range(count)]

    large = [[batch(1, 1, 500, 300)],
             [batch(1, 1, 300, 3), batch(2, 1, 300, 200), 'f',
              batch(1, 2, 200, 100)]]
    check.enumerate('large query', [(conf, ops) for conf in confs
                                    for ops in large], query_case,
                    time_limit=60, chunk=1)
    check.enumerate('large copy', [
        (conf, ops, skip, None) for conf in confs for ops in large
        for skip in ((), ('latest',), ('timeseries',))], copy_case,
        time_limit=60, chunk=1)

    # refused copies

    def refused(case):
        source, target = case

        async def fn(ctx, path):
            if source == 'valid':
                await build(path, confs[0], [regs[1], 'f'])
            elif source == 'garbage':
                path.write_bytes(b'garbage' * 1000)
            dst = path.parent / 'dst.db'
            if target == 'file':
                dst.write_bytes(b'content')
            elif target == 'database':
                await build(dst, confs[0], [regs[0]])
            elif target == 'directory':
                dst.mkdir()
            elif target == 'same':
                dst = path

            def snapshot():
                return {i.name: i.read_bytes() if i.is_file() else None
                        for i in path.parent.iterdir()
                        if not i.name.endswith('-lock')}

            before = snapshot()
            try:
                code, out, err = run_main(main, 'copy', path, dst)
            except Exception:
                code = 1
            valid = (source, target) == ('valid', 'none')
            if (code == 0) != valid:
                raise Violation(f'copy of {source} to {target}: exit {code}')
            after = snapshot()
            for name, data in before.items():
                if after.get(name, b'') != data:
                    raise Violation(f'{name} changed by copy of {source} to '
                                    f'{target}')
            return code

        code = env.run_scratch(fn)
        return 1, 1, 1, (source, target, code)

    check.enumerate('refused', list(itertools.product(
        ('valid', 'missing', 'garbage'),
        ('none', 'file', 'database', 'directory', 'same'))), refused)
