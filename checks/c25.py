"""C25: conversion of databases of older versions"""

import contextlib
import io
import itertools
import sys

from mc.core import Violation


def run_main(main, *args):
    """Run tool in this process, returns (exit code, stdout, stderr)"""
    argv = sys.argv
    out, err = io.StringIO(), io.StringIO()
    sys.argv = ['tool', *map(str, args)]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            result = main()
            code = result if isinstance(result, int) else 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else int(e.code is not None)
    finally:
        sys.argv = argv
    return code, out.getvalue(), err.getvalue()


def run(check):
    from hat.event import common
    from hat.event.backends.lmdb.convert.main import main
    from checks import env
    from checks import legacy
    from checks import lmdblib as lib
    from checks import ref

    T = common.Timestamp

    def convert_payload(payload):
        if payload is None:
            return None
        name, data = payload
        if name == 'json':
            return common.EventPayloadJson(data)
        if name == 'binary':
            return common.EventPayloadBinary('', data)
        module, type, data = data
        return common.EventPayloadBinary(
            type if module is None else f'{module}.{type}', data)

    def convert_id(version, server, id):
        if version == 'v07':
            return common.EventId(*id)
        return common.EventId(id[0] or max(server, 1), id[1], id[1])

    def write(path, version, server, events, conf, partition_ids, removed):
        """Write source database, returns expected state

        events: [(id, type, t, st, payload)]
        removed: number of oldest events removed from each partition
        """
        store = lib.Store()
        content = {id: rest for id, *rest in events}
        originals = {convert_id(version, server, id): id for id in content}
        model = lib.Model(conf)
        batch = []
        for id, type, t, st, payload in events:
            event = common.Event(convert_id(version, server, id), type, t, st,
                                 convert_payload(payload))
            batch.append(event)
        model.logical = store
        for event in batch:
            model.store(store, event)
        for i, (order_by, subs, *_) in enumerate(conf.timeseries):
            part = store.parts.get(lib.definition(conf, i), {})
            for key, event in sorted(part.values(),
                                     key=lambda x: (x[0], x[1].id)
                                     )[:removed]:
                del part[event.id]
        partitions = {}
        for i, n in enumerate(partition_ids):
            order_by, subs, *_ = conf.timeseries[i]
            part = store.parts.get(lib.definition(conf, i), {})
            partitions[n] = order_by, subs, [
                (key, originals[e.id]) for key, e in part.values()]
        latest = [originals[e.id] for e in store.latest.values()]
        stored = {i.server for i in originals}
        for s in stored:
            last = max((e for e in batch if e.id.server == s),
                       key=lambda e: e.id)
            store.last_id[s] = last.id
            store.last_t[s] = last.timestamp
        if version == 'v06':
            legacy.write_v06(path, server, content, latest, partitions)
            # identifiers of removed events are not known
            retained = {s: store.retained(s) for s in stored}
            for s, kept in retained.items():
                if kept:
                    last = kept[max(kept)]
                    store.last_id[s] = last.id
                    store.last_t[s] = last.timestamp
                else:
                    del store.last_id[s], store.last_t[s]
        else:
            legacy.write_v07(path, {s: (store.last_id[s], store.last_t[s])
                                    for s in stored},
                             content, latest, partitions)
        model.disk = store.copy()
        return model, batch

    queries = [common.QueryTimeseriesParams(order=order, order_by=order_by)
               for order in common.Order for order_by in common.OrderBy]
    queries += [common.QueryTimeseriesParams(
                    event_types=[('a',)], order_by=order_by,
                    source_t_from=T(-5, 0)) for order_by in common.OrderBy]

    async def verify(r, servers, limits=None):
        retained = sum(len(r.model.logical.retained(i)) for i in servers)
        page = 1 if retained < 50 else 97
        limits = limits or (None, page)
        n = await lib.check_latest(r.backend, r.model, [
            None, [('*',)], [('a',)], [('a', '*')]])
        n += await lib.check_timeseries(r.backend, r.model, queries,
                                        pages=(page,))
        n += await lib.check_server(r.backend, r.model, servers,
                                    limits=limits)
        for server in servers:
            got = await r.backend.get_last_event_id(server)
            want = r.model.logical.last_id.get(
                server, common.EventId(server, 0, 0))
            if got != want:
                raise Violation(f'last event id of server {server} is {got}, '
                                f'expected {want}')
        return n

    def run_case(case):
        version, server, events, conf, partition_ids, removed, stale = case
        servers = sorted({max(i[0][0], 1) for i in events} |
                         {max(server, 1), 2})

        async def fn(ctx, path):
            src = path.parent / 'src.db'
            dst = path
            model, batch = write(src, version, server, events, conf,
                                 partition_ids, removed)
            if stale:
                # remains of interrupted conversion
                write(path.parent / 'event.db.v07', 'v07', 1,
                      [((1, 77, 1), ('stale',), T(1, 0), T(1, 0), None)],
                      conf, partition_ids, 0)
            before = src.read_bytes()
            code, out, err = run_main(main, src, dst)
            if code:
                raise Violation(f'conversion failed: {err}')
            if src.read_bytes() != before:
                raise Violation('source database changed')

            r = lib.Runner(dst, conf)
            r.model = model
            await r.open()
            n = await verify(r, servers)

            # converted events are not accepted again, registration continues
            await r.register_events(batch)
            n += await verify(r, servers, (None,))
            t = max([e.timestamp for e in batch], default=T(0, 0))
            for s in servers:
                last = await r.backend.get_last_event_id(s)
                new = [common.Event(common.EventId(s, last.session + 1, i),
                                    (('a',), ('new',))[i - 1],
                                    t.add(1), T(2, 0), None)
                       for i in (1, 2)]
                if new[0].id in {e.id for e in batch}:
                    raise Violation(f'event id {new[0].id} reused')
                await r.register_events(new)
            n += await verify(r, servers, (None,))
            await r.op('f')
            await r.op('o')
            n += await verify(r, servers, (None,))
            outcome = tuple(sorted(i for s in servers
                                   for i in r.model.disk.retained(s)))

            # retention removes converted entries of single partitions
            for i in range(len(conf.timeseries)):
                await r.op(('conf', lib.Conf(
                    latest=conf.latest, timeseries=[
                        (*j[:2], {'max_entries': 1}) if i == k else j
                        for k, j in enumerate(conf.timeseries)])))
                n += await verify(r, servers, (None,))
            await r.close()
            if src.read_bytes() != before:
                raise Violation('source database changed')
            return n, outcome

        n, outcome = env.run_scratch(fn)
        return len(events) + 4, n, 1, outcome

    def conf_of(*timeseries, latest=(('*',),)):
        return lib.Conf(latest=latest, timeseries=timeseries)

    by_t = ('TIMESTAMP', [('*',)])
    by_st = ('SOURCE_TIMESTAMP', [('*',)])
    confs = {
        'both': (conf_of(by_t, by_st), (1, 2)),
        'latest': (conf_of(), ()),
        'timeseries': (conf_of(by_st, by_t, latest=()), (4, 2)),
        'split': (conf_of(('TIMESTAMP', [('a',), ('c', '*')]),
                          ('TIMESTAMP', [('b', '*')]),
                          ('SOURCE_TIMESTAMP', [('a', '*'), ('b',)]),
                          latest=(('a', '*'), ('b',))), (1, 2, 3))}

    def ids(version, servers):
        """Identifiers of consecutive events of servers"""
        counts = {}
        for s in servers:
            n = counts[s] = counts.get(s, 0) + 1
            if version == 'v06':
                yield s, n
            else:
                yield s, (n + 1) // 2, n if n % 2 else 2

    # contents of single event

    payloads = [None, ('json', None), ('json', {'a': [1, 1.5, True, 'č', {}]}),
                ('json', ''), ('binary', b''), ('binary', bytes(range(256))),
                ('sbs', (None, 'T', b'\x00')), ('sbs', ('M', 'T', b'')),
                ('sbs', ('', '', b'x'))]
    types = [(), ('a',), ('a', ''), ('a', 'b/c', 'č'), ('x' * 300,)]
    times = [T(0, 0), T(-1, 999999), T(1 << 40, 1)]
    sources = [None, T(0, 0), T(-(1 << 40), 5), T(7, 999999)]

    def contents():
        for version, (conf, pids) in itertools.product(
                ('v06', 'v07'), confs.values()):
            for server, payload, st in itertools.product(
                    (1, 0, 3), payloads, sources):
                id = next(ids(version, [server if version == 'v06' else
                                        server or 2]))
                yield (version, server,
                       [(id, ('a',), T(5, 6), st, payload)],
                       conf, pids, 0, False)
            for type, t, st in itertools.product(types, times, sources):
                id = (2, 1 << 40) if version == 'v06' else (2, 3, 1 << 40)
                yield (version, 2, [(id, type, t, st, ('json', 1))],
                       conf, pids, 0, False)

    # histories

    def histories(length, alphabet, servers, names, removed):
        for version, name, n, items in (
                (version, name, n, items)
                for version in ('v06', 'v07')
                for name in names
                for n in range(length + 1)
                for items in itertools.product(alphabet, repeat=n)):
            conf, pids = confs[name]
            for order in (servers if version == 'v07' else ((1,), (0,))):
                seq = list(itertools.islice(itertools.cycle(order), n))
                events = [(id, type, T(10 + i // 2, 0), st, ('json', i))
                          for i, (id, (type, st)) in enumerate(
                              zip(ids(version, seq), items))]
                for k in removed:
                    yield (version, order[0], events, conf, pids, k,
                           version == 'v06' and n == 2)

    A, B = ('a',), ('b', 'x')
    alphabet = [(A, None), (A, T(3, 0)), (B, T(3, 0)), (A, T(2, 0))]
    # event types which are easily confused with each other

    def confusable():
        for version, (conf, pids), repeat in itertools.product(
                ('v06', 'v07'), confs.values(), (1, 2)):
            types = ref.confusable * repeat
            yield (version, 1,
                   [(id, type, T(10 + i, 0), T(3, i), ('json', i))
                    for i, (id, type) in enumerate(zip(
                        ids(version, [1] * len(types)), types))],
                   conf, pids, 0, False)

    check.enumerate('confusable types', list(confusable()), run_case,
                    time_limit=60, chunk=1)
    check.enumerate('contents', list(contents()), run_case, time_limit=120)
    check.enumerate('histories', list(histories(
        4 if check.thorough else 3, alphabet, [(1,), (2, 1)],
        ['both', 'split'], (0, 1))), run_case,
        time_limit=600 if check.thorough else 120)
    check.enumerate('long histories', list(histories(
        6 if check.thorough else 5, alphabet[1:3],
        [(1,), (1, 2, 2), (3, 1, 2)],
        ['both', 'timeseries', 'latest'], (0, 2))),
        run_case, time_limit=600 if check.thorough else 120)

    def large(count, types):
        for version, (conf, pids) in itertools.product(
                ('v06', 'v07'), confs.values()):
            for order in ((1,), (3, 1, 2)) if version == 'v07' else ((1,),):
                seq = list(itertools.islice(itertools.cycle(order), count))
                yield (version, order[0], [
                    (id, (('a', 'b')[i % 2], *([str(i % types)] if i % 3
                                               else [])),
                     T(10 + i // 5, 0), T(i * 37 % 101, 0) if i % 4 else None,
                     ('json', i) if i % 7 else None)
                    for i, id in enumerate(ids(version, seq))],
                    conf, pids, 5, False)

    check.enumerate('large contents', [
        i for count, types in ((300, 5), (300, 290),
                               *([(3000, 700)] if check.thorough else []))
        for i in large(count, types)], run_case, time_limit=120, chunk=1)

    # refused conversions

    def refused(case):
        version, target = case
        with env.Scratch() as path:
            src = path / 'src.db'
            dst = path / 'dst.db'
            conf, pids = confs['both']
            if version in ('v06', 'v07'):
                write(src, version, 1, [(next(ids(version, [1])), A, T(1, 0),
                                         None, None)], conf, pids, 0)
            elif version == 'v09':
                async def create(ctx):
                    r = lib.Runner(src, conf)
                    await r.open()
                    await r.register([(1, A, 1, None)])
                    await r.close()
                env.run(create)
            elif version == 'empty':
                src.write_bytes(b'')
            elif version == 'garbage':
                src.write_bytes(b'garbage' * 1000)
            if target == 'file':
                dst.write_bytes(b'content')
            elif target == 'empty':
                dst.write_bytes(b'')
            elif target == 'directory':
                dst.mkdir()
            elif target == 'same':
                dst = src
            elif target in ('temporary', 'link'):
                # source has name which can be used for intermediate version
                name = path / 'dst.db.v07'
                if target == 'link':
                    name.symlink_to(src)
                elif src.exists():
                    src.rename(name)
                src = name
            elif target == 'converted':
                other = path / 'other.db'
                write(other, 'v07', 1, [((1, 5, 5), B, T(1, 0), None, None)],
                      conf, pids, 0)
                if run_main(main, other, dst)[0]:
                    raise Violation('conversion failed')

            def snapshot():
                return {i.name: i.read_bytes() if i.is_file() else None
                        for i in path.iterdir() if
                        not i.name.endswith('-lock')}

            before = snapshot()
            code, out, err = run_main(main, src, dst)
            after = snapshot()
            valid = version in ('v06', 'v07') and target == 'none'
            if target in ('temporary', 'link') and version in ('v06', 'v07'):
                valid = not code
            if (code == 0) != valid:
                raise Violation(f'conversion of {version} to {target}: exit '
                                f'{code} {err}')
            if not valid and not err:
                raise Violation(f'conversion of {version} to {target}: '
                                'nothing reported')
            for name, data in before.items():
                if after.get(name, b'') != data:
                    raise Violation(f'{name} changed by conversion of '
                                    f'{version} to {target}')
            if not valid and set(after) - set(before):
                raise Violation('refused conversion created files '
                                f'{set(after) - set(before)}')
        return 1, len(before), 1, (version, target, code)

    check.enumerate('refused', list(itertools.product(
        ('v06', 'v07', 'v09', 'missing', 'empty', 'garbage'),
        ('none', 'file', 'empty', 'directory', 'converted', 'same',
         'temporary', 'link'))),
        refused)
