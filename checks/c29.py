"""C29: reopening of database with changed configuration"""

import itertools
import json
import struct


def run(check):
    from hat.event import common
    from hat.event.backends import lmdb
    from checks import env
    from checks import lmdblib as lib
    from checks import ref

    Violation = lib.Violation
    A, B = ('a',), ('b',)
    ALL = ('*',)
    good = common.EventPayloadJson({'v': 1})
    bad = common.EventPayloadJson({'v': 'x'})

    def condition_of(type):
        return dict(
            conditions=[{'subscriptions': [list(type)],
                         'condition': {'type': 'json', 'data_path': 'v',
                                       'data_type': 'number'}}],
            condition=lambda e: e.type != type or e.payload == good)

    def conf(latest=(ALL,), timeseries=(('TIMESTAMP', [ALL]),
                                        ('SOURCE_TIMESTAMP', [A])), **kwargs):
        return lib.Conf(latest=latest, timeseries=timeseries, **kwargs)

    confs = {
        'base': conf(),
        'swapped': conf(timeseries=[('SOURCE_TIMESTAMP', [A]),
                                    ('TIMESTAMP', [ALL])]),
        'fewer': conf(timeseries=[('SOURCE_TIMESTAMP', [A])]),
        'more': conf(timeseries=[('TIMESTAMP', [B]), ('TIMESTAMP', [ALL]),
                                 ('SOURCE_TIMESTAMP', [B]),
                                 ('SOURCE_TIMESTAMP', [A])]),
        'exchanged': conf(timeseries=[('SOURCE_TIMESTAMP', [ALL]),
                                      ('TIMESTAMP', [A])]),
        'narrow': conf(latest=(A,)),
        'none': conf(latest=(), timeseries=()),
        'no latest': conf(latest=()),
        'only latest': conf(timeseries=()),
        'cond a': conf(**condition_of(A)),
        'cond b': conf(latest=(B,), timeseries=[('TIMESTAMP', [B])],
                       **condition_of(B)),
        'latest cond': conf(timeseries=(), **condition_of(A)),
        'listed': conf(timeseries=[('TIMESTAMP', [A, B])]),
        'permuted': conf(timeseries=[('SOURCE_TIMESTAMP', [B, A]),
                                     ('TIMESTAMP', [B, A])]),
        'repeated': conf(timeseries=[('TIMESTAMP', [ALL]),
                                     ('TIMESTAMP', [ALL]),
                                     ('SOURCE_TIMESTAMP', [A])]),
        'limit': conf(timeseries=[
            ('TIMESTAMP', [ALL], {'max_entries': 2}),
            ('SOURCE_TIMESTAMP', [A], {'max_entries': 1})])}

    queries = [
        common.QueryTimeseriesParams(event_types=types, order_by=order_by,
                                     order=common.Order.ASCENDING)
        for types in (None, [A], [B])
        for order_by in common.OrderBy]

    class Model(lib.Model):

        def visible(self, event):
            return not self.conf.condition or self.conf.condition(event)

        def subscribed(self, event):
            return (lib.any_match(self.conf.latest, event.type) and
                    self.visible(event))

        def store(self, store, event):
            previous = store.latest.get(event.type)
            if previous is not None and not self.subscribed(previous):
                hidden = store.latest.pop(event.type)
                super().store(store, event)
                store.latest.setdefault(event.type, hidden)
            else:
                super().store(store, event)

        def query_latest(self, event_types):
            return {i: e for i, e in super().query_latest(event_types).items()
                    if self.subscribed(e)}

        def timeseries_events(self, p):
            return [(k, e) for k, e in super().timeseries_events(p)
                    if self.visible(e)]

        def selected(self, store, server):
            """Retained events which are selected by current
            configuration"""
            events = [e for e in store.latest.values()
                      if self.subscribed(e)]
            for i in range(len(self.conf.timeseries)):
                part = store.parts.get(lib.definition(self.conf, i), {})
                events.extend(e for _, e in part.values()
                              if self.visible(e))
            return {e.id: e for e in events if e.id.server == server}

    async def verify(r, unsubscribed):
        model = r.model
        n = 0
        for types in (None, [A], [B], [('?',)]):
            result = await r.backend.query(
                common.QueryLatestParams(event_types=types))
            n += 1
            lib.check_unique(result.events, 'latest')
            want = model.query_latest(types)
            got = {e.id: e for e in result.events}
            for i, e in got.items():
                if want.get(i) != e:
                    raise Violation(f'latest query {types}: unexpected '
                                    f'{lib.fmt([e])}, expected '
                                    f'{lib.fmt(want.values())}')
            for i, e in want.items():
                if i not in got and e.id not in unsubscribed:
                    raise Violation(f'latest query {types}: missing '
                                    f'{lib.fmt([e])}')
        n += await lib.check_timeseries(r.backend, model, queries,
                                        pages=(1,))
        for server in (1, 2):
            result = await r.backend.query(common.QueryServerParams(server))
            n += 1
            what = f'server query {server}'
            events = list(result.events)
            lib.check_unique(events, what)
            if events != sorted(events, key=lambda e: e.id):
                raise Violation(f'{what}: wrong order {lib.fmt(events)}')
            allowed = {**model.disk.retained(server),
                       **model.logical.retained(server)}
            required = model.selected(model.logical, server)
            for e in events:
                if allowed.get(e.id) != e:
                    raise Violation(f'{what}: unexpected {lib.fmt([e])}, '
                                    f'retained {lib.fmt(allowed.values())}')
            got = {e.id for e in events}
            for i, e in required.items():
                if i not in got and i not in unsubscribed:
                    raise Violation(f'{what}: missing {lib.fmt([e])} in '
                                    f'{lib.fmt(events)}')
            collected = []
            last = None
            while True:
                page = await r.backend.query(common.QueryServerParams(
                    server, max_results=1, last_event_id=last))
                n += 1
                collected.extend(page.events)
                if not page.more_follows:
                    break
                if len(page.events) != 1:
                    raise Violation(f'{what}: page {page}')
                last = page.events[-1].id
            if collected != events:
                raise Violation(f'{what}: pages {lib.fmt(collected)}, '
                                f'result {lib.fmt(events)}')
        return n

    batches = {
        'x': [(1, A, bad), (1, B, good)],
        'y': [(1, A, good)],
        'z': [(2, B, bad), (2, A, good)],
        'w': [(1, B, bad), (2, A, bad)]}

    def run_case(case):

        async def fn(ctx, path):
            r = lib.Runner(path, confs[case[0][0]])
            r.model = Model(r.model.conf)
            unsubscribed = set()
            t = 0
            n = 0
            for i, (name, ops) in enumerate(case):
                if i:
                    await r.close()
                await r.open(confs[name])
                for e in r.model.logical.latest.values():
                    if not r.model.subscribed(e):
                        unsubscribed.add(e.id)
                n += await verify(r, unsubscribed)
                for op in ops:
                    if op in batches:
                        specs = []
                        for server, type, payload in batches[op]:
                            t += 1
                            specs.append((server, type, t, t, payload))
                        # single timestamp of a session
                        await r.register([
                            (server, type, t, st, payload)
                            for server, type, _, st, payload in specs])
                        for e in r.model.logical.latest.values():
                            if not r.model.subscribed(e):
                                unsubscribed.add(e.id)
                    else:
                        await r.op(op)
                    n += await verify(r, unsubscribed)
            await r.close()
            return n, tuple(sorted(r.model.disk.retained(1)))

        n, outcome = env.run_scratch(fn)
        return sum(len(i) + 1 for _, i in case), n, 1, outcome

    def cases():
        first = ('x', 'y', 'z', 'xz', 'xfy')
        second = ('y', 'x', 'zf', 'w')
        for c1, c2 in itertools.product(confs, repeat=2):
            for o1 in first:
                for o2 in second:
                    yield (c1, o1), (c2, o2)
        for c1, c2, c3 in itertools.product(confs, repeat=3):
            if c2 in (c1, c3):
                continue
            for o1, o2, o3 in (itertools.product(
                    first, second, second) if check.thorough else
                    (('x', 'z', 'y'), ('xz', 'y', 'xf'), ('y', 'w', 'z'))):
                yield (c1, o1), (c2, o2), (c3, o3)
        for c1, c2 in itertools.product(confs, repeat=2):
            if c1 == c2:
                continue
            for o1, o2, o3 in itertools.product(('x', 'z', 'y'), repeat=3):
                yield (c1, o1), (c2, o2), (c1, o3), (c2, 'c')

    check.enumerate('configuration changes', list(cases()), run_case,
                    time_limit=150)

    # many partitions

    def parts_case(case):
        count, change, ops = case
        names = [('p', str(i)) for i in range(count)]
        series = [(order_by, [name, ('all',)] if i % 5 else [name])
                  for i, name in enumerate(names)
                  for order_by in (('TIMESTAMP', 'SOURCE_TIMESTAMP')[i % 2],)]
        changes = {
            'same': series,
            'reversed': series[::-1],
            'odd': series[1::2],
            'tail': series[-3:],
            'exchanged': [(('TIMESTAMP', 'SOURCE_TIMESTAMP')[(i + 1) % 2], s)
                          for i, (_, s) in enumerate(series)],
            'more': [x for i in series
                     for x in (i, ('TIMESTAMP', [('q', *i[1][0])]))]}
        confs = [conf(latest=(), timeseries=series),
                 conf(latest=(), timeseries=changes[change]),
                 conf(latest=(), timeseries=series)]

        async def fn(ctx, path):
            r = lib.Runner(path, confs[0])
            r.model = Model(confs[0])
            t = 0
            n = 0
            probes = [names[0], names[1], names[2], names[count // 2],
                      names[-1], names[-2], ('all',), ('q', 'p', '1'),
                      ('p', '255'), ('p', '256'), ('p', '257')]
            for i, c in enumerate(confs):
                if i:
                    await r.close()
                await r.open(c)
                for batch in (names[::i + 1], [('all',), ('q', 'p', '1')],
                              names[::-3]):
                    t += 1
                    await r.register([(1, name, t, t) for name in batch])
                    for op in ops:
                        await r.op(op)
                n += await lib.check_timeseries(r.backend, r.model, [
                    common.QueryTimeseriesParams(
                        event_types=types and [types], order_by=order_by)
                    for types in (*probes, None) for order_by in
                    common.OrderBy], pages=())
                events = sorted(r.model.selected(r.model.logical, 1).values(),
                                key=lambda e: e.id)
                result = await r.backend.query(common.QueryServerParams(1))
                n += 1
                got = {e.id: e for e in result.events}
                for e in events:
                    if got.get(e.id) != e:
                        raise Violation(f'server query: missing '
                                        f'{lib.fmt([e])}')
                kept = {**r.model.disk.retained(1),
                        **r.model.logical.retained(1)}
                for e in result.events:
                    if kept.get(e.id) != e:
                        raise Violation(f'server query: unexpected '
                                        f'{lib.fmt([e])}')
            await r.close()
            return n

        n = env.run_scratch(fn)
        return 9, n, 1, case

    check.enumerate('many partitions', [
        (count, change, ops)
        for count in (5, 20, 260, *([1100] if check.thorough else []))
        for change in ('same', 'reversed', 'odd', 'tail', 'exchanged', 'more')
        for ops in ('', 'f')], parts_case, chunk=1, time_limit=120)

    # subscriptions which are easily confused with each other

    def confusable_case(case):
        series = case

        async def fn(ctx, path):
            r = lib.Runner(path, lib.Conf())
            n = 0
            types = sorted({t for i in series for _, s in i for t in s})
            for i, s in enumerate((*series, series[0])):
                if i:
                    await r.close()
                await r.open(lib.Conf(latest=(), timeseries=s))
                await r.register([(1, t, i + 1, i + 1) for t in types])
                n += await lib.check_timeseries(r.backend, r.model, [
                    common.QueryTimeseriesParams(event_types=i and [i],
                                                 order_by=order_by)
                    for i in (None, *types)
                    for order_by in common.OrderBy], pages=())
            await r.close()
            return n

        n = env.run_scratch(fn)
        return len(series) + 1, n, 1, case

    def confusable_cases():
        order_bys = ('TIMESTAMP', 'SOURCE_TIMESTAMP')
        every = ref.confusable
        for n, (i, j) in enumerate(itertools.combinations(every, 2)):
            order_by = order_bys[n % 2]
            yield [(order_by, [i])], [(order_by, [j])]
            if check.thorough or not n % 7:
                yield ([(order_by, [i, j])], [(order_by, [j])],
                       [(order_by, [(*i, *j)])])
        yield [[(order_by, [i]) for i in every] for order_by in order_bys]
        yield [[(order_by, [i]) for i in every[k:] + every[:k]]
               for k in (0, 7) for order_by in order_bys]
        lists = [[A, B], [('a', 'b')], [('ab',)], [('a',), ('b',), ()],
                 [('a', 'b'), ('a',)], [('a', 'b', 'a')], [('a',)],
                 [('a',), ('b', 'a')], [('a', 'b'), ('c', 'd')],
                 [('a',), ('b', 'c', 'd')], [('a', 'b', 'c'), ('d',)], [()]]
        for i, j in itertools.permutations(lists, 2):
            for order_by in order_bys:
                yield [(order_by, i)], [(order_by, j)]

    check.enumerate('confusable subscriptions', list(confusable_cases()),
                    confusable_case, time_limit=90)

    # refused databases

    def dump(path):
        import lmdb as _lmdb
        result = {}
        e = _lmdb.Environment(str(path), subdir=False, readonly=True,
                              lock=False, max_dbs=32)
        with e.begin() as txn:
            for name, _ in txn.cursor():
                db = e.open_db(name, txn=txn, create=False)
                result[bytes(name)] = [(bytes(k), bytes(v))
                                       for k, v in txn.cursor(db)]
        e.close()
        return result

    def edit(path, name, key, value):
        import lmdb as _lmdb
        e = _lmdb.Environment(str(path), subdir=False, max_dbs=32)
        db = e.open_db(name)
        with e.begin(write=True) as txn:
            if value is None:
                txn.delete(key, db=db)
            else:
                txn.put(key, value, db=db)
        e.close()

    def refuse_case(case):
        identifier, second, version, content, name = case

        async def fn(ctx, path):
            base = lib.Conf(timeseries=confs['base'].timeseries,
                            identifier=identifier)
            r = lib.Runner(path, base)
            r.model = Model(base)
            await r.open()
            for op in content:
                if op in batches:
                    await r.register([(s, t, 1, 1, p)
                                      for s, t, p in batches[op]])
                else:
                    await r.op(op)
            await r.close()
            if version is not None:
                edit(path, b'SYSTEM_SETTINGS', struct.pack('>Q', 0),
                     json.dumps(version).encode())
            before = dump(path)
            changed = confs[name]
            refused = (version not in (None, '0.9') or (
                second is not None and identifier is not None and
                second != identifier))
            conf = lib.Conf(latest=changed.latest,
                            timeseries=changed.timeseries,
                            conditions=changed.conditions,
                            condition=changed.condition, identifier=second)
            try:
                await r.open(conf)
                opened = True
            except Exception:
                opened = False
            if opened == refused:
                raise Violation(
                    f'database with identifier {identifier!r} and version '
                    f'{version!r} {"was" if opened else "could not be"} '
                    f'opened with identifier {second!r}')
            if opened:
                await r.close()
                # identifier stays
                if second is None:
                    second_ok = identifier
                else:
                    second_ok = second
                if second_ok is not None:
                    wrong = lib.Conf(identifier=second_ok + '?')
                    try:
                        await r.open(wrong)
                    except Exception:
                        pass
                    else:
                        raise Violation('identifier is not kept')
            elif dump(path) != before:
                raise Violation('refused database was changed')
            if refused and version is None:
                # original configuration can be used
                await r.open(base)
                n = await verify(r, set())
                await r.close()
                return n
            return 1

        n = env.run_scratch(fn)
        return 2, n, 1, (case[:3], n)

    ids = (None, 'a', 'b', '')
    check.enumerate('refused databases', [
        *itertools.product(ids, ids, (None, '0.9'), ('', 'xz', 'xfy'),
                           ('base', 'more')),
        *itertools.product((None, 'a'), (None, 'a'),
                           ('0.8', '0.7', '1.0', '', '0.9.1', None),
                           ('', 'x'), ('base', 'narrow'))], refuse_case)

    # file of older version or of other application

    def foreign_case(names):
        async def fn(ctx, path):
            import lmdb as _lmdb
            e = _lmdb.Environment(str(path), subdir=False, max_dbs=32)
            for name in names:
                db = e.open_db(name)
                with e.begin(write=True) as txn:
                    txn.put(b'1234567812345678', b'"x"', db=db)
            e.close()
            before = dump(path)
            r = lib.Runner(path, lib.Conf())
            try:
                await r.open()
            except Exception:
                pass
            else:
                raise Violation(f'database with {names} was opened')
            if dump(path) != before:
                raise Violation(f'database with {names} was changed')

        env.run_scratch(fn)
        return 1, 1, 1, names

    old = (b'SYSTEM', b'LATEST_DATA', b'LATEST_TYPE', b'ORDERED_DATA',
           b'ORDERED_PARTITION', b'ORDERED_COUNT', b'REF')
    check.enumerate('foreign databases', [
        i for n in (1, 2, 6, 7) for i in itertools.combinations(old, n)],
        foreign_case)
