"""Reference model of LMDB backend and comparison of query results"""

import asyncio
import copy

from mc.core import Violation
from checks import ref

CLEANUP_PERIOD = 100.0


def any_match(query_types, type):
    return any(ref.matches(type, i) for i in query_types)


class Conf:

    def __init__(self, latest=(('*',),), timeseries=(), condition=None,
                 conditions=(), max_results=4096, identifier=None,
                 cache_size=256):
        """timeseries: (order_by NAME, subscriptions[, limit])"""
        self.latest = latest
        self.timeseries = tuple(timeseries)
        self.condition = condition       # reference predicate
        self.conditions = conditions     # configuration
        self.max_results = max_results
        self.identifier = identifier
        self.cache_size = cache_size

    def json(self, path):
        from checks import env
        return env.lmdb_conf(
            path, latest=self.latest, timeseries=self.timeseries,
            conditions=self.conditions, max_results=self.max_results,
            identifier=self.identifier, cleanup_period=CLEANUP_PERIOD,
            cache_size=self.cache_size)


class Store:
    """State of databases (persisted or logical)"""

    def __init__(self):
        self.latest = {}         # type -> event
        self.parts = {}          # partition definition -> {id: (key, event)}
        self.last_id = {}
        self.last_t = {}

    def copy(self):
        result = Store()
        result.latest = dict(self.latest)
        result.parts = {k: dict(v) for k, v in self.parts.items()}
        result.last_id = dict(self.last_id)
        result.last_t = dict(self.last_t)
        return result

    def retained(self, server):
        events = {e.id: e for e in self.latest.values()}
        for part in self.parts.values():
            events.update((e.id, e) for _, e in part.values())
        return {i: e for i, e in events.items() if i.server == server}


def micros(timestamp):
    return timestamp.s * 1_000_000 + timestamp.us


def newer(first, second):
    """Is second, registered after first, newer in natural order"""
    if first.id.server == second.id.server:
        return second.id > first.id
    if first.timestamp != second.timestamp:
        return second.timestamp > first.timestamp
    return True


def definition(conf, i):
    order_by, subs, *_ = conf.timeseries[i]
    return order_by, tuple(sorted({tuple(s) for s in subs}))


class Model:

    def __init__(self, conf):
        self.conf = conf
        self.logical = Store()
        self.disk = Store()
        self.pending = []        # batches which are not flushed
        self.flushed = []        # all flushed batches
        self.registered = []     # all registered batches

    # operations

    def accepts(self, event):
        store = self.logical
        if store.last_id.get(event.id.server, (event.id.server, 0, 0)) >= \
                event.id:
            return False
        last_t = store.last_t.get(event.id.server)
        if last_t is not None and last_t > event.timestamp:
            return False
        return True

    def register(self, events):
        store = self.logical
        for event in events:
            if not self.accepts(event):
                continue
            store.last_id[event.id.server] = event.id
            store.last_t[event.id.server] = event.timestamp
            if self.conf.condition and not self.conf.condition(event):
                continue
            self.store(store, event)
        self.pending.append(list(events))
        self.registered.append(list(events))

    def store(self, store, event):
        if any_match(self.conf.latest, event.type):
            previous = store.latest.get(event.type)
            if previous is None or newer(previous, event):
                store.latest[event.type] = event
        for i, (order_by, subs, *_) in enumerate(self.conf.timeseries):
            if not any_match(subs, event.type):
                continue
            key = (event.timestamp if order_by == 'TIMESTAMP' else
                   event.source_timestamp)
            if key is None:
                continue
            part = store.parts.setdefault(definition(self.conf, i), {})
            part[event.id] = key, event

    def flush(self):
        self.disk = self.logical.copy()
        self.flushed.extend(self.pending)
        self.pending = []

    def cleanup(self, now, size_entries=None):
        """Remove entries of flushed data which exceed limits

        size_entries: {index of partition: number of entries for size limit}
        """
        removed = 0
        for i, (_, __, *limit) in enumerate(self.conf.timeseries):
            if not limit or not limit[0]:
                continue
            limit = limit[0]
            part = self.disk.parts.get(definition(self.conf, i), {})
            entries = sorted(part.values(), key=lambda i: (i[0], i[1].id))
            counts = [i for i in (limit.get('max_entries'),
                                  (size_entries or {}).get(i))
                      if i is not None]
            while len(entries) > (limit.get('min_entries') or 0):
                key, event = entries[0]
                age = micros(now) - micros(key)
                if not ((counts and len(entries) > min(counts)) or
                        (limit.get('duration') is not None and
                         age > round(limit['duration'] * 1_000_000))):
                    break
                entries.pop(0)
                del part[event.id]
                self.logical.parts[definition(self.conf, i)].pop(event.id)
                removed += 1
        return removed

    # queries

    def query_latest(self, event_types):
        return {e.id: e for e in self.logical.latest.values()
                if event_types is None or any_match(event_types, e.type)}

    def timeseries_events(self, p):
        """Unordered set of (key, event) satisfying query"""
        for i, (order_by, subs, *_) in enumerate(self.conf.timeseries):
            if order_by != p.order_by.name:
                continue
            if p.event_types is not None and not overlaps(subs,
                                                          p.event_types):
                continue
            part = self.logical.parts.get(definition(self.conf, i), {})
            break
        else:
            return []
        result = []
        for key, e in part.values():
            st = e.source_timestamp
            if p.t_from is not None and e.timestamp < p.t_from:
                continue
            if p.t_to is not None and e.timestamp > p.t_to:
                continue
            if p.source_t_from is not None and (st is None or
                                                st < p.source_t_from):
                continue
            if p.source_t_to is not None and (st is None or
                                              st > p.source_t_to):
                continue
            if p.event_types is not None and not any_match(p.event_types,
                                                           e.type):
                continue
            result.append((key, e))
        return result


def overlaps(first, second):
    """Is there event type matched by both"""
    return any(_overlap(tuple(i), tuple(j)) for i in first for j in second)


def _overlap(a, b):
    if a and a[0] == '*':
        return True if not b or b[0] == '*' else True
    if b and b[0] == '*':
        return True
    if not a or not b:
        return not a and not b
    if a[0] != b[0] and '?' not in (a[0], b[0]):
        return False
    return _overlap(a[1:], b[1:])


# comparison of real results with model

def check_unique(events, what):
    ids = [e.id for e in events]
    if len(set(ids)) != len(ids):
        raise Violation(f'{what}: duplicated events {ids}')


async def check_latest(backend, model, types_list):
    from hat.event import common
    n = 0
    for event_types in types_list:
        result = await backend.query(common.QueryLatestParams(
            event_types=event_types))
        what = f'latest query {event_types}'
        check_unique(result.events, what)
        expected = model.query_latest(event_types)
        got = {e.id: e for e in result.events}
        if got != expected:
            raise Violation(f'{what}\nresult   {fmt(got.values())}\n'
                            f'expected {fmt(expected.values())}')
        if result.more_follows:
            raise Violation(f'{what}: more follows')
        n += 1
    return n


def check_order(pairs, order, what):
    """pairs: (key, event) in returned order"""
    from hat.event import common
    desc = order == common.Order.DESCENDING
    for (k1, e1), (k2, e2) in zip(pairs, pairs[1:]):
        if k1 == k2:
            if e1.id.server == e2.id.server:
                bad = e1.id < e2.id if desc else e1.id > e2.id
            else:
                bad = False
        else:
            bad = k1 < k2 if desc else k1 > k2
        if bad:
            raise Violation(f'{what}: wrong order '
                            f'{fmt([e for _, e in pairs])}')


async def check_timeseries(backend, model, params_list, pages=(1, 2),
                           answers=None):
    """Compare results; `answers` (dict) collects complete answers"""
    n = 0
    for p in params_list:
        expected = model.timeseries_events(p)
        keys = {e.id: k for k, e in expected}
        what = f'{fmt_params(p)}'
        result = await backend.query(p)
        n += 1
        events = list(result.events)
        check_unique(events, what)
        limit = min(i for i in (p.max_results, model.conf.max_results)
                    if i is not None)
        want = {e.id: e for _, e in expected}
        got = {e.id: e for e in events}
        for i, e in got.items():
            if want.get(i) != e:
                raise Violation(f'{what}\nunexpected {fmt([e])}\nexpected '
                                f'{fmt(want.values())}')
        if len(events) != min(limit, len(want)):
            raise Violation(f'{what}\nresult   {fmt(events)}\n'
                            f'expected {fmt(want.values())}')
        if result.more_follows != (len(want) > limit):
            raise Violation(f'{what}: more_follows {result.more_follows}, '
                            f'{len(events)} of {len(want)} results')
        check_order([(keys[e.id], e) for e in events], p.order, what)
        if answers is not None:
            previous = answers.setdefault(p, [e.id for e in events])
            if previous != [e.id for e in events]:
                raise Violation(f'{what}: {previous} before and '
                                f'{[e.id for e in events]} after flush')
        if len(want) > limit:
            # returned events are first ones
            rest = [keys[i] for i in want if i not in got]
            if events:
                bound = keys[events[-1].id]
                if any((k > bound if p.order.name == 'DESCENDING' else
                        k < bound) for k in rest):
                    raise Violation(f'{what}: returned {fmt(events)} of '
                                    f'{fmt(want.values())}')
            if p.max_results is not None:
                continue
        # continuation
        for size in pages:
            if len(want) < 1:
                break
            collected = []
            last = None
            while True:
                page = await backend.query(p._replace(max_results=size,
                                                      last_event_id=last))
                n += 1
                got = list(page.events)
                if len(got) > size:
                    raise Violation(f'{what}: page of {len(got)} events')
                collected.extend(got)
                left = len(want) - len(collected)
                if page.more_follows != (left > 0):
                    raise Violation(f'{what}: page size {size} after {last}:'
                                    f' more follows {page.more_follows}, '
                                    f'left {left}')
                if not got or left <= 0:
                    break
                last = got[-1].id
            if collected[:len(events)] != events:
                raise Violation(f'{what}: pages of {size} give '
                                f'{fmt(collected)}\nexpected {fmt(events)}')
    return n


async def check_server(backend, model, servers, limits=(None, 1, 2),
                       exact=None):
    from hat.event import common
    n = 0
    for server in servers:
        disk = model.disk.retained(server)
        logical = model.logical.retained(server)
        ids = sorted({*disk, *logical})
        if len(ids) > 50:
            # each one is checked in small histories
            ids = [*ids[:-1:len(ids) // 5], ids[-1]]
        last_ids = [None, common.EventId(server, 0, 0), *ids,
                    common.EventId(server, 1 << 60, 0)]
        for persisted in (False, True):
            required = disk if persisted else logical
            allowed = disk if persisted else {**disk, **logical}
            full = None
            for last in last_ids:
                for limit in limits:
                    p = common.QueryServerParams(server, persisted, limit,
                                                 last)
                    result = await backend.query(p)
                    n += 1
                    what = f'server query {fmt_params(p)}'
                    events = list(result.events)
                    check_unique(events, what)
                    ids = [e.id for e in events]
                    if ids != sorted(ids):
                        raise Violation(f'{what}: wrong order {ids}')
                    for e in events:
                        if allowed.get(e.id) != e:
                            raise Violation(f'{what}: unexpected {fmt([e])}, '
                                            f'retained '
                                            f'{fmt(allowed.values())}')
                        if last is not None and e.id <= last:
                            raise Violation(f'{what}: event {e.id} not after '
                                            f'last')
                    if last is None and limit is None:
                        full = events
                        for i, e in required.items():
                            if i not in ids:
                                raise Violation(f'{what}: missing {fmt([e])}'
                                                f', result {fmt(events)}')
                        if result.more_follows:
                            raise Violation(f'{what}: more follows')
                        continue
                    want = [e for e in full if last is None or e.id > last]
                    if events != (want[:limit] if limit is not None else
                                  want):
                        raise Violation(f'{what}: result {fmt(events)}, '
                                        f'expected {fmt(want)}')
                    if result.more_follows != (limit is not None and
                                               len(want) > limit):
                        raise Violation(f'{what}: more follows '
                                        f'{result.more_follows}')
    return n


def fmt(events):
    return '[' + ', '.join(
        f'{e.id.server}.{e.id.session}.{e.id.instance} {"/".join(e.type)} '
        f't={e.timestamp.s} st='
        f'{e.source_timestamp.s if e.source_timestamp else None}'
        for e in events) + ']'


def fmt_params(p):
    return type(p).__name__ + '(' + ', '.join(
        f'{k}={getattr(v, "name", v)}' for k, v in p._asdict().items()
        if v is not None) + ')'


# execution

class Runner:
    """Executes operations on the real backend and on the model"""

    def __init__(self, path, conf, create=None):
        from hat.event.backends import lmdb
        self.path = path
        self.model = Model(conf)
        self.backend = None
        self.sessions = {}
        self.registered = []
        self.flushed = []
        self._create = create or lmdb.info.create

    def _registered_cb(self, events):
        self.registered.append(list(events))

    def _flushed_cb(self, events):
        self.flushed.append(list(events))

    async def open(self, conf=None):
        if conf is not None:
            self.model.conf = conf
        self.backend = await self._create(
            self.model.conf.json(self.path), self._registered_cb,
            self._flushed_cb)
        self.next_cleanup = asyncio.get_running_loop().time()
        if any(len(i) > 2 for i in self.model.conf.timeseries):
            # first cleanup is part of initialization
            await self.cleanup()

    async def cleanup(self):
        """Wait for next cleanup"""
        from hat.event import common
        from mc.explore import BASE_TIME
        loop = asyncio.get_running_loop()
        sizes = self.size_entries()
        await asyncio.sleep(self.next_cleanup - loop.time() + 0.5)
        now = common.timestamp_from_float(BASE_TIME + self.next_cleanup)
        self.next_cleanup += CLEANUP_PERIOD
        return self.model.cleanup(now, sizes)

    def size_entries(self):
        """Number of entries for size limits (by average entry size)"""
        import lmdb
        import shutil
        result = {}
        for i, (_, __, *limit) in enumerate(self.model.conf.timeseries):
            if not limit or not limit[0] or 'size' not in limit[0]:
                continue
            copy_path = str(self.path) + '.copy'
            shutil.copyfile(self.path, copy_path)
            env = lmdb.Environment(copy_path, subdir=False, max_dbs=32,
                                   readonly=True, lock=False)
            db = env.open_db(b'TIMESERIES_DATA', create=False)
            with env.begin() as txn:
                stat = txn.stat(db)
            env.close()
            if stat['entries']:
                total = stat['psize'] * (stat['branch_pages'] +
                                         stat['leaf_pages'] +
                                         stat['overflow_pages'])
                result[i] = int(limit[0]['size'] /
                                (total / stat['entries']))
        return result

    async def close(self):
        await self.backend.async_close()
        self.model.flush()

    def make(self, specs):
        """specs: (server, type, t, st[, payload]) - one session for each
        server"""
        from hat.event import common
        events = []
        instances = {}
        for server, type, t, st, *payload in specs:
            if server not in instances:
                self.sessions[server] = self.sessions.get(server, 0) + 1
                instances[server] = 0
            instances[server] += 1
            events.append(common.Event(
                common.EventId(server, self.sessions[server],
                               instances[server]), tuple(type), ts(t),
                ts(st), payload[0] if payload else None))
        return events

    async def register(self, specs):
        await self.register_events(self.make(specs))

    async def register_events(self, events):
        result = await self.backend.register(events)
        self.model.register(events)
        if list(result) != events:
            raise Violation(f'register result {result}')
        if self.registered != self.model.registered:
            raise Violation('registered callback not called for batch')

    async def flush(self):
        await self.backend.flush()
        self.model.flush()
        if self.flushed != self.model.flushed:
            raise Violation(f'flushed {len(self.flushed)} batches, expected '
                            f'{len(self.model.flushed)}')

    async def op(self, op):
        if op == 'f':
            await self.flush()
        elif op == 'c':
            await self.cleanup()
        elif op == 'o':
            await self.close()
            await self.open()
        elif op[0] == 'conf':
            await self.close()
            await self.open(op[1])
        else:
            await self.register(op)


def ts(value):
    from hat.event import common
    if value is None or isinstance(value, common.Timestamp):
        return value
    return common.Timestamp(value, 0)


async def check_pages(backend, params, expected, sizes, what):
    """Follow pages of query, each compared with known complete result"""
    n = 0
    for size in sizes:
        left = list(expected)
        last = None
        while True:
            p = params._replace(max_results=size, last_event_id=last)
            result = await backend.query(p)
            n += 1
            got = list(result.events)
            where = (f'{what} {fmt_params(p)}, {len(expected) - len(left)} '
                     f'events read, {len(left)} left')
            if size is not None and len(got) > size:
                raise Violation(f'{where}: {len(got)} events returned')
            if got != left[:len(got)]:
                i = next(i for i, (a, b) in enumerate(
                    zip(got, [*left, *([None] * len(got))])) if a != b)
                raise Violation(f'{where}: result {i} is {fmt([got[i]])}, '
                                f'expected {fmt(left[i:i + 1])}')
            left = left[len(got):]
            if result.more_follows != bool(left):
                raise Violation(f'{where}: {len(got)} events returned, more '
                                f'follows {result.more_follows}')
            if not left:
                break
            if not got and size != 0:
                raise Violation(f'{where}: empty page')
            if size == 0:
                break
            last = got[-1].id
    return n


def large_history(count, batch, types=7):
    """Batches of events of single server; source timestamps are unordered"""
    from hat.event import common
    events = [common.Event(
        id=common.EventId(1, i // batch + 1, i % batch + 1),
        type=('t', str(i % types)), timestamp=common.Timestamp(i // 3, 0),
        source_timestamp=common.Timestamp(i * 37 % 1009, i % 1000),
        payload=None) for i in range(count)]
    events = [e._replace(timestamp=events[i - i % batch].timestamp)
              for i, e in enumerate(events)]
    return [events[i:i + batch] for i in range(0, count, batch)]
