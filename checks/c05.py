"""C05: wire and storage representation is lossless"""

import itertools
import pathlib
import shutil
import tempfile
import asyncio
import copy

from mc.core import Violation


def same(a, b):
    """Equality which distinguishes types of all JSON/primitive values"""
    if isinstance(a, (bytes, bytearray, memoryview)):
        return (isinstance(b, (bytes, bytearray, memoryview)) and
                bytes(a) == bytes(b))
    if isinstance(a, tuple):
        return (type(a) is type(b) and len(a) == len(b) and
                all(same(i, j) for i, j in zip(a, b)))
    if isinstance(a, list):
        return (isinstance(b, list) and len(a) == len(b) and
                all(same(i, j) for i, j in zip(a, b)))
    if isinstance(a, dict):
        return (isinstance(b, dict) and list(a) == list(b) and
                all(same(a[k], b[k]) for k in a))
    if isinstance(a, (set, frozenset)):
        return isinstance(b, (set, frozenset)) and a == b
    return type(a) is type(b) and a == b


big = (1 << 63) - 1
ints = [0, 1, 127, 128, 255, 256, -1, -128, -129, big, -big - 1]
uints = [0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, big,
         (1 << 64) - 1]
strings = ['', 'a', '*', '?', '/', 'č', '\u20ac', '\U0001f600', 'a\0b', ' ',
           'x' * 127, 'x' * 128, 'x' * 300, 'null', '"']
json_data = [None, True, False, 0, 1, -1, 0.5, 1.0, 1e300, -0.5, big, 1 << 70,
             '', 'a', 'č\U0001f600', 'null', '\ud800', [], {}, [None], [[]],
             [1, 1.0, True, '1'], {'': None}, {'b': 1, 'a': [{'č': []}]},
             {'x': {'y': {'z': [0, False, None, {}]}}}, 'x' * 200]
blobs = [b'', b'\0', b'a', bytes(range(256)), b'x' * 127, b'x' * 128,
         b'x' * 70000]


def run(check):
    from hat.event import common
    from hat.event.backends.lmdb import common as lmdb_common

    repo = common.sbs_repo
    T = common.Timestamp
    stamps = [T(0, 0), T(-1, 999_999), T(1, 1), T(1_700_000_000, 123_456),
              common.min_timestamp, common.max_timestamp]
    opt_stamps = [None, *stamps]
    types = [(), *((i,) for i in strings), ('', ''), ('a', '', 'b'),
             ('a', '*'), ('?', 'b'), tuple('abcdefgh'), ('a',) * 130]
    payloads = [None,
                *(common.EventPayloadBinary(t, d) for t, d in
                  [*((s, b'a') for s in strings),
                   *(('t', b) for b in blobs), ('', b'')]),
                *(common.EventPayloadJson(i) for i in json_data)]
    ids = [*(common.EventId(i, 1, 1) for i in ints),
           *(common.EventId(1, i, 1) for i in ints),
           *(common.EventId(1, 1, i) for i in ints),
           common.EventId(big, big, big)]
    thorough = check.thorough

    def through(name, data):
        return repo.decode(name, repo.encode(name, data))

    def roundtrip(name, value, encode, decode, frame):
        """encode inside message `frame` and decode"""
        got = decode(frame[2](through(frame[0], frame[1](encode(value)))))
        if not same(value, got):
            raise Violation(f'{name}: {value!r}\nis decoded as {got!r}'[:600])

    ident = ('', lambda i: i, lambda i: i)
    event_frames = [
        ('HatEventer.Event', *ident[1:]),
        ('HatEventer.MsgEventsNotify', lambda i: [i, i], lambda i: i[1]),
        ('HatEventer.MsgRegisterRes', lambda i: ('events', [i]),
         lambda i: i[1][0])]

    def events():
        # each field alphabet in full, pairs of interesting fields
        base = dict(id=common.EventId(1, 2, 3), type=('a', 'b'),
                    timestamp=T(5, 6), source_timestamp=None, payload=None)
        alphabets = dict(id=ids, type=types, timestamp=stamps,
                         source_timestamp=opt_stamps, payload=payloads)
        yield dict(base)
        for a, b in itertools.combinations(alphabets, 2):
            for x in alphabets[a]:
                for y in alphabets[b]:
                    yield dict(base, **{a: x, b: y})

    def event(fields):
        ev = common.Event(**fields)
        for frame in event_frames:
            roundtrip('event', ev, common.event_to_sbs,
                      common.event_from_sbs, frame)
        reg = common.RegisterEvent(ev.type, ev.source_timestamp, ev.payload)
        roundtrip('register event', reg, common.register_event_to_sbs,
                  common.register_event_from_sbs,
                  ('HatEventer.MsgRegisterReq', lambda i: [i, i],
                   lambda i: i[0]))
        if ev.payload is not None:
            roundtrip('payload', ev.payload, common.event_payload_to_sbs,
                      common.event_payload_from_sbs,
                      ('HatEventer.EventPayload', *ident[1:]))
        return 1, 5, 1, ev

    check.enumerate('events', events(), event, chunk=500)

    opt_ints = [None, *ints]
    opt_ids = [None, *ids]
    type_lists = [None, [], [()], [('a',)], [('*',)], [('a', '?'), ()],
                  [('č', '*'), ('b',), ('b',)], *([i] for i in types)]

    def params():
        for i in type_lists:
            yield common.QueryLatestParams(i)
        for vals in itertools.product(ints, [False, True], opt_ints,
                                      opt_ids if thorough else opt_ids[::4]):
            yield common.QueryServerParams(*vals)
        names = common.QueryTimeseriesParams._fields
        alphabets = dict(event_types=type_lists, t_from=opt_stamps,
                         t_to=opt_stamps, source_t_from=opt_stamps,
                         source_t_to=opt_stamps, order=list(common.Order),
                         order_by=list(common.OrderBy), max_results=opt_ints,
                         last_event_id=opt_ids)
        small = {k: v[:1] + v[-1:] for k, v in alphabets.items()}
        # every combination of present/absent fields
        for vals in itertools.product(*(small[n] for n in names)):
            yield common.QueryTimeseriesParams(*vals)
        for a, b in itertools.combinations(names, 2):
            for x in alphabets[a]:
                for y in alphabets[b]:
                    yield common.QueryTimeseriesParams(**{a: x, b: y})

    def param(p):
        for name in ('HatEventer.QueryParams', 'HatEventer.MsgQueryReq'):
            roundtrip('query params', p, common.query_params_to_sbs,
                      common.query_params_from_sbs, (name, *ident[1:]))
        return 1, 2, 1, p

    check.enumerate('query params', params(), param, chunk=500)

    def results():
        evs = [common.Event(common.EventId(1, 1, i), ('a', str(i)), T(i, 0),
                            opt_stamps[i % 4], payload)
               for i, payload in enumerate(payloads)]
        for more in (False, True):
            for n in (0, 1, 2, 127, 128, 300):
                yield common.QueryResult((evs * 10)[:n], more)
            for ev in evs:
                yield common.QueryResult([ev], more)

    def result(value):
        for name in ('HatEventer.QueryResult', 'HatEventer.MsgQueryRes'):
            roundtrip('query result', value, common.query_result_to_sbs,
                      common.query_result_from_sbs, (name, *ident[1:]))
        return 1, 2, 1, value

    check.enumerate('query results', list(results()), result)

    def status(value):
        roundtrip('status', value, common.status_to_sbs,
                  common.status_from_sbs, ('HatEventer.MsgStatusNotify',
                                           *ident[1:]))
        roundtrip('status', value, common.status_to_sbs,
                  common.status_from_sbs,
                  ('HatEventer.MsgInitRes', lambda i: ('success', i),
                   lambda i: i[1]))
        return 1, 2, 1, value

    check.enumerate('status', list(common.Status), status)

    # storage

    D = lmdb_common.DbType
    uids = [common.EventId(*i) for i in itertools.product(uints[::3], repeat=3)]
    keys = {
        D.SYSTEM_SETTINGS: list(lmdb_common.SettingsId),
        D.SYSTEM_LAST_EVENT_ID: uints,
        D.SYSTEM_LAST_TIMESTAMP: uints,
        D.REF: uids,
        D.LATEST_DATA: uints,
        D.LATEST_TYPE: uints,
        D.TIMESERIES_DATA: [(p, t, i) for p in uints[::3] for t in
                            [*stamps, T(0, 1), T(-5, 0), T(255, 0), T(256, 0)]
                            for i in uids[::5]],
        D.TIMESERIES_PARTITION: uints,
        D.TIMESERIES_COUNT: uints}
    refs = [lmdb_common.LatestEventRef(0),
            lmdb_common.LatestEventRef((1 << 64) - 1),
            lmdb_common.TimeseriesEventRef((0, common.min_timestamp,
                                            common.EventId(0, 0, 0))),
            lmdb_common.TimeseriesEventRef((7, T(1, 2),
                                            common.EventId(1, 2, 3))),
            lmdb_common.TimeseriesEventRef((1 << 63, common.max_timestamp,
                                            common.EventId(*[(1 << 64) - 1] *
                                                           3)))]
    stored = [common.Event(common.EventId(1, 2, 3), t, T(1, 2), s, p)
              for t in types for s in opt_stamps[::3] for p in payloads]
    values = {
        D.SYSTEM_SETTINGS: json_data,
        D.SYSTEM_LAST_EVENT_ID: uids,
        D.SYSTEM_LAST_TIMESTAMP: stamps,
        D.REF: [set(i) for n in range(len(refs) + 1)
                for i in itertools.combinations(refs, n)],
        D.LATEST_DATA: stored,
        D.LATEST_TYPE: types,
        D.TIMESERIES_DATA: stored,
        D.TIMESERIES_PARTITION: json_data,
        D.TIMESERIES_COUNT: uints}

    def logical(db_type, key):
        return (key.value,) if db_type == D.SYSTEM_SETTINGS else (
            key if isinstance(key, tuple) else (key,))

    def store(case):
        db_type, kind, lo, hi = case
        db = lmdb_common.db_defs[db_type]
        n = 0
        if kind == 'key':
            items = sorted(keys[db_type], key=lambda i: logical(db_type, i))
            for i in range(lo, min(hi, len(items))):
                key = items[i]
                data = bytes(db.encode_key(key))
                for raw in (data, memoryview(data)):
                    got = db.decode_key(raw)
                    if not same(key, got):
                        raise Violation(f'{db_type} key {key} decoded as '
                                        f'{got}')
                for other in items[i + 1:]:
                    n += 1
                    if not data < bytes(db.encode_key(other)):
                        raise Violation(f'{db_type} key {key} is not stored '
                                        f'before {other}')
        else:
            for value in values[db_type][lo:hi]:
                data = bytes(db.encode_value(value))
                for raw in (data, memoryview(data)):
                    n += 1
                    got = db.decode_value(raw)
                    if not same(value, got):
                        raise Violation(f'{db_type} value {value!r} decoded '
                                        f'as {got!r}'[:600])
        return min(hi - lo, n), n, 1, case

    cases = []
    for db_type in D:
        for kind, items in (('key', keys), ('value', values)):
            step = 20 if kind == 'key' else 200
            cases += [(db_type, kind, i, i + step)
                      for i in range(0, len(items[db_type]), step)]
    check.enumerate('stored keys and values', cases, store)

    # same values through real client, server and database

    from checks import wire
    wire.run(check, types=types[1:], payloads=payloads, stamps=stamps,
             params=[*itertools.islice(params(), 0, None, 97)])

    check.assumptions = [
        'field values come from boundary alphabets (checks/c05.py); all values '
        'of every alphabet and all pairs of fields are combined',
        'schema definitions of /repo/schemas_sbs are the wire contract']
