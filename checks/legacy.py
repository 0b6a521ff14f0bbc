"""Independent writers of databases of older versions

Formats are the historic ones (0.6 and 0.7) - nothing of the converted code
is used."""

import json
import struct

_payload = r"""
EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record {
        module:  Optional(String)
        type:    String
        data:    Bytes
    }
}

Timestamp = Record {
    s:   Integer
    us:  Integer
}

Event = Record {
    id:               EventId
    type:             Array(String)
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
"""

_repos = {}


def _repo(version):
    from hat import sbs
    if version not in _repos:
        fields = (['server', 'instance'] if version == 'v06' else
                  ['server', 'session', 'instance'])
        record = '\n'.join(f'{i}: Integer' for i in fields)
        _repos[version] = sbs.Repository(
            f'module M\n\nEventId = Record {{\n{record}\n}}\n{_payload}')
    return _repos[version]


def uint(x):
    return struct.pack('>Q', x)


def timestamp(t):
    return struct.pack('>QI', t.s + (1 << 63), t.us)


def event_id(i):
    return b''.join(uint(j) for j in i)


def optional(x):
    return ('none', None) if x is None else ('value', x)


def encode_event(version, id, type, t, st, payload):
    """payload: None, ('binary', bytes), ('json', data) or
    ('sbs', (module, type, bytes))"""
    if payload is not None:
        name, data = payload
        if name == 'json':
            data = json.dumps(data)
        elif name == 'sbs':
            data = {'module': optional(data[0]), 'type': data[1],
                    'data': data[2]}
        payload = name, data
    fields = (('server', 'instance') if version == 'v06' else
              ('server', 'session', 'instance'))
    return bytes(_repo(version).encode('M.Event', {
        'id': dict(zip(fields, id)),
        'type': list(type),
        'timestamp': t._asdict(),
        'sourceTimestamp': optional(st and st._asdict()),
        'payload': optional(payload)}))


def _env(path, max_dbs):
    import lmdb
    return lmdb.Environment(str(path), map_size=1 << 26, subdir=False,
                            max_dbs=max_dbs)


def _partition(order_by, subs):
    return json.dumps({'order': {'TIMESTAMP': 1, 'SOURCE_TIMESTAMP': 2}[
                           order_by],
                       'subscriptions': sorted(list(i) for i in subs)})


def write_v06(path, server, events, latest, partitions):
    """
    events: {id: (type, t, st, payload)}
    latest: [id]
    partitions: {partition id: (order_by, subs, [(t, id)])}
    """
    with _env(path, 5) as env:
        dbs = {i: env.open_db(i.encode()) for i in (
            'system', 'latest', 'ordered_data', 'ordered_partition',
            'ordered_count')}
        with env.begin(write=True) as txn:
            txn.put(b'server_id', uint(server), db=dbs['system'])
            last = max(events, default=None)
            txn.put(b'last_instance_id', uint(last[1] if last else 0),
                    db=dbs['system'])
            if last:
                txn.put(b'last_timestamp', timestamp(events[last][1]),
                        db=dbs['system'])
            for id in latest:
                type = events[id][0]
                txn.put(json.dumps(list(type)).encode(),
                        encode_event('v06', id, *events[id]),
                        db=dbs['latest'])
            for i, (order_by, subs, entries) in partitions.items():
                txn.put(uint(i), _partition(order_by, subs).encode(),
                        db=dbs['ordered_partition'])
                txn.put(uint(i), json.dumps(len(entries)).encode(),
                        db=dbs['ordered_count'])
                for t, id in entries:
                    txn.put(uint(i) + timestamp(t) + uint(id[1]),
                            encode_event('v06', id, *events[id]),
                            db=dbs['ordered_data'])
        env.sync(True)


def write_v07(path, system, events, latest, partitions):
    """
    system: {server: (id, t)}
    events: {id: (type, t, st, payload)}
    latest: [id]
    partitions: {partition id: (order_by, subs, [(t, id)])}
    """
    refs = {}
    with _env(path, 7) as env:
        dbs = {i: env.open_db(i.encode()) for i in (
            'SYSTEM', 'LATEST_DATA', 'LATEST_TYPE', 'ORDERED_DATA',
            'ORDERED_PARTITION', 'ORDERED_COUNT', 'REF')}
        with env.begin(write=True) as txn:
            for server, (id, t) in system.items():
                txn.put(uint(server), event_id(id) + timestamp(t),
                        db=dbs['SYSTEM'])
            for n, id in enumerate(latest):
                key = uint(n + 1)
                type = events[id][0]
                txn.put(key, encode_event('v07', id, *events[id]),
                        db=dbs['LATEST_DATA'])
                txn.put(key, json.dumps(list(type)).encode(),
                        db=dbs['LATEST_TYPE'])
                refs[id] = refs.get(id, b'') + b'\x01' + key
            for i, (order_by, subs, entries) in partitions.items():
                txn.put(uint(i), _partition(order_by, subs).encode(),
                        db=dbs['ORDERED_PARTITION'])
                txn.put(uint(i), uint(len(entries)), db=dbs['ORDERED_COUNT'])
                for t, id in entries:
                    key = uint(i) + timestamp(t) + event_id(id)
                    txn.put(key, encode_event('v07', id, *events[id]),
                            db=dbs['ORDERED_DATA'])
                    refs[id] = refs.get(id, b'') + b'\x03' + key
            for id, ref in refs.items():
                txn.put(event_id(id), ref, db=dbs['REF'])
        env.sync(True)
