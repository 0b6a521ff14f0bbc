"""C28: meaning of registration conditions"""

import itertools

from checks import ref
from mc.core import Violation


ABSENT = object()


def equal(a, b):
    """JSON equality"""
    for types in (bool, (int, float), str, list, dict):
        if types != bool and (isinstance(a, bool) or isinstance(b, bool)):
            return False
        if isinstance(a, types) or isinstance(b, types):
            if not (isinstance(a, types) and isinstance(b, types)):
                return False
            break
    else:
        return a is None and b is None
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(i, j) for i, j in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    return a == b


def type_name(data):
    if data is None:
        return 'null'
    if isinstance(data, bool):
        return 'boolean'
    for types, name in (((int, float), 'number'), (str, 'string'),
                        (list, 'array'), (dict, 'object')):
        if isinstance(data, types):
            return name


def flatten(path):
    if isinstance(path, list):
        for i in path:
            yield from flatten(i)
    else:
        yield path


def resolve(data, path):
    for i in flatten(path):
        if isinstance(i, str):
            if not isinstance(data, dict) or i not in data:
                return None
        elif not isinstance(data, list) or not -len(data) <= i < len(data):
            return None
        data = data[i]
    return data


def holds(condition, payload):
    """payload: ('json', data), ('binary', data) or None"""
    if condition['type'] == 'all':
        return all([holds(i, payload) for i in condition['conditions']])
    if condition['type'] == 'any':
        return any([holds(i, payload) for i in condition['conditions']])
    if payload is None or payload[0] != 'json':
        return False
    data = resolve(payload[1], condition.get('data_path', []))
    if 'data_type' in condition and type_name(data) != condition['data_type']:
        return False
    return 'data_value' not in condition or equal(data,
                                                  condition['data_value'])


def accepts(conf, type, payload):
    return all([holds(i['condition'], payload) for i in conf
                if any([ref.matches(type, tuple(j))
                        for j in i['subscriptions']])])


def run(check):
    from hat.event import common
    from hat.event.backends.lmdb.conditions import Conditions
    from checks import env
    from checks import lmdblib as lib

    values = [None, True, False, 0, 1, -1, 1.0, 1.5, '', 'a', '1', [], [1],
              [True], [[]], {}, {'x': 1}, {'x': True}, {'y': 1}, {'x': None},
              [1, 'a', None], [{'x': [0, 1]}], {'x': [0, 1]},
              {'x': {'y': 'a', 'z': 0}}, {'0': 1}, ['x'], {'x': 1, 'y': 2},
              {'x': 0.0, 'y': False}]
    payloads = ([None, ('binary', b''), ('binary', b'1')] +
                [('json', i) for i in values])

    def event_of(type, payload, instance=1):
        return common.Event(
            common.EventId(1, 1, instance), tuple(type),
            common.Timestamp(1, 0), None,
            None if payload is None else
            common.EventPayloadJson(payload[1]) if payload[0] == 'json' else
            common.EventPayloadBinary('t', payload[1]))

    def verify(conf, types, payloads):
        conditions = Conditions(conf)
        n = 0
        accepted = []
        for type in types:
            for payload in payloads:
                want = accepts(conf, type, payload)
                got = conditions.matches(event_of(type, payload))
                n += 1
                accepted.append(want)
                if bool(got) != want:
                    raise Violation(
                        f'conditions {conf}\nevent {type} {payload}: '
                        f'{"accepted" if got else "not accepted"}')
        return 1, n, n, tuple(accepted)

    def single(condition, types=(('a',),)):
        return [{'subscriptions': [list(i) for i in types],
                 'condition': condition}]

    # single json condition

    paths = [ABSENT, [], 'x', ['x'], ['x', 'y'], ['x', 1], 0, [0], -1, [[0]],
             [['x'], [[1]]], ['x', -1], '0', 'q', [0, 'x', 1], 2]
    names = [ABSENT, 'null', 'boolean', 'string', 'number', 'array', 'object']

    def json_condition(path, name, value):
        condition = {'type': 'json'}
        if path is not ABSENT:
            condition['data_path'] = path
        if name is not ABSENT:
            condition['data_type'] = name
        if value is not ABSENT:
            condition['data_value'] = value
        return condition

    atoms = [json_condition(*i) for i in itertools.product(
        paths, names, [ABSENT, *values])]
    check.enumerate('json conditions', atoms, lambda atom: verify(
        single(atom), [('a',)], payloads))

    # nested conditions

    few = [json_condition('x', ABSENT, 1), json_condition('y', ABSENT, 2),
           json_condition('x', 'number', ABSENT),
           json_condition(ABSENT, 'object', ABSENT),
           json_condition([], 'null', ABSENT), {'type': 'json'}]
    if check.thorough:
        few += [json_condition(0, 'array', ABSENT),
                json_condition('x', ABSENT, True)]

    def compounds(children, width):
        for n in range(width + 1):
            for combination in itertools.product(children, repeat=n):
                for type in ('all', 'any'):
                    yield {'type': type, 'conditions': list(combination)}

    level1 = list(compounds(few, 3))
    check.enumerate('compound conditions', level1, lambda i: verify(
        single(i), [('a',)], payloads))

    level2 = list(compounds([*few[:4], *compounds(few[:3], 2)], 2))
    check.enumerate('nested conditions', level2, lambda i: verify(
        single(i), [('a',)], payloads))
    level3 = list(compounds([few[0], *compounds(
        [few[1], *compounds(few[:2], 2 if check.thorough else 1)], 2)], 2))
    check.enumerate('doubly nested conditions', level3, lambda i: verify(
        single(i), [('a',)], payloads[::2]))

    # several conditions with overlapping subscriptions

    subs = [[['a']], [['*']], [['a', '?']], [['?', 'b'], ['a']],
            [['a', '*'], ['b']], [], [['a'], ['*']], [['a', 'b'], ['a', 'b']]]
    types = [(), ('a',), ('b',), ('a', 'b'), ('b', 'b'), ('a', 'b', 'c')]
    some = [None, ('binary', b''), *(('json', i) for i in (
        None, 1, {'x': 1}, {'x': 1, 'y': 2}, {'y': 2}, {'x': 2}))]
    conds = [*few[:3], {'type': 'any', 'conditions': few[:2]},
             {'type': 'any', 'conditions': []}]

    def several():
        items = [{'subscriptions': i, 'condition': j}
                 for i in subs for j in conds]
        yield []
        for i in items:
            yield [i]
        for pair in itertools.product(items, repeat=2):
            yield list(pair)
        for triple in itertools.product(items[::1 if check.thorough else 3],
                                        repeat=3):
            yield list(triple)

    check.enumerate('overlapping subscriptions', list(several()),
                    lambda conf: verify(conf, types, some))

    # conditions of backend

    def backend_case(conf):
        expected = []

        async def fn(ctx, path):
            r = lib.Runner(path, lib.Conf(
                timeseries=[('TIMESTAMP', [('*',)])], conditions=conf,
                condition=lambda event: event.id in expected))
            await r.open()
            events = []
            for i, (type, payload) in enumerate(
                    itertools.product(types, some)):
                event = event_of((*type, str(i)) if False else type, payload,
                                 i + 1)
                if accepts(conf, type, payload):
                    expected.append(event.id)
                events.append(event)
            await r.register_events(events)
            for op in ('f', 'o', ''):
                n = await lib.check_latest(r.backend, r.model, [None])
                n += await lib.check_timeseries(
                    r.backend, r.model, [common.QueryTimeseriesParams()],
                    pages=())
                n += await lib.check_server(r.backend, r.model, [1],
                                            limits=(None,))
                if op:
                    await r.op(op)
            await r.close()
            return n

        n = env.run_scratch(fn)
        return n, len(types) * len(some), 1, tuple(expected)

    items = [{'subscriptions': i, 'condition': j} for i in subs
             for j in (*conds[:2], conds[-1])]
    check.enumerate('backend', [
        *([i] for i in items),
        *(list(i) for i in itertools.product(items, repeat=2))],
        backend_case)
