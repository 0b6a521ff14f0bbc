"""C03: event type collections"""

import itertools

from mc.core import Violation
from checks import cext
from checks import ref


def run(check):
    from hat.event import common
    from hat.event.common.collection.pylist import PyListEventTypeCollection
    from hat.event.common.collection.pytree import PyTreeEventTypeCollection

    parts(check, common.create_subscription,
          {'default': common.create_event_type_collection,
           'tree': PyTreeEventTypeCollection,
           'list': PyListEventTypeCollection}, '')
    ext = cext.load(check)
    if ext:
        create, collection = ext
        parts(check, create,
              {'ctree': collection,
               'ctree py': lambda items=(): collection(
                   [(common.create_subscription(s.get_query_types()), v)
                    for s, v in items]),
               'tree': PyTreeEventTypeCollection,
               'list': PyListEventTypeCollection}, ' (C)')
    check.assumptions.append('values are hashable and comparable by equality')


def parts(check, create, impls, suffix):
    from hat.event import common

    types = ref.types(['a', 'b', 'c'], 2) + [('a', 'b', 'c'), ('a', 'c', 'b')]

    subs = [((),), (('a',),), (('a',), ('b',)), (('?',), ('a', 'b')),
            (('a', '*'),), (('*',),), (('a', '?'), ('b', '*')), ()]
    values = [1, (2, 'x')]

    ops = [('add', i, v) for i in range(len(subs)) for v in values]
    ops += [('remove', v) for v in values]

    def play(case):
        impl, init, history = case
        model = {}
        items = [(create(subs[i]), v) for i, v in init]
        for i, v in init:
            model.setdefault(v, []).extend(subs[i])
        collection = impls[impl](items) if items else impls[impl]()
        for op in history:
            if op[0] == 'add':
                _, i, v = op
                collection.add(create(subs[i]), v)
                model.setdefault(v, []).extend(subs[i])
            else:
                collection.remove(op[1])
                model.pop(op[1], None)
        result = []
        for event_type in types:
            got = list(collection.get(event_type))
            exp = {v for v, q in model.items()
                   if ref.matches_any(event_type, q)}
            if len(got) != len(set(got)) or set(got) != exp:
                raise Violation(f'{impl} {init} {history}: get({event_type})'
                                f' = {got}, expected {exp}')
            result.append(sorted(map(repr, exp)))
        return 1, len(history) + len(types), 1, result

    depth = 4
    if check.thorough:
        depth = 5
    cases = ((impl, (), history)
             for n in range(0, depth + 1)
             for impl in impls
             if not (impl in ('default', 'ctree py') and n > 3)
             for history in itertools.product(ops, repeat=n))
    check.enumerate('histories' + suffix, cases, play, chunk=400,
                    time_limit=120, crash=bool(suffix))

    inits = [tuple(zip(i, v)) for n in (1, 2, 3)
             for i in itertools.product(range(len(subs)), repeat=n)
             for v in itertools.product(values, repeat=n)]
    cases = [(impl, init, history) for impl in impls for init in inits
             for history in ((), (('remove', 1),),
                             (('remove', 1), ('add', 1, 1)),
                             (('add', 3, 1), ('remove', (2, 'x'))))]
    check.enumerate('constructor' + suffix, cases, play,
                    crash=bool(suffix))

    # foreign subscription implementations are accepted too
    class ListSubscription(common.Subscription):

        def __init__(self, query_types):
            self._query_types = list(query_types)

        def get_query_types(self):
            return iter(self._query_types)

        def matches(self, event_type):
            return ref.matches_any(event_type, self._query_types)

        def union(self, *others):
            return ListSubscription(self._query_types + [
                i for o in others for i in o.get_query_types()])

        def intersection(self, *others):
            raise NotImplementedError()

        def isdisjoint(self, other):
            raise NotImplementedError()

    def overlapping(case):
        """unsanitised query types: duplicates and overlaps of one value"""
        impl, queries = case
        c = impls[impl]()
        c.add(ListSubscription(queries), 'v')
        c.add(ListSubscription([('b',)]), 'w')
        for event_type in types:
            exp = {v for v, q in (('v', queries), ('w', [('b',)]))
                   if ref.matches_any(event_type, q)}
            got = list(c.get(event_type))
            if sorted(got) != sorted(exp):
                raise Violation(f'{impl} {queries} get({event_type}) = {got}')
        c.remove('v')
        for event_type in types:
            got = list(c.get(event_type))
            if got != (['w'] if event_type == ('b',) else []):
                raise Violation(f'{impl} {queries} removed: get({event_type})'
                                f' = {got}')
        return 1, 2 * len(types), 1, queries

    small = [(), ('a',), ('?',), ('*',), ('a', 'b'), ('a', '*'), ('?', 'b')]
    check.enumerate('overlapping' + suffix, [(i, q) for i in impls
                                    for q in ref.lists(small, 3)],
                    overlapping, crash=bool(suffix))

    # unusual subtypes

    names = ['', 'a', 'ab', '*x', '?x', '**', '\u010d', '\0', '*\0', '?\0',
             'a\0b', 'x' * 300]
    special_types = ref.types([*names, '*', '?'], 2)

    def special(case):
        impl, queries = case
        c = impls[impl]()
        for i, q in enumerate(queries):
            c.add(create([q]), i)
        for removed in (None, *range(len(queries))):
            if removed is not None:
                c.remove(removed)
            for event_type in special_types:
                exp = [i for i, q in enumerate(queries)
                       if (removed is None or i > removed) and
                       ref.matches(event_type, q)]
                got = sorted(c.get(event_type))
                if got != exp:
                    raise Violation(f'{impl} {queries} removed up to '
                                    f'{removed}: get({event_type}) = {got}, '
                                    f'expected {exp}')
        return 1, len(special_types), 1, queries

    queries = ref.query_types(names, 2)
    check.enumerate('unusual subtypes' + suffix, [
        (impl, (queries + queries)[i:i + n]) for impl in impls
        for n in (1, 3) for i in range(0, len(queries), n)], special,
        crash=bool(suffix))

    # many values, long event types

    # event types which are easily confused with each other

    def confusable(case):
        impl, types = case
        c = impls[impl]([])
        for i, t in enumerate(types):
            c.add(create([t]), i)

        def compare(values, what):
            for i, t in enumerate(types):
                got = list(c.get(t))
                if got != ([i] if i in values else []):
                    raise Violation(f'{impl} {what}: get({t}) of {types} is '
                                    f'{got}, expected {i in values}')

        left = set(range(len(types)))
        compare(left, 'after adding')
        for i in range(0, len(types), 2):
            c.remove(i)
            left.remove(i)
        compare(left, 'after removing')
        return len(types), 3 * len(types), 1, case

    check.enumerate('confusable types' + suffix, [
        *((impl, types) for impl in impls
          for types in (ref.confusable, ref.confusable[::-1])),
        *((impl, i) for impl in impls
          for i in itertools.combinations(ref.confusable, 2))], confusable,
        crash=bool(suffix))

    def large(case):
        impl, count, depth = case

        def name(i):
            return ('t', *(str((i >> 4 * j) % 16) for j in range(depth)),
                    str(i))

        c = impls[impl]()
        model = {}

        def add(i, v):
            # value has several, partly shared event types
            c.add(create([name(i), name(i + 1), (*name(i), '?')]), v)
            for t in (i, i + 1):
                model.setdefault(t, set()).add(v)

        def remove(v):
            c.remove(v)
            for values in model.values():
                values.discard(v)

        def compare(what):
            for i in range(count + 3):
                got = list(c.get(name(i)))
                exp = model.get(i, set()) | every
                if len(got) != len(exp) or set(got) != exp:
                    raise Violation(f'{impl} {what} of {count} values: '
                                    f'get({name(i)})')

        every = set()
        for i in range(count):
            add(i, i)
        compare('adding')
        c.add(create([('t', '*')]), 'all')
        every = {'all'}
        for i in range(0, count, 2):
            remove(i)
        compare('removing half')
        c.remove('all')
        every = set()
        for i in range(0, count, 3):
            add(i + 1, i)
        compare('adding again')
        for i in range(count):
            remove(i)
        compare('removing')
        return count, count * 6, 1, case

    check.enumerate('many values' + suffix, [
        (impl, count, depth) for impl in impls
        for count in (20, 200, 600) for depth in (0, 2, 40)
        if impl != 'list' or count < 600], large, chunk=1,
        crash=bool(suffix))
