"""C02: subscription set algebra"""

import itertools

from mc.core import Violation
from checks import cext
from checks import ref


def run(check):
    from hat.event import common

    parts(check, common.create_subscription, '')
    ext = cext.load(check)
    if ext:
        parts(check, ext[0], ' (C)')

    check.assumptions.append(
        "query types of up to two subtypes over two literals: every pair has "
        "a witness of a difference among event types of up to three subtypes "
        "over three literals")


def parts(check, create, suffix):
    from hat.event import common

    class ListSubscription(common.Subscription):
        """Independent implementation used as foreign operand"""

        def __init__(self, query_types):
            self._query_types = list(query_types)

        def get_query_types(self):
            return iter(self._query_types)

        def matches(self, event_type):
            return ref.matches_any(event_type, self._query_types)

        def union(self, *others):
            raise NotImplementedError()

        def intersection(self, *others):
            raise NotImplementedError()

        def isdisjoint(self, other):
            raise NotImplementedError()

    foreign = [ListSubscription, *([common.create_subscription]
                                   if suffix else [])]
    types = ref.types(['a', 'b', 'c'], 3)

    def expected(query_list):
        return frozenset(t for t in types
                         if ref.matches_any(t, query_list))

    def extension(sub):
        return frozenset(t for t in types if sub.matches(t))

    def verify(sub, exp, what):
        got = extension(sub)
        if got != exp:
            raise Violation(f'{what}: missing {sorted(exp - got)[:5]}, '
                            f'extra {sorted(got - exp)[:5]}')

    def sanitized(sub, exp, what):
        query_types = list(sub.get_query_types())
        if any('*' in i[:-1] for i in query_types):
            raise Violation(f'{what}: invalid query types {query_types}')
        if expected(query_types) != exp:
            raise Violation(f'{what}: get_query_types {query_types} describe '
                            f'other event types')
        verify(create(query_types), exp,
               f'{what} rebuilt from query types')

    queries = ref.query_types(['a', 'b'], 2)
    singles = [()] + [(i,) for i in queries]
    doubles = list(itertools.combinations(queries, 2))
    operands = singles + doubles
    masks = {i: expected(i) for i in operands}

    def pair(first):
        n = 0
        exp_first = masks[first]
        a = create(first)
        sanitized(a, exp_first, f'{first}')
        for second in operands:
            exp_second = masks[second]
            for other in ([create, *foreign] if len(second) < 2 else
                          [create]):
                b = other(second)
                what = f'{list(first)} / {list(second)}'
                both = exp_first & exp_second
                verify(a.union(b), exp_first | exp_second, f'union {what}')
                common_sub = a.intersection(b)
                verify(common_sub, both, f'intersection {what}')
                got = a.isdisjoint(b)
                if bool(got) is not (not both):
                    raise Violation(f'isdisjoint {what} = {got}, common: '
                                    f'{sorted(both)[:5]}')
                n += 3
            # operands unchanged
            if len(second) < 2:
                verify(a, exp_first, f'left operand of {what} changed')
                verify(b, exp_second, f'right operand of {what} changed')
                sanitized(common_sub, both, f'intersection {what}')
                sanitized(a.union(b), exp_first | exp_second,
                          f'union {what}')
                n += 4
        return len(operands), n, 1, len(exp_first)

    check.enumerate('pairs' + suffix, operands, pair,
                    chunk=2, crash=bool(suffix))

    # compositions: results used as operands of further operations
    base = [(), ((),), (('a',),), (('?',),), (('*',),), (('a', 'b'),),
            (('a', '?'),), (('?', 'b'),), (('a', '*'),), (('?', '*'),),
            (('a', 'b', '*'),), (('b', '?', '*'),),
            (('a',), ('a', 'b')), ((), ('b', '*')), (('?', 'a'), ('b',)),
            (('a', '?', '*'), ('?', 'b'))]
    base_masks = {i: expected(i) for i in base}

    def apply(op, a, ea, b, eb):
        if op == 'u':
            return a.union(b), ea | eb
        return a.intersection(b), ea & eb

    depth = 3 if not check.thorough else 4

    def compose(case):
        first, ops = case
        n = 0
        states = 0
        for rest in itertools.product(base, repeat=len(ops)):
            sub = create(first)
            exp = base_masks[first]
            what = f'{first}'
            history = [(sub, exp, what)]
            for op, other in zip(ops, rest):
                sub, exp = apply(op, sub, exp,
                                 create(other),
                                 base_masks[other])
                what = f'({what} {op} {other})'
                history.append((sub, exp, what))
            verify(sub, exp, what)
            sanitized(sub, exp, what)
            # results are ordinary operands
            for other in base:
                b = create(other)
                eb = base_masks[other]
                if bool(sub.isdisjoint(b)) is not (not exp & eb):
                    raise Violation(f'isdisjoint {what} / {other}')
                if bool(b.isdisjoint(sub)) is not (not exp & eb):
                    raise Violation(f'isdisjoint {other} / {what}')
                n += 2
            # nothing used on the way has been changed
            for s, e, w in history:
                verify(s, e, f'{w} changed by later operation')
                n += 1
            states += 1
        return states, n, states, None

    ops = [i for k in range(1, depth) for i in itertools.product('ui',
                                                                repeat=k)]
    check.enumerate('compositions' + suffix, [(i, o) for i in base for o in ops],
                    compose, chunk=1, crash=bool(suffix))

    # variadic forms
    def variadic(case):
        first, second, third = case
        subs = [create(i) for i in case]
        e = [base_masks[i] for i in case]
        verify(subs[0].union(*subs[1:]), e[0] | e[1] | e[2],
               f'variadic union {case}')
        verify(subs[0].intersection(*subs[1:]), e[0] & e[1] & e[2],
               f'variadic intersection {case}')
        verify(subs[0].union(), e[0], f'union without operands {case}')
        verify(subs[0].intersection(), e[0],
               f'intersection without operands {case}')
        # both results combined (tree shaped composition)
        u = subs[0].union(subs[1])
        i = subs[1].intersection(subs[2])
        verify(u.intersection(i), (e[0] | e[1]) & e[1] & e[2],
               f'tree composition {case}')
        if bool(u.isdisjoint(i)) is not (not (e[0] | e[1]) & e[1] & e[2]):
            raise Violation(f'isdisjoint of results {case}')
        return 1, 6, 1, len(e[0] & e[1] & e[2])

    check.enumerate('variadic' + suffix, list(itertools.product(base, repeat=3)),
                    variadic, crash=bool(suffix))

    # unusual subtypes

    names = ['', 'ab', 'abc', '*x', '?x', '**', '\u010d\u010d', '*\0',
             'x' * 300]
    special_types = ref.types([*names, '*', '?'], 2)

    def special(case):
        # strings are not shared with anything else
        first, second = [[tuple(''.join(list(j)) for j in i) for i in q]
                         for q in case]
        a, b = create(first), create(second)
        del first, second
        for _ in range(3):
            a.union(b), a.intersection(b), list(a.get_query_types())
        union, both = a.union(b), a.intersection(b)
        query_types = list(union.get_query_types())
        common_found = False
        for t in special_types:
            x, y = ref.matches_any(t, case[0]), ref.matches_any(t, case[1])
            common_found = common_found or (x and y)
            if bool(union.matches(t)) is not (x or y):
                raise Violation(f'union {case} / {t}')
            if ref.matches_any(t, query_types) is not (x or y):
                raise Violation(f'union {case} query types {query_types} / '
                                f'{t}')
            if bool(both.matches(t)) is not (x and y):
                raise Violation(f'intersection {case} / {t}')
        if bool(a.isdisjoint(b)) is common_found:
            raise Violation(f'isdisjoint {case}')
        return 1, len(special_types) * 3, 1, case

    queries = ref.query_types(names, 1)
    check.enumerate('unusual subtypes' + suffix, [
        *(([i], [j]) for i in queries for j in queries),
        *(([i, j], [j, k]) for i, j, k in zip(
            queries, queries[1:], queries[2:])),
        *(([i, (j, *i)], [(j, '?'), (j, j, '*')]) for i in queries
          for j in names)], special, crash=bool(suffix))

    # event types which are easily confused with each other

    def confusable(case):
        first, second = case
        a, b = create(first), create(second)
        union, both = a.union(b), a.intersection(b)
        for t in ref.confusable:
            x, y = t in first, t in second
            if bool(union.matches(t)) is not (x or y) or \
                    bool(both.matches(t)) is not (x and y):
                raise Violation(f'{first} and {second}: {t}')
        for sub, exp in ((union, {*first, *second}),
                         (both, {*first} & {*second})):
            if {tuple(i) for i in sub.get_query_types()} != exp:
                raise Violation(f'{first} and {second}: query types '
                                f'{list(sub.get_query_types())}')
        if bool(a.isdisjoint(b)) is bool({*first} & {*second}):
            raise Violation(f'isdisjoint of {first} and {second}')
        return 1, 2 * len(ref.confusable) + 3, 1, case

    check.enumerate('confusable types' + suffix, [
        *(([i], [j]) for i in ref.confusable for j in ref.confusable),
        *((ref.confusable[i::2], ref.confusable[j::k])
          for k in range(1, 9) for j in range(k) for i in range(2))],
        confusable, crash=bool(suffix))

    # large operands

    def large(case):
        count, step, depth = case

        def name(i):
            return ('t', *(str((i >> 4 * j) % 16) for j in range(depth)),
                    str(i))

        first = {name(i) for i in range(0, count)}
        second = {name(i) for i in range(count // 2, 2 * count, step)}
        a, b = create(sorted(first)), create(sorted(second))
        apart = create(sorted(first - second))
        both, union = a.intersection(b), a.union(b)
        for what, sub, exp in (('union', union, first | second),
                               ('intersection', both, first & second),
                               ('left', a, first), ('right', b, second),
                               ('again', union.intersection(both),
                                first & second),
                               ('variadic', create([]).union(a, apart, b),
                                first | second)):
            for i in range(2 * count + 5):
                t = name(i)
                if bool(sub.matches(t)) is not (t in exp):
                    raise Violation(f'{what} of {len(first)} and '
                                    f'{len(second)} types: {t}')
            if {tuple(i) for i in sub.get_query_types()} != exp:
                raise Violation(f'{what} of {len(first)} and {len(second)} '
                                'types: query types differ')
        for x, y, exp in ((a, b, not first & second), (apart, b, True),
                          (b, apart, True), (union, both,
                                             not first & second)):
            if bool(x.isdisjoint(y)) is not exp:
                raise Violation(f'isdisjoint of {len(first)} and '
                                f'{len(second)} types')
        everything = create([('t', '*')])
        if everything.isdisjoint(a) or \
                {tuple(i) for i in a.intersection(
                    everything).get_query_types()} != first:
            raise Violation(f'intersection of {len(first)} types with *')
        return count, count * 14, 1, case

    check.enumerate('large operands' + suffix, [
        (count, step, depth) for count in (10, 50, 200, 600, 3000)
        for step in (1, 7, 10 ** 6) for depth in (0, 2, 5)], large,
        chunk=1, crash=bool(suffix))
