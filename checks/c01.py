"""C01: event type wildcard matching"""

from mc.core import Violation
from checks import cext
from checks import ref


def run(check):
    from hat.event import common

    parts(check, common.create_subscription, '')
    ext = cext.load(check)
    if ext:
        parts(check, ext[0], ' (C)')

    check.assumptions.append(
        "subtypes are compared only for equality, so three distinct literal "
        "subtypes (two used in queries) stand for all; lengths are bounded")


def parts(check, create, suffix):
    from hat.event import common

    n = 4 if not check.thorough else 5
    event_types = ref.types(['a', 'b', 'c', ''], n)
    queries = ref.query_types(['a', 'b', ''], n)

    def pair(query_type):
        k = 0
        for event_type in event_types:
            got = common.matches_query_type(event_type, query_type)
            exp = ref.matches(event_type, query_type)
            if bool(got) is not exp:
                raise Violation(f'matches_query_type({event_type}, '
                                f'{query_type}) = {got}, expected {exp}')
            sub = create([query_type])
            got = sub.matches(event_type)
            if bool(got) is not exp:
                raise Violation(f'subscription [{query_type}] matches '
                                f'{event_type} = {got}, expected {exp}')
            k += exp
        return len(event_types), 2 * len(event_types), 1, k

    check.enumerate('pairs' + suffix, queries, pair, crash=bool(suffix))

    m = 2
    small = ref.query_types(['a', 'b'], m)
    if check.thorough:
        small = ref.query_types(['a', 'b'], 3)
    types = ref.types(['a', 'b', 'c'], 3 if not check.thorough else 4)
    depth = 3

    def compare(query_list):
        sub = create(list(query_list))
        mask = []
        for event_type in types:
            got = bool(sub.matches(event_type))
            exp = ref.matches_any(event_type, query_list)
            mask.append(exp)
            if got is not exp:
                raise Violation(f'subscription {list(query_list)} matches '
                                f'{event_type} = {got}, expected {exp}')
        # asking again and interleaving with other queries changes nothing
        for event_type, exp in zip(reversed(types), reversed(mask)):
            if bool(sub.matches(event_type)) is not exp:
                raise Violation(f'subscription {list(query_list)} is not '
                                f'stable for {event_type}')
        return 1, 2 * len(types), 1, mask

    check.enumerate('lists' + suffix, ref.lists(small, depth), compare,
                    crash=bool(suffix))

    # longer lists (insertion order of more than three overlapping types)
    tiny = [(), ('a',), ('?',), ('a', 'b'), ('a', '?'), ('?', 'b'),
            ('a', '*'), ('a', 'b', '*'), ('*',)]
    check.enumerate('long lists' + suffix,
                    ref.lists(tiny, 5 if not check.thorough else 6, 4),
                    compare, crash=bool(suffix))

    # one shot iterables and lists as event types
    def iterables(query_list):
        sub = create(i for i in query_list)
        for event_type in types:
            if bool(sub.matches(event_type)) is not ref.matches_any(
                    event_type, query_list):
                raise Violation(f'generator {query_list} / {event_type}')
        return 1, len(types), 1, None

    check.enumerate('iterables' + suffix, ref.lists(small, 2), iterables,
                    crash=bool(suffix))

    # unusual subtypes

    names = ['', 'a', 'ab', '*x', '?x', '**', '??', '\u010d', '\0', '*\0',
             '?\0', 'a\0b', 'x' * 300, '\U0001f642']
    special_types = ref.types([*names, '*', '?'], 2)

    def special(query_list):
        sub = create(query_list)
        for event_type in special_types:
            exp = ref.matches_any(event_type, query_list)
            if bool(sub.matches(event_type)) is not exp:
                raise Violation(f'subscription {query_list} matches '
                                f'{event_type} is not {exp}')
            if len(query_list) == 1 and bool(common.matches_query_type(
                    event_type, query_list[0])) is not exp:
                raise Violation(f'matches_query_type({event_type}, '
                                f'{query_list[0]}) is not {exp}')
        return 1, len(special_types), 1, query_list

    check.enumerate('unusual subtypes' + suffix, [
        *([i] for i in ref.query_types(names, 2)),
        *([i, j] for i in ref.query_types(names, 1)
          for j in ref.query_types(names, 1))], special, crash=bool(suffix))

    # event types which are easily confused with each other

    def confusable(query_type):
        sub = create([query_type])
        rest = create([i for i in ref.confusable if i != query_type])
        for event_type in ref.confusable:
            same = event_type == query_type
            if bool(sub.matches(event_type)) is not same or \
                    bool(rest.matches(event_type)) is same:
                raise Violation(f'subscription to {query_type} or to others '
                                f'matches {event_type} wrongly')
            if bool(common.matches_query_type(event_type,
                                              query_type)) is not same:
                raise Violation(f'matches_query_type({event_type}, '
                                f'{query_type}) is not {same}')
            for other in ((*event_type, 'a', ''), ('', *event_type)):
                if bool(sub.matches(other)) is not (other == query_type):
                    raise Violation(f'subscription to {query_type} matches '
                                    f'{other} wrongly')
        return 1, 5 * len(ref.confusable), 1, query_type

    check.enumerate('confusable types' + suffix, ref.confusable, confusable,
                    crash=bool(suffix))

    # long event types

    def long_type(case):
        n, names = case
        base = tuple(names[i % len(names)] for i in range(n))
        positions = sorted({0, 1, n // 2, n - 2, n - 1})
        queries = [base, (*base, '*'), (*base, '?'), (*base, 'x'),
                   ('?',) * n, (*('?',) * n, '*'), base[:-1],
                   (*base[:-1], '*'), (*base[:-1], '?', '*'), ('*',), ('?',),
                   *((*base[:i], '?', *base[i + 1:]) for i in positions),
                   *((*base[:i], 'x', *base[i + 1:]) for i in positions),
                   *((*base[:i], '*') for i in positions),
                   *((*base[:i], 'x', '*') for i in positions)]
        event_types = [base, (*base, 'x'), base[:-1], base[::-1], (),
                       *((*base[:i], 'x', *base[i + 1:]) for i in positions),
                       *((*base[:i], '', *base[i + 1:]) for i in positions),
                       *((*base[:i], *base[i + 1:]) for i in positions)]
        every = create(queries)
        for event_type in event_types:
            found = False
            for query in queries:
                exp = ref.matches(event_type, query)
                found = found or exp
                if bool(common.matches_query_type(event_type,
                                                  query)) is not exp:
                    raise Violation(f'matches_query_type of {n} subtypes, '
                                    f'{event_type}, {query} is not {exp}')
                if bool(create([query]).matches(event_type)) is not exp:
                    raise Violation(f'subscription of {n} subtypes, {query} '
                                    f'matches {event_type} is not {exp}')
            if bool(every.matches(event_type)) is not found:
                raise Violation(f'subscription of many types of {n} '
                                f'subtypes, {event_type} is not {found}')
        return len(event_types), len(event_types) * len(queries), 1, n

    check.enumerate('long types' + suffix, [
        (n, names) for n in (2, 5, 8, 9, 16, 17, 33, 64, 65, 100, 130, 257)
        for names in ('a', 'ab', 'abcdefgh', ('', 'b'), ('a' * 70, 'b'))],
        long_type, crash=bool(suffix))

    # many query types

    def many(case):
        count, wildcard = case
        every = [('t', str(i // 7), str(i)) for i in range(count)]
        queries = [(*i[:-1], '?') if wildcard == '?' and not n % 10 else
                   (*i[:2], '*') if wildcard == '*' and not n % 10 else
                   i for n, i in enumerate(every) if n % 3]
        exact = set(queries)
        wild = {i[1] for i in queries if i[-1] in ('?', '*')}
        sub = create(queries)
        for i in every:
            exp = i in exact or i[1] in wild
            if bool(sub.matches(i)) is not exp:
                raise Violation(f'one of {len(queries)} query types, {i}: '
                                f'expected {exp}')
            exp = i[1] in wild and wildcard == '*'
            if bool(sub.matches((*i, 'x'))) is not exp:
                raise Violation(f'one of {len(queries)} query types, '
                                f'{(*i, "x")}: expected {exp}')
        return count, 2 * count, 1, case

    check.enumerate('many query types' + suffix, [
        (count, wildcard) for count in (20, 100, 300, 1000, 5000, 20000)
        for wildcard in ('', '?', '*')], many, chunk=1, crash=bool(suffix))
