"""Reference definitions (deliberately boring, independent of the code)."""

import itertools


def matches(event_type, query_type):
    """Definition of wildcard matching"""
    if not query_type:
        return not event_type
    if query_type[0] == '*' and len(query_type) == 1:
        return True
    if not event_type:
        return False
    if query_type[0] != '?' and query_type[0] != event_type[0]:
        return False
    return matches(event_type[1:], query_type[1:])


def matches_any(event_type, query_types):
    return any(matches(event_type, tuple(i)) for i in query_types)


def types(alphabet, max_len, min_len=0):
    """All event types up to max_len"""
    return [i for n in range(min_len, max_len + 1)
            for i in itertools.product(alphabet, repeat=n)]


def query_types(alphabet, max_len):
    """All query types with up to max_len subtypes before optional '*'"""
    base = types([*alphabet, '?'], max_len)
    return [*base, *((*i, '*') for i in base)]


def lists(items, max_len, min_len=0):
    return [i for n in range(min_len, max_len + 1)
            for i in itertools.product(items, repeat=n)]


# different event types which become equal if subtypes are joined, trimmed,
# normalized, folded or converted
confusable = [
    (), ('',), ('', ''), ('a',), ('a', ''), ('', 'a'), ('a', 'b'), ('b', 'a'),
    ('ab',), ('a/b',), ('a/', 'b'), ('a', '/b'), ('a', '', 'b'),
    ('a', 'b', ''), ('', 'a', 'b'), ('a.b',), ('a,b',), ('a|b',), ('a:b',),
    ('a;b',), ('a_b',), ('a-b',), ('a b',), ('a\tb',), ('a\nb',), ('a\0b',),
    ('a\0',), ('\0',), ('\0', ''), ('a\x1fb',), ('A',), ('A', 'b'), ('a ',),
    (' a',), ('\u00e1',), ('a\u0301',), ('1',), ('01',), ('1.0',), ('True',),
    ('true',), ('None',), ('null',), ('["a", "b"]',), ('["a","b"]',),
    ("('a', 'b')",), ("a', 'b",), ('a", "b',), ('a\\', 'b'), ('a\\/b',),
    ('%61',), ('\\u0061',), ('\u00df',), ('ss',), ('\U0001f600',),
    ('a' * 255,), ('a' * 256,), ('a',) * 3, ('aa', 'a'), ('a', 'aa'),
    ('aaa',), ('*a',), ('?a',), ('a*',), ('a', '*b'), ('#',), ('+',)]
