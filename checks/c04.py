"""C04: timestamps and natural event order"""

import datetime
import itertools
from fractions import Fraction
import math

from mc.core import Violation

utc = datetime.timezone.utc
epoch = datetime.datetime(1970, 1, 1, tzinfo=utc)
usec = [0, 1, 499_999, 500_000, 500_001, 999_998, 999_999]


def _seconds(thorough):
    span = 4 if not thorough else 64
    bounds = [-(1 << 63), -(1 << 53), -(1 << 32), -(1 << 31), -86400, 0, 86400,
              1 << 31, 1 << 32, 1 << 53, 1_700_000_000, (1 << 63) - 1]
    result = set()
    for b in bounds:
        for d in range(-span, span + 1):
            if -(1 << 63) <= b + d < (1 << 63):
                result.add(b + d)
    # each byte boundary
    for i in range(0, 63, 1 if thorough else 4):
        for d in (-1, 0, 1):
            for sign in (-1, 1):
                result.add(sign * ((1 << i) + d))
    return sorted(result)


def _datetimes(thorough):
    dates = [(1, 1, 1), (1, 1, 2), (999, 12, 31), (1582, 10, 15),
             (1600, 2, 29), (1899, 12, 31), (1900, 1, 1), (1900, 3, 1),
             (1901, 12, 13), (1969, 12, 31), (1970, 1, 1), (1970, 1, 2),
             (1999, 12, 31), (2000, 2, 29), (2038, 1, 19), (2038, 1, 20),
             (2100, 2, 28), (2106, 2, 7), (2255, 6, 5), (2255, 6, 6),
             (2400, 2, 29), (5138, 11, 16), (9999, 12, 30), (9999, 12, 31)]
    times = [(0, 0, 0), (0, 0, 1), (0, 0, 59), (3, 14, 7), (3, 14, 8),
             (11, 59, 59), (12, 0, 0), (20, 45, 52), (23, 59, 58),
             (23, 59, 59)]
    if thorough:
        dates += [(y, m, d) for y in range(1, 10000, 37)
                  for m, d in ((1, 1), (2, 28), (3, 1), (12, 31))]
    return [datetime.datetime(*d, *t) for d in dates for t in times]


def run(check):
    from hat.event import common

    T = common.Timestamp
    stamps = [T(s, us) for s in _seconds(check.thorough) for us in usec]
    stamps.sort(key=lambda t: (t[0], t[1]))

    def stamp(i):
        t = stamps[i]
        data = bytes(common.timestamp_to_bytes(t))
        if len(data) != 12:
            raise Violation(f'{t} is encoded as {len(data)} bytes')
        if data[:8] != (t.s + (1 << 63)).to_bytes(8, 'big') or \
                data[8:] != t.us.to_bytes(4, 'big'):
            raise Violation(f'{t} is not encoded as documented: {data}')
        got = common.timestamp_from_bytes(data)
        if not isinstance(got, T) or tuple(got) != tuple(t):
            raise Violation(f'{t} decoded as {got}')
        got = common.timestamp_from_bytes(memoryview(data))
        if tuple(got) != tuple(t):
            raise Violation(f'{t} decoded from memoryview as {got}')
        got = common.timestamp_from_sbs(common.timestamp_to_sbs(t))
        if tuple(got) != tuple(t):
            raise Violation(f'{t} through SBS is {got}')
        for other in stamps[i + 1:]:
            if not data < bytes(common.timestamp_to_bytes(other)):
                raise Violation(f'bytes of {t} are not before {other}')
        return 1, 4 + len(stamps) - i, 1, data

    check.enumerate('bytes', range(len(stamps)), stamp)

    def exact_us(dt):
        delta = dt - epoch
        return ((delta.days * 86400 + delta.seconds) * 1_000_000 +
                delta.microseconds)

    zones = [None, utc, datetime.timezone(datetime.timedelta(hours=14)),
             datetime.timezone(-datetime.timedelta(hours=9, minutes=30)),
             datetime.timezone(datetime.timedelta(seconds=1,
                                                  microseconds=1))]

    def date(base):
        n = 0
        result = []
        for us in usec:
            for zone in zones:
                dt = base.replace(microsecond=us, tzinfo=zone)
                try:
                    ref = dt if zone else dt.replace(tzinfo=utc)
                    exact = exact_us(ref)
                    as_utc = epoch + datetime.timedelta(microseconds=exact)
                except OverflowError:
                    continue
                exp = T(exact // 1_000_000, exact % 1_000_000)
                got = common.timestamp_from_datetime(dt)
                if tuple(got) != tuple(exp):
                    raise Violation(f'timestamp_from_datetime({dt!r}) = '
                                    f'{got}, expected {exp}')
                back = common.timestamp_to_datetime(exp)
                if back != as_utc or back.utcoffset() != datetime.timedelta():
                    raise Violation(f'timestamp_to_datetime({exp}) = '
                                    f'{back!r}, expected {as_utc!r}')
                n += 1
                result.append(exp)
        return n, 2 * n, n, result

    check.enumerate('datetime', _datetimes(check.thorough), date)

    numbers = {0.0, -0.0, 0.5, 1.0, 1e-6, 1e-7, 4e-7, 5e-7, 6e-7, 0.1, 0.3,
               0.999999, 0.9999994, 0.9999995, 0.9999996, 0.9999999,
               1 / 3, 2 / 3}
    whole = [0, 1, 2, 59, 86400, 123456789, 1_700_000_000, 1 << 31,
             (1 << 31) - 1, 1 << 32, 253402300799, (1 << 52) + 1, 1 << 60]
    floats = sorted({sign * (w + f) for w in whole for f in numbers
                     for sign in (1, -1)})
    if check.thorough:
        floats = sorted({*floats, *(sign * i * 1e-6 for sign in (1, -1)
                                    for i in range(0, 20_000, 7)),
                         *(sign * (w + i / 997) for sign in (1, -1)
                           for w in whole for i in range(997))})
    floats = sorted({*floats, *(math.nextafter(i, math.inf) for i in floats),
                     *(math.nextafter(i, -math.inf) for i in floats)})

    def normalised(t, what):
        if type(t.s) is not int or type(t.us) is not int or \
                not 0 <= t.us < 1_000_000:
            raise Violation(f'{what} = {t} is not normalised')

    def near(t, exact, what):
        # half of microsecond (and float arithmetic used for scaling)
        got = Fraction(t.s) + Fraction(t.us, 1_000_000)
        if abs(got - exact) > Fraction(1, 2_000_000) * (1 +
                                                        Fraction(1, 1000)):
            raise Violation(f'{what} = {t}, off by {float(got - exact)}s')

    def number(value):
        got = common.timestamp_from_float(value)
        normalised(got, f'timestamp_from_float({value!r})')
        near(got, Fraction(value), f'timestamp_from_float({value!r})')
        back = common.timestamp_to_float(got)
        if abs(back - value) > max(6e-7, abs(math.ulp(value)) * 2):
            raise Violation(f'timestamp_to_float({got}) = {back!r}, '
                            f'expected {value!r}')
        return 1, 2, 1, got

    check.enumerate('float', floats, number)

    bases = [T(s, us) for s in (-(1 << 40), -2, -1, 0, 1, 1_700_000_000,
                                1 << 40)
             for us in usec]
    deltas = [0, 1, -1, 5, -86400, 1 << 40, 0.0, 0.5, -0.5, 1e-6, -1e-6,
              0.999999, -0.999999, 1.000001, -1.000001, 0.0000004, -0.0000004,
              0.9999999, -0.9999999, 123.456789, -123.456789, 1e9 + 0.25,
              -1e9 - 0.25, 0.1, -0.1]
    if check.thorough:
        deltas += [sign * (w + i / 211) for sign in (1, -1)
                   for w in (0, 1, 1000) for i in range(211)]

    def add(base):
        result = []
        for delta in deltas:
            got = base.add(delta)
            what = f'{base}.add({delta!r})'
            normalised(got, what)
            near(got, Fraction(base.s) + Fraction(base.us, 1_000_000) +
                 Fraction(delta), what)
            result.append(tuple(got))
        return len(deltas), len(deltas), 1, result

    check.enumerate('add', bases, add)

    ids = [common.EventId(*i) for i in itertools.product((1, 2), (1, 2),
                                                         (1, 2))]
    times = [T(-1, 999_999), T(0, 0), T(0, 1), T(1, 0)]
    events = [common.Event(id=i, type=t, timestamp=ts, source_timestamp=sts,
                           payload=None)
              for i in ids for t in (('a',), ('b',)) for ts in times
              for sts in (None, T(0, 5))]

    def order(a):
        result = []
        for b in events:
            lt, gt = a < b, a > b
            what = f'{a} and {b}'
            if a.id == b.id:
                exp = False, False
            elif a.id.server == b.id.server:
                exp = tuple(a.id) < tuple(b.id), tuple(a.id) > tuple(b.id)
            elif a.timestamp != b.timestamp:
                exp = (tuple(a.timestamp) < tuple(b.timestamp),
                       tuple(a.timestamp) > tuple(b.timestamp))
            else:
                # first operand is by definition registered first
                exp = True, False
            if (lt, gt) != exp:
                raise Violation(f'natural order (<, >) = {(lt, gt)}, expected '
                                f'{exp} for {what}')
            result.append((lt, gt))
        return len(events), 2 * len(events), 1, result

    check.enumerate('natural order', events, order)

    check.assumptions = [
        'timestamps, datetimes and floats are exhaustively combined from '
        'boundary alphabets (listed in checks/c04.py), not the whole 2^84 '
        'domain',
        'float conversion tolerance is half a microsecond']
