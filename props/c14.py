"""Range and Content-Range headers: parsed strictly, served exactly.

The oracle is an independent reading of RFC 7233 in the harness.
Outside the bounds: longer header texts, more than 3 ranges, positions
beyond the given bounds; ranges that overlap or run backwards are ignored by
design.
"""
from verktyg.http import (
    Range, ContentRange, parse_range_header, parse_content_range_header,
)

DIG = '0123456789'
BIG = 10 ** 12
CH = list('0123456789-,/*= aZ+_') + ['\t', '\u0663', '\xb2']


def number(s):
    """value of a string of decimal digits, or None"""
    s = s.strip()
    if not s:
        return None
    n = 0
    for c in s:
        if c not in DIG:
            return None
        n = n * 10 + ord(c) - 48
    return n


def spec_ranges(rng):
    """list of (first, last or None) or ('suffix', n); None: malformed"""
    out = []
    reach = -1        # last position covered so far, None for the end
    for item in rng.split(','):
        item = item.strip()
        a, dash, b = item.partition('-')
        if not dash:
            return None
        if reach is None:
            return None
        if item[0] == '-':
            n = number(b)
            if not n:
                return None
            out.append((-n, None))
            reach = None
            continue
        first = number(a)
        if first is None or first <= reach:
            return None
        if b == '':
            out.append((first, None))
            reach = None
        else:
            last = number(b)
            if last is None or last < first:
                return None
            out.append((first, last + 1))
            reach = last
    return out


def h_parse(sx):
    """any range set of up to 7 (thorough 9) characters"""
    units = sx.choice('units', ['bytes', ' Bytes', 'items'])
    rng = sx.text('rng', sx.t(7, 9) if units == 'bytes' else 3, CH)
    got = parse_range_header(units + '=' + rng)
    want = spec_ranges(rng)
    if want is None:
        sx.check(got is None, 'malformed ranges are ignored')
    else:
        sx.check(got is not None, 'proper ranges are understood')
        sx.check(got.units == units.strip().lower(), 'the units are kept')
        sx.check(got.ranges == want, 'the positions are right')


def h_any(sx):
    """any header text of up to 3 characters, or no header at all"""
    if sx.bool('none'):
        sx.check(parse_range_header(None) is None, 'no header, no range')
        sx.check(parse_content_range_header(None) is None, 'no header')
        return
    t = sx.text('t', 3, sx.UNI)
    got = parse_range_header(t)
    got2 = parse_content_range_header(t)
    sx.check(got is None or t[0] == '=', 'too short to be a range')
    sx.check(got2 is None or t.strip()[-1:] in '*' + DIG, 'not a range')


def h_serve(sx):
    """one range of symbolic positions below 10^12 served from content of any
    length below 10^12; every position is decided"""
    kind = sx.choice('kind', ['closed', 'open', 'suffix'])
    a = sx.int('a', 0, BIG)
    length = sx.int('length', 0, BIG)
    p = sx.int('p', 0, BIG)
    if kind == 'closed':
        b = sx.int('b', 0, BIG)
        sx.assume(a < b)
        r = Range('bytes', [(a, b)])
        asked = a <= p
        satisfiable = a < length
    elif kind == 'open':
        r = Range('bytes', [(a, None)])
        asked = a <= p
        satisfiable = a < length
    else:
        sx.assume(a > 0)
        r = Range('bytes', [(-a, None)])
        asked = p >= length - a
        satisfiable = length > 0
    got = r.range_for_length(length)
    cr = r.make_content_range(length)
    if not satisfiable:
        sx.check(got is None and cr is None, 'nothing to serve')
        return
    sx.assume(p < length)
    if kind == 'closed':
        asked = bool(asked) and bool(p < b)
    sx.check(got is not None and cr is not None, 'there is something to serve')
    sx.check(0 <= got[0], 'starts inside')
    sx.check(got[0] < got[1], 'not empty')
    sx.check(got[1] <= length, 'ends inside')
    if asked:
        sx.check(got[0] <= p, 'not too late')
        sx.check(p < got[1], 'not too short')
    else:
        sx.check(p < got[0] or p >= got[1], 'only what was asked for')
    sx.check(cr.units == 'bytes' and cr.length == length, 'the length is told')
    sx.check(cr.start == got[0] and cr.stop == got[1], 'the range is told')


def h_not_served(sx):
    """other units, unknown length, several ranges"""
    a = sx.int('a', 0, BIG)
    length = sx.int('length', 1, BIG)
    kind = sx.choice('kind', ['units', 'length', 'several', 'none'])
    if kind == 'units':
        r = Range('items', [(a, None)])
    elif kind == 'several':
        r = Range('bytes', [(a, a + 1), (a + 2, None)])
    elif kind == 'none':
        r = Range('bytes', [])
    else:
        r, length = Range('bytes', [(a, None)]), None
    sx.check(r.range_for_length(length) is None, 'not a single byte range')
    sx.check(r.make_content_range(length) is None, 'no content range')


def pos(sx, name):
    return sx.int(name, 0, sx.t(150, 299))


def h_range_trip(sx):
    """up to 2 ranges, positions below 150 (thorough 300): serialised and
    parsed again"""
    ranges = []
    n = sx.choice('n', [1, 2])
    last = 0
    for i in range(n):
        kind = sx.choice('kind%d' % i, ['closed', 'open', 'suffix'] if
                         i == n - 1 else ['closed'])
        if n == 2 and i == 0:
            a, b = sx.choice('first', [(0, 1), (5, 105)])
            ranges.append((a, b))
            last = b
        elif kind == 'closed':
            a = pos(sx, 'a')
            d = sx.choice('d', [1, 2, 10])
            ranges.append((last + a, last + a + d))
        elif kind == 'open':
            ranges.append((last + pos(sx, 'a'), None))
        else:
            ranges.append((-1 - pos(sx, 'a'), None))
    got = parse_range_header(Range('bytes', ranges).to_header())
    sx.check(got is not None, 'the header is understood')
    sx.check(got.units == 'bytes' and got.ranges == ranges,
             'ranges survive the round trip')


def h_content_trip(sx):
    """content ranges, positions below 150 (thorough 300)"""
    kind = sx.choice('kind', ['range', 'unknown', 'unsatisfied', 'neither'])
    updates = []
    if kind == 'range':
        a = pos(sx, 'a')
        d = sx.choice('d', [1, 10])
        x = sx.choice('x', [0, 1, 1000])
        args = (a, a + d, a + d + x)
    elif kind == 'unknown':
        a = pos(sx, 'a')
        args = (a, a + sx.choice('d', [1, 10]), None)
    elif kind == 'unsatisfied':
        args = (None, None, pos(sx, 'a'))
    else:
        args = (None, None, None)
    units = sx.choice('units', ['bytes', 'items', 'x'])
    cr = ContentRange(units, *args)
    got = parse_content_range_header(cr.to_header(), updates.append)
    sx.check(got is not None, 'the header is understood')
    sx.check((got.units, got.start, got.stop, got.length) ==
             (units,) + args, 'content ranges survive the round trip')
    sx.check(got.to_header() == cr.to_header(), 'and are stable')
    del updates[:]
    got.set(1, 2, 3, units)
    sx.check(got.to_header() == units + ' 1-1/3', 'the units')
    del updates[:]
    got.set(1, 2, 3)
    sx.check(updates == [got], 'changes are announced')
    sx.check(got.to_header() == 'bytes 1-1/3', 'changes are serialised')
    sx.check(str(got) == 'bytes 1-1/3', 'as text')
    sx.check(str(Range('b', [(1, 4), (-2, None)])) == 'b=1-3,-2', 'as text')
    got.unset()
    sx.check(updates == [got, got] and not got and got.to_header() == '',
             'unset removes the header')


def h_content_valid(sx):
    """constructor and set refuse impossible ranges; positions within
    +-10^12"""
    a = sx.int('a', -5, BIG)
    b = sx.int('b', -5, BIG)
    kind = sx.choice('kind', ['known', 'unknown', 'half'])
    if kind == 'known':
        n = sx.int('n', 0, BIG)
        good = bool(0 <= a) and bool(a < b) and bool(b <= n)
        args = (a, b, n)
    elif kind == 'unknown':
        good = bool(0 <= a) and bool(a < b)
        args = (a, b, None)
    else:
        good = False
        args = sx.choice('args', [(1, None, 5), (None, 1, 5)])
    cr = ContentRange('bytes', 0, 1, 2)
    for f in (lambda: ContentRange('bytes', *args), lambda: cr.set(*args)):
        try:
            f()
        except ValueError:
            sx.check(not good, 'proper ranges are accepted')
        else:
            sx.check(good, 'impossible ranges are refused')


def h_content_parse(sx):
    """any content range of up to 6 (thorough 8) characters"""
    t = sx.text('t', sx.t(6, 8), [c for c in CH if c not in ' \t'])
    got = parse_content_range_header('bytes ' + t)
    rng, slash, total = t.partition('/')
    want = None
    if slash:
        n = None if total == '*' else number(total)
        if total == '*' or n is not None:
            if rng == '*':
                want = (None, None, n)
            elif '-' in rng:
                a, _, b = rng.partition('-')
                a, b = number(a), number(b)
                if a is not None and b is not None and a <= b and (
                        n is None or b < n):
                    want = (a, b + 1, n)
    if want is None:
        sx.check(got is None, 'malformed content ranges are ignored')
    else:
        sx.check(got is not None, 'proper content ranges are understood')
        sx.check((got.units, got.start, got.stop, got.length) ==
                 ('bytes',) + want, 'the positions are right')


def h_history(sx):
    """any 3 of 8 headers for any of 3 lengths parsed one after the other, or
    one range asked again"""
    todo = [('bytes=0-4', [(0, 5)]), ('bytes=2-', [(2, None)]),
            ('bytes=-3', [(-3, None)]), ('bytes=0-0,4-5', [(0, 1), (4, 6)]),
            ('items=0-4', [(0, 5)]), ('bytes=5-2', None),
            ('bytes=7-8', [(7, 9)]), ('bytes=0-99', [(0, 100)])]
    for i in range(2):
        header, want = sx.choice('header%d' % i, todo)
        got = parse_range_header(header)
        if want is None:
            sx.check(got is None, 'not a range')
            continue
        sx.check(list(got.ranges) == want, 'the ranges of this header')
        sx.check(got.units == header.split('=')[0], 'the units')
        for j in range(2):
            n = sx.choice('length%d.%d' % (i, j), [None, 5, 8, 0])
            served = got.range_for_length(n)
            a, b = want[0]
            if not n or len(want) > 1 or got.units != 'bytes' or a >= n:
                sx.check(served is None, 'cannot be served')
                sx.check(got.make_content_range(n) is None, 'nor described')
                continue
            if a < 0:
                a, b = n + a, n
            b = n if b is None or b > n else b
            sx.check(served == (a, b), 'what is served for this length')
            cr = got.make_content_range(n)
            sx.check((cr.start, cr.stop, cr.length) == (a, b, n),
                     'and how it is described')
            cr.set(0, 1, 2)
        if isinstance(got.ranges, list):
            got.ranges.append((0, 1))


def h_threads(sx):
    """two threads at once, the second at any line of the first: ranges parsed and written"""
    def trip(text):
        r = parse_range_header(text)
        return r and (r.to_header(), r.units, list(r.ranges),
                      str(r.make_content_range(9)))

    def content(text):
        r = parse_content_range_header(text)
        return r and (r.to_header(), r.start, r.stop, r.length)
    todo = [lambda: trip('bytes=0-4'), lambda: trip('items=2-3,-5'),
            lambda: trip('bytes=5-2'), lambda: content('bytes 0-4/9'),
            lambda: content('items */9')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
