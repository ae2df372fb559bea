"""Content negotiation picks the representation the client prefers.

The oracle is an independent reading of the rules: for each range header the
most specific matching range gives the quality, zero means refused; a
representation that does not name a type, language or charset is acceptable
but loses against one that does; content type decides before language,
language before charset, charset before the server's own preference, and the
last of several equals wins.  Values are compared without case.
Outside the bounds: more than 3 ranges or representations, other values,
quality values with more than one digit, media type parameters.
"""
from verktyg.accept import (
    Representation, select_representation, parse_accept_header,
    parse_accept_language_header, parse_accept_charset_header,
)
from verktyg.accept.content_type import ContentType, ContentTypeAccept
from verktyg.accept.language import Language, LanguageAccept
from verktyg.accept.charset import Charset, CharsetAccept
from verktyg.exceptions import NotAcceptable


def q_text(sx, name):
    """a quality value: none, 1, 0 or 0.d"""
    kind = sx.choice(name + '.kind', ['0.', '', '0'])
    if kind == '0.':
        d = sx.str(name, 1, '0123456789')
        return ';q=0.' + d, int(d) * 100
    return {'': ('', 1000), '0': ('; q=0', 0)}[kind]


def ct_match(value, rng):
    t, s = value.split('/')
    rt, rs = rng.split('/')
    if rt not in (t, '*') or rs not in (s, '*'):
        return None
    return (rt == t, rs == s)


def lang_match(value, rng):
    v = value.split('-')
    if rng == '*':
        return (-len(v), 0)
    r = rng.split('-')
    if v[:len(r)] != r:
        return None
    return (len(r) - len(v), len(r))


def cs_match(value, rng):
    if rng == '*':
        return (0,)
    return (1,) if value == rng else None


def quality(match, value, ranges):
    """(quality, specificity) or None if refused"""
    best = None
    for rng, q in ranges:
        m = match(value, rng)
        if m is None:
            continue
        if best is None or m > best[1] or (m == best[1] and q > best[0]):
            best = (q, m)
    if best is None or best[0] == 0:
        return None
    return best


def header(ranges):
    return ','.join(r + t for r, t, _ in ranges)


def one_dimension(sx, match, values, ranges, parse, key, arg):
    """every header of up to 3 ranges against two values"""
    n = sx.choice('ranges', range(1, sx.t(3, 4)))
    rs = []
    for i in range(n):
        r = sx.choice('r%d' % i, ranges)
        t, q = q_text(sx, 'q%d' % i)
        rs.append((r, t, q))
    plain = [(r, q) for r, _, q in rs]
    vals = [sx.choice('v%d' % i, values) for i in range(2)]
    reps = [Representation(**{key: v}) for v in vals]
    quals = [quality(match, v, plain) for v in vals]
    want = None
    for rep, ql in zip(reps, quals):
        if ql is not None and (want is None or ql >= want[0]):
            want = (ql, rep)
    acc = parse(header(rs)) if sx.bool('parsed') else header(rs)
    try:
        got = select_representation(reps, **{arg: acc})
    except NotAcceptable:
        got = None
    if want is None:
        sx.check(got is None, 'nothing acceptable')
    else:
        sx.check(got is want[1], 'the best acceptable one is chosen')


def h_content_type(sx):
    """up to 2 (thorough 3) ranges with any one-digit quality, 2
    representations"""
    one_dimension(sx, ct_match, ['text/html', 'text/plain', 'image/png'],
                  ['text/html', 'text/*', '*/*', 'image/png'],
                  parse_accept_header, 'content_type', 'accept')


def h_language(sx):
    """the same for languages"""
    one_dimension(sx, lang_match, ['en', 'en-gb', 'english', 'en-gb-oed'],
                  ['en', 'en-gb', 'en-gb-oed', '*'],
                  parse_accept_language_header, 'language',
                  'accept_language')


def h_charset(sx):
    """the same for charsets"""
    one_dimension(sx, cs_match, ['utf-8', 'ascii', 'utf-16'],
                  ['utf-8', 'ascii', '*'],
                  parse_accept_charset_header, 'charset', 'accept_charset')


def h_order(sx):
    """the order of the ranges in the header does not matter"""
    ranges = sx.choice('set', [
        ['text/html', 'text/*', '*/*'], ['text/html', '*/*', 'image/*']])
    qs = [sx.str('q%d' % i, 1, '0123456789') for i in range(3)]
    perm = sx.choice('perm', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0),
                              (2, 0, 1), (2, 1, 0)])
    v = ContentType(sx.choice('v', ['text/html', 'text/css', 'image/gif']))

    def qual(order):
        acc = ContentTypeAccept([(ranges[i], '0.' + qs[i]) for i in order])
        try:
            m = v.acceptability(acc)
        except NotAcceptable:
            return None
        return m.quality, m.type_matches, m.subtype_matches
    sx.check(qual((0, 1, 2)) == qual(perm), 'order is irrelevant')


def h_lexicographic(sx):
    """two representations over all three dimensions, each dimension given
    or not, qualities from the headers"""
    cts = [sx.choice('ct%d' % i, [None, 'text/html', 'text/plain'])
           for i in range(2)]
    lgs = [sx.choice('lang%d' % i, [None, 'en', 'fr']) for i in range(2)]
    css = [sx.choice('cs%d' % i, [None, 'utf-8', 'ascii'])
           for i in range(2)]
    hdr = sx.choice('hdr', [
        ('text/html,text/plain;q=0.5', 'en,fr;q=0.5', 'utf-8,ascii;q=0.5'),
        ('text/html,text/plain', 'fr', 'ascii,*;q=0.1'),
        ('*/*', 'fr,en;q=0', 'utf-8;q=0.3,ascii;q=0.4'),
        (None, None, None)])
    ranges = [
        [(r.split(';')[0], int(float(r.partition('q=')[2] or '1') * 1000))
         for r in (h or d).split(',')]
        for h, d in zip(hdr, ('*/*', '*', '*'))]
    reps, keys = [], []
    for i in range(2):
        reps.append(Representation(content_type=cts[i], language=lgs[i],
                                   charset=css[i]))
        key = []
        for val, match, rs in ((cts[i], ct_match, ranges[0]),
                               (lgs[i], lang_match, ranges[1]),
                               (css[i], cs_match, ranges[2])):
            if val is None:
                key.append((0,))
                continue
            ql = quality(match, val, rs)
            if ql is None:
                key = None
                break
            key.append((1, ql))
        keys.append(key)
    want = None
    for rep, key in zip(reps, keys):
        if key is not None and (want is None or key >= want[0]):
            want = (key, rep)
    try:
        got = select_representation(reps, accept=hdr[0],
                                    accept_language=hdr[1],
                                    accept_charset=hdr[2])
    except NotAcceptable:
        got = None
    sx.check(got is (want and want[1]), 'dimensions decide in order')


def h_qs(sx):
    """the server's quality of source multiplies the client's quality"""
    q = [sx.choice('q%d' % i, [1, 2, 5, 10]) for i in range(2)]
    s = [sx.choice('qs%d' % i, [0, 2, 5, 10]) for i in range(2)]
    reps = [Representation(content_type=c, qs=x / 10)
            for c, x in zip(('a/b', 'c/d'), s)]
    got = select_representation(
        reps, accept='a/b;q=%s,c/d;q=%s' % (q[0] / 10, q[1] / 10))
    prod = [a * b for a, b in zip(q, s)]
    if prod[0] != prod[1]:
        sx.check(got is reps[prod[1] > prod[0]], 'product decides')
    elif s[0] != s[1]:
        sx.check(got is reps[s[1] > s[0]], 'then the source quality')
    else:
        sx.check(got is reps[1], 'then the last')


def h_contains(sx):
    """membership and indexing of accept objects agree with matching;
    over texts of 1..2 lower case letters"""
    kind = sx.choice('kind', ['charset', 'language'])
    a = sx.text('a', 2, sx.LOWER, 1)
    b = sx.text('b', 2, sx.LOWER, 1)
    acc, val = {'charset': (CharsetAccept, Charset),
                'language': (LanguageAccept, Language)}[kind]
    h = acc([(a, '0.5')])
    v = val(b)
    sx.check((v in h) == (a == b), 'membership')
    try:
        ok = h[v].quality == 0.5
    except KeyError:
        ok = a != b
    sx.check(ok, 'indexing')


def h_case(sx):
    """values are compared without case: texts of 2 letters in any case"""
    kind = sx.choice('kind', ['charset', 'language', 'type', 'subtype'])
    a = sx.text('a', 2, 'abAB', 2)
    b = sx.text('b', 2, 'abAB', 2)
    same = a.lower() == b.lower()
    if kind == 'charset':
        reps = [Representation(charset=b)]
        kw = {'accept_charset': a}
    elif kind == 'language':
        tail = sx.choice('tail', ['', '-us'])
        reps = [Representation(language=b + tail)]
        kw = {'accept_language': a}
    elif kind == 'type':
        reps = [Representation(content_type=b + '/x')]
        kw = {'accept': a + '/*'}
    else:
        reps = [Representation(content_type='x/' + b)]
        kw = {'accept': 'X/' + a}
    try:
        got = select_representation(reps, **kw)
        sx.check(got is reps[0] and same, 'only the same value is accepted')
    except NotAcceptable:
        sx.check(not same, 'the same value is accepted in any case')


ODD = ['a', 'q', '0', '.', '/', '*', ';', '=', ',', '"', ' ', '-']


def h_any(sx):
    """no header fails: up to 4 (thorough 5) characters after a prefix"""
    which = sx.choice('which', ['accept', 'accept_language',
                                'accept_charset'])
    prefix = sx.choice('prefix', ['', {
        'accept': 'a/a;q=', 'accept_language': 'a;q=',
        'accept_charset': 'a;q='}[which]])
    text = sx.text('text', sx.t(4, 5) if not prefix else sx.t(2, 3), ODD)
    reps = [Representation(content_type='a/a', language='a', charset='a'),
            Representation(content_type='q/b', language='b', charset='b')]
    try:
        got = select_representation(reps, **{which: prefix + text})
    except NotAcceptable:
        sx.reach('refused')
    else:
        sx.check(got in reps, 'one of the representations')


def h_ignored(sx):
    """headers which are malformed or empty are ignored, empty elements of
    lists are"""
    which = sx.choice('which', ['accept', 'accept_language',
                                'accept_charset'])
    good = 'a/b' if which == 'accept' else 'a'
    bad = good.replace('a', 'b')
    reps = [Representation(content_type=c + '/b', language=c, charset=c)
            for c in 'ab']
    q = sx.str('q', 1, '123456789')
    good = good + ';q=0.' + q
    head, want = sx.choice('head', [
        (None, 1), ('', 1), (',', 1), (' , ', 1), (good + ',!', 1),
        (good + ';x', 1), (good + ';q=x', 1), (bad + ';q', 1),
        (good + ',', 0), (',' + good, 0), (good + ' , ,', 0),
        (good + ',' + bad + ';q=0', 0), (bad + ';q=1,,' + good, 1),
    ])
    sx.check(select_representation(reps, **{which: head}) is reps[want],
             'the representation wanted')


def h_write(sx):
    """accept headers are written such that they are read back; the parts of
    a match"""
    kind = sx.choice('kind', ['type', 'language', 'charset'])
    parse, value, vals = {
        'type': (parse_accept_header, ContentType,
                 ['a/b', 'a/*', '*/*', 'c/d']),
        'language': (parse_accept_language_header, Language,
                     ['a', 'a-b', '*', 'c']),
        'charset': (parse_accept_charset_header, Charset,
                    ['a', 'a-b', '*', 'c']),
    }[kind]
    ranges = []
    text = ''
    for i in range(sx.choice('n', range(1, 3))):
        v = sx.choice('v%d' % i, vals)
        q, number = sx.choice('q%d' % i, [
            ('', 1.0), (';q=1', 1.0), (';q=0', 0.0), (' ; q=0.5', 0.5),
            (';q=7', 1.0), (';q=-1', 0.0), (';q=0.125', 0.125)])
        ranges.append((v, number))
        text += (',' if i else '') + v + q
    acc = parse(text)
    sx.check([(r.value, r.q) for r in acc] == ranges, 'the ranges')
    again = parse(acc.to_header())
    sx.check([(r.value, r.q) for r in again] == ranges, 'are written')
    sx.check(str(acc) == acc.to_header() and
             [str(r) for r in acc] == acc.to_header().split(','),
             'and are the text')
    v = value('a/b' if kind == 'type' else 'a-b')
    sx.check(v.to_header() == str(v) == v.value, 'the value is its text')
    try:
        m = acc[v]
    except KeyError:
        sx.check(v not in acc, 'in')
        return
    sx.check(v in acc, 'in')
    match = {'type': ct_match, 'language': lang_match,
             'charset': cs_match}[kind]
    best = quality(match, v.value, ranges)
    sx.check(m.quality == best[0], 'quality of the match')
    if kind == 'type':
        sx.check((bool(m.type_matches), bool(m.subtype_matches)) == best[1],
                 'parts that match')
        sx.check(bool(m.exact_match) == (best[1] == (True, True)) and
                 m.content_type is v, 'exact match')
    elif kind == 'language':
        sx.check((-m.tail, m.specificity) == best[1], 'parts that match')
        sx.check(m.exact_match == (best[1][0] == 0) and m.language is v,
                 'exact match')
    else:
        sx.check(bool(m.exact_match) == (best[1] == (1,)) and
                 m.charset is v, 'exact match')


def h_weights(sx):
    """weights which are unusual or no numbers: the order of ranges makes no
    difference"""
    qs = ['nan', 'inf', '-1', '0.5', '1e-1', 'x', '', '0', 'NaN', '-inf', '2',
          '1.']
    kind = sx.choice('kind', ['type', 'language', 'charset'])
    a, b, star = {'type': ('a/a', 'b/b', '*/*'), 'language': ('a', 'b', '*'),
                  'charset': ('a', 'b', '*')}[kind]
    arg = {'type': 'content_type', 'language': 'language',
           'charset': 'charset'}[kind]
    acc = {'type': 'accept', 'language': 'accept_language',
           'charset': 'accept_charset'}[kind]
    reps = [Representation(**{arg: a}), Representation(**{arg: b})]
    ranges = [sx.choice('r0', [a, star]) + ';q=' + sx.choice('q0', qs),
              sx.choice('r1', [a, b, star]) + ';q=' + sx.choice('q1', qs)]

    def choose(header):
        try:
            return select_representation(reps, **{acc: header})
        except NotAcceptable:
            return None
    sx.check(choose(','.join(ranges)) is choose(','.join(
        [ranges[1], ranges[0]])), 'the order makes no difference')


def h_params(sx):
    """ranges with other parameters, whose values have up to 2 characters,
    are as specific as those without"""
    v = sx.text('v', 2, list('a1.=-'))
    k = sx.choice('k', ['level', 'Q', 'qs', 'v'])
    q = sx.str('q', 3, '0123456789')
    ranges = ['a/x;%s=%s;q=0.%s' % (k, v, q[0]), 'a/*;q=0.' + q[1],
              '*/*;q=0.%s;%s=%s' % (q[2], k, v)]
    if sx.bool('swap'):
        ranges.reverse()
    accept = parse_accept_header(','.join(ranges))
    for name, digit in (('a/x', q[0]), ('a/y', q[1]), ('b/x', q[2])):
        t = ContentType(name)
        if digit == '0':
            sx.check(t not in accept, 'not acceptable')
        else:
            sx.check(t.acceptability(accept).quality == int(digit) / 10,
                     'the most specific')


def h_partial(sx):
    """ranges of a subtype of any type hold only this subtype"""
    a = sx.text('a', 2, 'ab', 1)
    b = sx.text('b', 2, 'aB', 1)
    accept = parse_accept_header('*/' + b)
    sx.check((ContentType('t/' + a) in accept) == (a == b.lower()),
             'the subtype')


def h_history(sx):
    """the same representations chosen from for any 2 of 8 headers"""
    reps = [
        Representation(content_type='text/html', language='en'),
        Representation(content_type='text/html', language='de'),
        Representation(content_type='text/css', language='en-us'),
    ]
    todo = [
        ('*/*', 'en;q=0.9, de;q=0.2', 0), ('*/*', 'en;q=0.2, de;q=0.9', 1),
        ('text/css;q=0.1, text/html', 'en, de;q=0.5', 0),
        ('text/css, text/html;q=0.1', 'en, de;q=0.5', 2),
        ('text/css;q=0', 'de', None), ('text/html', 'de', 1),
        ('text/html;q=0', 'de', None), ('text/html', 'en', 0),
    ]
    for i in range(2):
        accept, language, want = sx.choice('header%d' % i, todo)
        if sx.bool('parsed%d' % i):
            accept = parse_accept_header(accept)
            language = parse_accept_language_header(language)
        try:
            got = select_representation(reps, accept=accept,
                                        accept_language=language)
        except NotAcceptable:
            sx.check(want is None, 'there is an acceptable one')
        else:
            sx.check(want is not None and got is reps[want],
                     'the one for this header')


def h_threads(sx):
    """two threads choosing from the same representations, with the same
    header or others, the second at any line of the first"""
    reps = [
        Representation(content_type='text/html', language='en'),
        Representation(content_type='text/html', language='de'),
        Representation(content_type='text/css', language='en-us'),
    ]
    todo = [('*/*', 'en;q=0.9, de;q=0.2'), ('*/*', 'en;q=0.2, de;q=0.9'),
            ('text/css, text/html;q=0.1', 'en, de;q=0.5'),
            ('text/css;q=0', 'fr')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo[:sx.t(2, 4)])
    parsed = sx.bool('parsed')

    def choose(accept, language):
        try:
            return reps.index(select_representation(
                reps, accept=accept, accept_language=language))
        except NotAcceptable:
            return None

    def both():
        pairs = [one, two]
        if parsed:
            pairs = [(parse_accept_header(a),
                      parse_accept_language_header(l)) for a, l in pairs]
            if one == two:
                pairs[1] = pairs[0]
        return (lambda: choose(*pairs[0])), (lambda: choose(*pairs[1]))
    sx.interleave('at', both, 'both threads get their own representation')


def h_loops(sx):
    """loops over the options of one header inside of each other"""
    cls, text = sx.choice('header', [
        (parse_accept_header, 'text/html, text/css;q=0.5'),
        (parse_accept_language_header, 'en, de;q=0.5'),
        (parse_accept_charset_header, 'utf-8, ascii;q=0.5')])
    a = cls(text)
    want = [o.value for o in cls(text)]
    got = []
    for x in a:
        inner = [y.value for y in a]
        sx.check(inner == want, 'the inner loop is complete')
        got.append(x.value)
        if sx.bool('asked'):
            sx.check(len(inner) == 2, 'two options')
    sx.check(got == want, 'and so is the outer loop')
