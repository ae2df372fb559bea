"""Accept headers survive serialising and parsing; parsing is strict.

Outside the bounds: more than 2 ranges, longer names, quoted parameters.
"""
from verktyg.accept import (
    parse_accept_header, parse_accept_language_header,
    parse_accept_charset_header,
)
from verktyg.accept.content_type import (
    ContentTypeAccept, parse_content_type_header,
)
from verktyg.accept.language import LanguageAccept, parse_language_header
from verktyg.accept.charset import CharsetAccept, parse_charset_header

ALNUM = list('abcxyzABCXYZ0189')


def q_of(sx, name):
    kind = sx.choice(name + '.kind', ['1', '0.d', '0.ddd'])
    if kind == '1':
        return '1'
    n = len(kind) - 2
    return '0.' + sx.str(name, n, '0123456789')


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(
        x.value == y.value and x.q == y.q and dict(x.params) ==
        dict(y.params) for x, y in zip(a, b))


def h_content_type(sx):
    """up to 2 ranges of free type and subtype text with wildcards,
    qualities of up to 3 digits and a parameter"""
    opts = []
    n = sx.choice('n', range(1, 3))
    for i in range(n):
        t = sx.text('t%d' % i, sx.t(3 - n, 2), ALNUM, 1)
        s = sx.choice('s%d' % i, ['*', 'x', 'vnd.a-b+c'])
        if s == 'x':
            s = sx.text('sub%d' % i, 2, ALNUM, 1)
        params = {}
        if sx.bool('param%d' % i):
            params[sx.choice('key%d' % i, ['level', 'v'])] = sx.text(
                'val%d' % i, 1, ALNUM + list("=!#$%&'*+-.^_`|~/:"))
            if n == 1 and sx.bool('longer%d' % i):
                k, = params
                params[k] = 'a=' + params[k]
        opts.append((t + '/' + s, q_of(sx, 'q%d' % i), params))
    acc = ContentTypeAccept(opts)
    again = parse_accept_header(acc.to_header())
    sx.check(same(acc, again), 'parse(to_header(a)) == a')
    sx.check(again.to_header() == acc.to_header(), 'and is stable')
    for o, r in zip(opts, again):
        sx.check(r.type + '/' + r.subtype == o[0], 'type and subtype')
        sx.check(r.q == float(o[1]), 'quality')


def h_simple(sx):
    """up to 2 languages or charsets with qualities"""
    kind = sx.choice('kind', ['charset', 'language'])
    opts = []
    for i in range(sx.choice('n', range(1, 3))):
        v = sx.choice('v%d' % i, ['*', 'x', 'x-y'])
        if v != '*':
            v = '-'.join(sx.text('p%d' % j, 2, ALNUM, 1)
                         for j in range(len(v.split('-'))))
        opts.append((v, q_of(sx, 'q%d' % i)))
    cls, parse = {
        'charset': (CharsetAccept, parse_accept_charset_header),
        'language': (LanguageAccept, parse_accept_language_header)}[kind]
    acc = cls(opts)
    again = parse(acc.to_header())
    sx.check(same(acc, again), 'parse(to_header(a)) == a')
    for o, r in zip(opts, again):
        sx.check(r.value == o[0] and r.q == float(o[1]), 'range is kept')


def h_spaces(sx):
    """optional white space around separators changes nothing"""
    sp = [sx.choice('sp%d' % i, ['', ' ', '  ']) for i in range(5)]
    d = sx.str('d', 1, '0123456789')
    text = ('text/html' + sp[0] + ';' + sp[1] + 'q' + '=' + sp[2] + '0.' + d
            + sp[3] + ',' + sp[4] + '*/*')
    plain = 'text/html;q=0.' + d + ',*/*'
    sx.check(same(parse_accept_header(text), parse_accept_header(plain)),
             'spaces are ignored')


def h_total(sx):
    """any text of up to 4 (thorough 5) characters is parsed or refused
    with a ValueError, and whatever is parsed has a quality of 0..1"""
    s = sx.text('s', sx.t(4, 5), ['a', '1', '-', '*', '/', ';', ',', '=',
                                  'q', ' ', '.', '+', '\xe9', '"'])
    parse = sx.choice('parse', [parse_accept_header,
                                parse_accept_language_header,
                                parse_accept_charset_header])
    try:
        acc = list(parse(s))
    except ValueError:
        sx.reach('refused')
        return
    items = 0
    for item in s.split(','):
        if item.strip():
            items += 1
    sx.check(len(acc) == items, 'one range per item that is not blank')
    again = list(parse(','.join([r.to_header() for r in acc])))
    sx.check(same(acc, again), 'survives serialising')
    for r in acc:
        sx.check(0.0 <= r.q <= 1.0, 'quality between 0 and 1')
        sx.check(len(r.value) > 0, 'no empty ranges')


def h_weights(sx):
    """weights of up to 3 characters are numbers of 0..1 or refused, and
    survive"""
    t = sx.text('t', sx.t(3, 4), ['n', 'a', 'i', 'f', '1', '0', '.', '-',
                                  'e', '_', '5', 'N', '+', 'x'], 1)
    parse = sx.choice('parse', [parse_accept_header,
                                parse_accept_language_header,
                                parse_accept_charset_header])
    name = 'a/b' if parse is parse_accept_header else 'a'
    try:
        r, = parse(name + ';q=' + t)
    except ValueError:
        sx.reach('refused')
        return
    sx.check(0.0 <= r.q and r.q <= 1.0, 'a number of 0..1')
    sx.check('x' not in t and 'nan' not in t.lower(), 'a number')
    again, = parse(r.to_header())
    sx.check(again.q == r.q, 'survives')


def h_q_clamped(sx):
    """qualities outside 0..1 are clamped"""
    t = sx.choice('t', ['-', '']) + sx.text('i', 2, '0123456789', 1)
    r, = parse_accept_header('a/b;q=' + t)
    want = 0.0 if t[0] == '-' else (1.0 if int(t) >= 1 else 0.0)
    sx.check(r.q == want, 'clamped')


def h_precise(sx):
    """weights of up to 7 digits; names of parameters like that of the
    weight"""
    q = sx.choice('q', ['0.1234', '0.00001', '0.999999', '0.3333']) + sx.str(
        'd', 1, '0123456789')
    k = sx.choice('k', ['Q', 'qs', 'charset', 'q-x'])
    v = sx.text('v', 1, ALNUM)
    for parse, name in ((parse_accept_header, 'a/b;%s=%s' % (k, v)),
                        (parse_accept_language_header, 'a'),
                        (parse_accept_charset_header, 'a')):
        r, = parse(name + ';q=' + q)
        sx.check(r.q == float(q), 'the weight')
        again, = parse(r.to_header())
        sx.check(again.q == r.q, 'the weight survives')
        sx.check(dict(again.params) == ({k: v} if '/' in name else {}),
                 'the parameters survive')


def h_values(sx):
    """content types, languages and charsets of up to 2 letters in any
    case"""
    a = sx.text('a', 2, 'aBz', 1)
    b = sx.text('b', 2, 'aBz1', 1)
    t = parse_content_type_header(a + '/' + b)
    sx.check(t.to_header() == a + '/' + b and str(t) == a + '/' + b, 'type')
    sx.check(t.type == a and t.subtype == b, 'its parts')
    sx.check(parse_language_header(a + '-' + b).to_header() == a + '-' + b,
             'language')
    sx.check(parse_charset_header(a + b).to_header() == a + b, 'charset')


def h_history(sx):
    """any 3 of 8 headers parsed and written one after the other"""
    todo = [
        (parse_accept_header, 'text/html;q=0.5', [('text/html', 0.5, {})]),
        (parse_accept_header, 'text/html', [('text/html', 1.0, {})]),
        (parse_accept_header, 'text/html;level=1',
         [('text/html', 1.0, {'level': '1'})]),
        (parse_accept_header, 'text/html, */*;q=0.1',
         [('text/html', 1.0, {}), ('*/*', 0.1, {})]),
        (parse_accept_language_header, 'en;q=0.5', [('en', 0.5, {})]),
        (parse_accept_language_header, 'EN', [('EN', 1.0, {})]),
        (parse_accept_charset_header, 'en;q=0.5', [('en', 0.5, {})]),
        (parse_accept_charset_header, '*', [('*', 1.0, {})]),
    ]
    for i in range(3):
        parse, header, want = sx.choice('header%d' % i, todo)
        accept = parse(header)
        for _ in range(2):
            got = list(accept)
            sx.check([(r.value, r.q, dict(r.params)) for r in got] == want,
                     'the ranges of this header')
            sx.check(accept.to_header().replace(' ', '') ==
                     header.replace(' ', ''), 'and the header')
            if sx.bool('changed%d' % i):
                got.pop()


def h_threads(sx):
    """two threads at once, the second at any line of the first: headers parsed and written"""
    def trip(parse, text):
        a = parse(text)
        return a.to_header(), [(str(o), o.q) for o in a]
    todo = [lambda: trip(parse_accept_header, 'text/html;level=1, */*;q=0.5'),
            lambda: trip(parse_accept_header, 'text/css;q=0.1'),
            lambda: trip(parse_accept_language_header, 'de-de, en;q=0.5')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
