"""Cookies survive the round trip through a browser and cannot inject
anything into each other or into the attributes.

Outside the bounds: longer values, more than 2 cookies, names that are not
tokens or that are the reserved attribute names, malformed paths and domains.
"""
from datetime import datetime, timedelta
from time import time

from verktyg.http import parse_cookie, dump_cookie, parse_date
from verktyg.datastructures import MultiDict
from verktyg.responses import Response
from verktyg.requests import Request

# header text: all of ascii and bytes of every role in UTF-8
HEADER = ['\t'] + [chr(i) for i in range(32, 127)] + [
    '\x82', '\xac', '\xc3', '\xe2', '\xf0', '\xff']


CTRL = set(map(chr, range(32)))
VISIBLE = set(map(chr, range(33, 127)))


def read(sx, header):
    """what a browser makes of a Set-Cookie header (RFC 6265 5.2)"""
    parts = header.split(';')
    pair, attrs = parts[0], {}
    for part in parts[1:]:
        k, _, v = part.partition('=')
        k = k.strip(' \t').lower()
        sx.check(k not in attrs, 'no attribute appears twice')
        attrs[k] = v.strip(' \t')
    for c in header:
        sx.check(c not in CTRL, 'no control characters')
    return pair, attrs


def h_value(sx):
    """one cookie; token name of 1..2, any value of up to 4 (thorough 5)
    characters"""
    value = sx.text('value', sx.t(4, 5), sx.UNI)
    key = sx.text('key', 2 if len(value) < 2 else 1, sx.TOKEN, 1)
    pair, attrs = read(sx, dump_cookie(key, value))
    sx.check(attrs == {'path': '/'}, 'the value cannot add attributes')
    sx.check(pair[:len(key) + 1] == key + '=', 'the name is kept')
    for c in pair[len(key) + 1:]:
        sx.check(' ' <= c and c <= '~' and c != ',', 'only safe characters')
    sx.check(dict(parse_cookie(pair)) == {key: value},
             'the value survives the round trip')


def h_charset(sx):
    """values of up to 2 characters in other charsets"""
    charset = sx.choice('charset', ['latin1', 'utf-8'])
    value = sx.text('value', 2, sx.LATIN)
    pair, attrs = read(sx, dump_cookie('k', value, charset=charset))
    for c in pair[2:]:
        sx.check(' ' <= c and c <= '~' and c != ',', 'only safe characters')
    got = parse_cookie(pair, charset)
    sx.check(dict(got) == {'k': value}, 'survives the round trip')


def h_jar(sx):
    """two cookies of up to 2 (thorough 3) characters with a plain one
    between them, sent back by a browser in one header"""
    a = sx.text('a', sx.t(2, 3), sx.UNI)
    b = sx.text('b', 2, sx.UNI)
    pairs = [dump_cookie(k, v).split(';')[0]
             for k, v in (('a', a), ('p', 'plain'), ('b', b))]
    sep = sx.choice('sep', ['; ', ';'])
    got = parse_cookie(sep.join(pairs))
    sx.check(dict(got) == {'a': a, 'p': 'plain', 'b': b},
             'cookies do not disturb each other')


def h_path(sx):
    """path of up to 3 (thorough 4) characters after a slash and a letter"""
    p = sx.text('p', sx.t(3, 4), [c for c in sx.UNI if c not in '?#\t\r\n'])
    pair, attrs = read(sx, dump_cookie('k', 'v', path='/x' + p, secure=True))
    sx.check(pair == 'k=v', 'the value is not touched')
    got = attrs.pop('path', '')
    sx.check(attrs == {'secure': ''}, 'the path cannot add attributes')
    sx.check(got[:2] == '/x', 'the path is kept')
    for c in got:
        sx.check(c in VISIBLE, 'the path is quoted')


def h_domain(sx):
    """domain with up to 2 characters of any kind in it, names which are
    not ASCII included"""
    d = sx.text('d', 2, list('ab-. ;,="\\') + ['\xfc', '\xdf', '\u20ac'])
    domain = '.ex' + d + 'x.com'
    try:
        header = dump_cookie('k', 'v', domain=domain)
    except ValueError:
        sx.reach('refused')
        return
    pair, attrs = read(sx, header)
    sx.check(pair == 'k=v', 'the value is not touched')
    got = attrs.pop('domain', '')
    sx.check(attrs == {'path': '/'}, 'the domain cannot add attributes')
    for c in d:
        if c not in 'ab-.':
            return
    sx.check(got == domain, 'the domain is kept')


def h_attributes(sx):
    """all attributes in any combination, value of up to 1 character"""
    value = sx.text('value', 1, sx.UNI)
    kw = {}
    want = {'path': '/'}
    if sx.bool('nopath'):
        kw['path'] = None
        del want['path']
    if sx.bool('domain'):
        d = sx.text('d', 1, 'ab-.')
        kw['domain'] = '.example' + d + '.com'
        want['domain'] = kw['domain']
        if sx.bool('port'):
            kw['domain'] += ':8080'
    age = sx.choice('max_age', [None, 0, 3600, timedelta(1, 5, 999999)])
    if age is not None:
        kw['max_age'] = age
        kw['sync_expires'] = False
        want['max-age'] = '86405' if isinstance(age, timedelta) else str(age)
    exp = sx.choice('exp', [
        None, 0, datetime(2015, 1, 2, 3, 4, 5),
        'Fri, 02-Jan-2015 03:04:05 GMT'])
    if exp is not None:
        kw['expires'] = exp
        want['expires'] = ('Thu, 01-Jan-1970 00:00:00 GMT' if exp == 0 else
                           'Fri, 02-Jan-2015 03:04:05 GMT')
    if sx.bool('secure'):
        kw['secure'] = True
        want['secure'] = ''
    if sx.bool('httponly'):
        kw['httponly'] = True
        want['httponly'] = ''
    pair, attrs = read(sx, dump_cookie('k', value, **kw))
    sx.check(attrs == want, 'exactly the attributes that were asked for')
    sx.check(dict(parse_cookie(pair)) == {'k': value}, 'the value survives')


def h_sync(sx):
    """a maximum age of up to 300 seconds sets the expiry date as well"""
    age = sx.int('age', 0, 300)
    before = int(time())
    pair, attrs = read(sx, dump_cookie('k', 'v', max_age=age))
    after = int(time()) + 1
    sx.check(attrs['max-age'] == str(age), 'the age is kept')
    got = parse_date(attrs['expires'])
    sx.check(got is not None, 'the expiry is a date')
    secs = (got - datetime(1970, 1, 1)).total_seconds()
    sx.check(before + age <= secs <= after + age, 'the expiry fits the age')


def h_response(sx):
    """set on a response, read from the next request; value of up to 3
    characters; then deleted"""
    value = sx.text('value', 3, sx.UNI)
    r = Response('x')
    r.set_cookie('k', value, httponly=True)
    r.set_cookie('l', 'other', secure=True)
    headers = r.headers.getlist('Set-Cookie')
    sx.check(len(headers) == 2, 'one header for each cookie')
    pairs = []
    for h in headers:
        pair, attrs = read(sx, h)
        pairs.append(pair)
        sx.check(attrs == {'path': '/', ('httponly' if pair[0] == 'k'
                                         else 'secure'): ''},
                 'the attributes of each cookie are kept')
    req = Request({'REQUEST_METHOD': 'GET', 'HTTP_COOKIE': '; '.join(pairs)})
    sx.check(dict(req.cookies) == {'k': value, 'l': 'other'},
             'the next request has both cookies')
    r.delete_cookie('k')
    pair, attrs = read(sx, r.headers.getlist('Set-Cookie')[2])
    sx.check(pair == 'k=', 'deleting empties the value')
    sx.check(attrs == {'path': '/', 'max-age': '0',
                       'expires': 'Thu, 01-Jan-1970 00:00:00 GMT'},
             'deleting expires the cookie')


def h_foreign(sx):
    """any header text of up to 4 (thorough 5) characters without a quote or
    semicolon as the value of a cookie next to ours"""
    t = sx.text('t', sx.t(4, 5), [c for c in HEADER if c not in '";'])
    got = parse_cookie('a=1; x=' + t + '; b=2')
    sx.check(got.get('a') == '1' and got.get('b') == '2' and 'x' in got,
             'other cookies are not disturbed')
    sx.check(len(got) == 3, 'no cookies appear')


def h_malformed(sx):
    """any header text of up to 4 (thorough 5) characters without a quote
    between two cookies"""
    t = sx.text('t', sx.t(4, 5), [c for c in HEADER if c != '"'])
    got = parse_cookie('a=1; ' + t + ';b=2')
    sx.assume('a' not in t and 'b' not in t)
    sx.check(got.get('a') == '1' and got.get('b') == '2',
             'other cookies are not disturbed')


def unquote(t):
    """the value of a cookie as sent"""
    if len(t) < 2 or t[0] != '"' or t[-1] != '"':
        return t
    t = t[1:-1]
    out = ''
    i = 0
    while i < len(t):
        if t[i] != '\\' or i + 1 == len(t):
            out += t[i]
            i += 1
        elif (i + 3 < len(t) and t[i + 1] in '0123' and
              t[i + 2] in '01234567' and t[i + 3] in '01234567'):
            out += chr(int(t[i + 1:i + 4], 8))
            i += 4
        else:
            out += t[i + 1]
            i += 2
    return out


def h_unquote(sx):
    """any value of up to 5 (thorough 6) characters around the quoting, as
    other software sends it: only values quoted on both ends are unquoted"""
    t = sx.text('t', sx.t(5, 6), ['"', '\\', '0', '1', '7', '8', 'a'])
    got = parse_cookie('k=' + t)
    sx.check(dict(got) == {'k': unquote(t)}, 'the value sent is read')


def h_octal(sx):
    """any escaped value of 4 digits"""
    t = sx.text('t', 4, '0123456789a', 4)
    sx.assume(t[0] in '01' and t[0:3] < '177')
    u = unquote('"\\' + t + '"')
    got = parse_cookie('k="x\\' + t + '"')
    sx.check(dict(got) == {'k': 'x' + u}, 'the value sent is read')


def h_any(sx):
    """any header text of up to 5 (thorough 6) characters"""
    t = sx.text('t', sx.t(5, 6), HEADER)
    got = parse_cookie(t)
    for k in got:
        sx.check(isinstance(k, str) and isinstance(got[k], str),
                 'names and values are text')


def h_repeated(sx):
    """cookies of one name: all are read, in order; undecodable names and
    values are treated as asked for"""
    a = sx.text('a', 2, sx.TOKEN, 1)
    b = sx.text('b', 2, sx.TOKEN, 1)
    got = parse_cookie('k=' + a + '; x=y; k=' + b, cls=MultiDict)
    sx.check(got.getlist('k') == [a, b] and got['x'] == 'y', 'in order')
    sx.check(parse_cookie('k=' + a + '; x=y; k=' + b, cls=list) ==
             [('k', a), ('x', 'y'), ('k', b)], 'in any collection')
    errors = sx.choice('errors', ['replace', 'ignore'])
    bad = {'replace': '\ufffd', 'ignore': ''}[errors]
    where = sx.choice('where', ['name', 'value', 'both'])
    name = 'n\xff' if where != 'value' else 'n'
    value = '\xfe' + a if where != 'name' else a
    got = parse_cookie(name + '=' + value + '; z=1', errors=errors)
    sx.check(dict(got) == {
        'n' + (bad if where != 'value' else ''):
        (bad if where != 'name' else '') + a, 'z': '1'}, 'decoded as told')
    try:
        parse_cookie(name + '=' + value, errors='strict')
    except UnicodeError:
        pass
    else:
        sx.fail('refused when asked for')


def h_no_path(sx):
    """an empty path, a slash, or none"""
    v = sx.text('v', 1, sx.UNI)
    path = sx.choice('path', ['', '/', None])
    pair, attrs = read(sx, dump_cookie('k', v, path=path))
    sx.check(attrs == ({} if path is None else {'path': path}), 'as given')
    sx.check(dict(parse_cookie(pair)) == {'k': v}, 'the value')


def h_history(sx):
    """cookies parsed again after the first dict was changed; requests with
    the same header"""
    first = sx.choice('first', ['a=b; c=d', 'a=x', ''])
    second = sx.choice('second', ['a=b; c=d', 'a=x', ''])
    want = dict(parse_cookie(second))
    c = parse_cookie(first)
    c['a'] = 'changed'
    c['z'] = 'new'
    c.pop('c', None)
    sx.check(dict(parse_cookie(second)) == want, 'the cookies of the header')
    sx.check(dict(parse_cookie({'HTTP_COOKIE': second})) == want,
             'the cookies of the header')
    env = {'HTTP_COOKIE': second, 'REQUEST_METHOD': 'GET'}
    sx.check(dict(Request(env).cookies) == want and
             dict(parse_cookie(env)) == want and
             dict(Request(env).cookies) == want, 'read again and again')
    sx.check(env['HTTP_COOKIE'] == second, 'the header is kept')
    m = parse_cookie(second, cls=MultiDict)
    m.add('a', 'more')
    sx.check(parse_cookie(second, cls=MultiDict).getlist('a') ==
             ([want['a']] if 'a' in want else []), 'of its own')
    latin = parse_cookie(b'a=\xc3\xa4', charset='latin1')
    sx.check(parse_cookie(b'a=\xc3\xa4')['a'] == '\xe4' and
             latin['a'] == '\xc3\xa4', 'any charset')


def h_threads(sx):
    """two threads at once, the second at any line of the first: cookies parsed and written"""
    todo = [lambda: list(parse_cookie('a=b; c="d e"').items()),
            lambda: list(parse_cookie('x=y').items()),
            lambda: dump_cookie('a', 'b c', expires=5, path='/p'),
            lambda: dump_cookie('d', 'e', secure=True, domain='x.y')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
