"""Redirects and aborts lead where they should and cannot inject anything.

Outside the bounds: longer locations, locations with hosts or ports that are
not valid, hosts other than the listed ones.
"""
from html import unescape
from urllib.parse import urlsplit, urljoin
from verktyg.exceptions import (
    Aborter, abort, HTTPException, HTTP_STATUS_CODES, default_exceptions,
    BadRequestKeyError, BadRequest, NotFound, MethodNotAllowed, Gone,
)
from verktyg.http import Headers
from verktyg.responses import Response, BaseResponse
from verktyg.utils import redirect, append_slash_redirect

HEX = '0123456789ABCDEFabcdef'
CHARS = ['a', '/', '?', '#', '%', '&', '=', '"', "'", '<', '>', ' ', '\n',
         '\r', '\xe4', ';', ':', '\\', '\x00']


def tokens(text, reserved):
    """literal delimiters as texts, everything else as byte values"""
    rv = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == '%' and len(text) >= i + 3 and text[i + 1] in HEX and (
                text[i + 2] in HEX):
            rv.append(int(text[i + 1:i + 3], 16))
            i += 3
            continue
        if c in reserved:
            rv.append(c)
        else:
            for b in c.encode('utf-8'):
                rv.append(b)
        i += 1
    return rv


def same_url(sx, got, want):
    a = urlsplit(got)
    b = urlsplit(want)
    sx.check(a.scheme == b.scheme and a.netloc == b.netloc, 'the same site')
    sx.check(tokens(a.path, '/%') == tokens(b.path, '/%'), 'the same path')
    sx.check(tokens(a.query, '&=+;%') == tokens(b.query, '&=+;%'),
             'the same query')
    sx.check(tokens(a.fragment, '&=+;%') == tokens(b.fragment, '&=+;%'),
             'the same fragment')


def link(sx, body):
    """the target and text of the only link in a page"""
    at = body.find('<a href="')
    sx.check(at >= 0, 'a link')
    rest = body[at + 9:]
    end = rest.find('"')
    sx.check(end >= 0, 'a link')
    href = rest[:end]
    rest = rest[end + 1:]
    sx.check(rest.startswith('>'), 'nothing is injected into the tag')
    end = rest.find('<')
    sx.check(rest[end:].startswith('</a>'), 'nothing is injected')
    text = rest[1:end]
    tail = body[:at] + rest[end + 4:]
    sx.check('<a' not in tail and 'script' not in tail, 'no other')
    for c in href:
        sx.check(c not in '<>"\'', 'quoted')
    for c in text:
        sx.check(c not in '<>', 'quoted')
    return unescape(href), unescape(text)


def h_redirect(sx):
    """locations of up to 3 (thorough 4) characters after each of the bases"""
    base = sx.choice('base', ['http://h/', '/', '/x?', 'https://h:8/a#'])
    t = sx.text('t', sx.t(3, 4), CHARS)
    if base == '/':
        sx.assume(t.replace('\r', '').replace('\n', '')[:1] not in ('/', '\\'))
    code = sx.choice('code', [None, 301, 303, 307])
    given = base + t
    r = redirect(given) if code is None else redirect(given, code)
    sx.check(isinstance(r, Response), 'a response')
    sx.check(r.status_code == (code or 302), 'the code')
    loc = r.headers['Location']
    for c in loc:
        sx.check('!' <= c and c <= '~' and c not in '"<>\\',
                 'only characters of urls')
    same_url(sx, loc, given)
    href, text = link(sx, r.get_data(as_text=True))
    sx.check(href == loc, 'the link leads to the location')
    if '\r' not in given and '\x00' not in given:
        sx.check(text == given, 'the location is shown')
    sx.check(r.mimetype == 'text/html', 'a page')
    sx.check(len([k for k, _ in r.headers if k.lower() == 'location']) == 1,
             'one location')


def h_scheme(sx):
    """absolute locations with any scheme of up to 3 letters"""
    s = sx.text('s', 3, ['a', 'z', '+', '-', '.', 'h'], 1)
    sx.assume(s[:1] in 'azh')
    given = s + '://h/p'
    r = redirect(given)
    sx.check(r.headers['Location'] == given, 'the location')

    class Other(BaseResponse):
        pass
    r = redirect(given, 301, Other)
    sx.check(type(r) is Other and r.status_code == 301, 'the class')
    sx.check(r.headers['Location'] == given, 'the location')


def valid(b):
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        return False
    return True


def h_slash(sx):
    """paths of up to 3 (thorough 4) bytes after a slash, queries of up to 2
    characters, 3 script names"""
    how = sx.choice('how', ['any', 'site', 'scheme'])
    p = sx.data('p', sx.t(3, 4), b'a/:?#%.@\\ \xc3\xa4\n')
    if how == 'site':
        p = b'http://' + p
    elif how == 'scheme':
        p = b'x:' + p
    path = b'/' + p
    sx.assume(valid(path) and path[-1:] != b'/')
    while path[1:2] == b'/':
        path = path[1:]
    for part in path.split(b'/'):
        sx.assume(part != b'.' and part != b'..')
    script = sx.choice('script', ['', '/s', '/s/'])
    q = sx.text('q', 2, ['a', '&', '=', '%', '+', '#', '"', '\xff', '/'])
    empty = sx.choice('empty', [False, True])
    if empty:
        path = b''
    environ = {
        'wsgi.url_scheme': 'http', 'HTTP_HOST': 'h', 'SCRIPT_NAME': script,
        'PATH_INFO': path.decode('latin1'), 'REQUEST_METHOD': 'GET',
    }
    if q != '' or sx.choice('qs', [True, False]):
        environ['QUERY_STRING'] = q
    seen = []

    def start_response(status, headers, exc_info=None):
        seen.append((status, Headers(headers)))
    r = append_slash_redirect(environ)
    list(r(environ, start_response))
    sx.check(len(seen) == 1, 'started')
    status, headers = seen[0]
    sx.check(status.startswith('301 '), 'moved')
    loc = headers['Location']
    for c in loc:
        sx.check('!' <= c and c <= '~', 'only characters of urls')
    a = urlsplit(loc)
    sx.check(a.scheme == 'http' and a.netloc == 'h', 'on the same site')
    root = script.rstrip('/').encode('latin1')
    want = root + (path or b'') + b'/'
    got = [x if isinstance(x, int) else ord(x) for x in tokens(a.path, '')]
    sx.check(got == [x for x in want], 'the path with a slash')
    sx.check(a.fragment == '', 'no fragment')
    q = q.replace('\xff', '%FF')
    sx.check(tokens(a.query, '&=+%') == tokens(q, '&=+%'), 'the query')


def h_abort(sx):
    """any code of 398..435, by itself or with other mappings"""
    code = sx.int('code', 398, 435)
    how = sx.choice('how', ['default', 'mapping', 'extra'])
    if how == 'default':
        f = abort
        known = dict(default_exceptions)
    elif how == 'mapping':
        f = Aborter({404: NotFound, 434: Gone})
        known = {404: NotFound, 434: Gone}
    else:
        f = Aborter(extra={404: Gone, 434: NotFound})
        known = dict(default_exceptions)
        known[404] = Gone
        known[434] = NotFound
    want = None
    for c in known:
        if code == c:
            want = known[c]
    description = sx.choice('d', [None, 'text', ''])
    kw = sx.choice('kw', [{}, {'response': 'r'}])
    try:
        if kw and want is not MethodNotAllowed:
            if description is None:
                f(code, **kw)
            f(code, description=description, **kw)
        elif want is MethodNotAllowed:
            f(code)
        elif description is None:
            f(code)
        else:
            f(code, description)
    except LookupError as e:
        sx.check(want is None and not isinstance(e, HTTPException),
                 'only unknown codes are an error')
    except HTTPException as e:
        sx.check(type(e) is want, 'the class')
        if how == 'default':
            sx.check(e.code == code, 'the code')
        if want is not MethodNotAllowed:
            sx.check(e.response == kw.get('response'), 'the response')
        if want is not MethodNotAllowed and description is not None:
            sx.check(e.description == description, 'the description')
        else:
            sx.check(e.description == want.description, 'its own')
        sx.check(e.name == HTTP_STATUS_CODES[e.code], 'the name')
        sx.check(str(e) == '%d: %s' % (e.code, e.name), 'as text')
    else:
        sx.fail('raises')


def h_exceptions(sx):
    """the table of exceptions and wrapped ones"""
    for code, cls in default_exceptions.items():
        sx.check(cls.code == code and issubclass(cls, HTTPException),
                 'each by its code')
        sx.check(code in HTTP_STATUS_CODES, 'a known status')
        sx.check(400 <= code < 600, 'an error')
    sx.check(len(default_exceptions) >= 27, 'all of them')
    response = Response('x')
    try:
        abort(response)
    except HTTPException as e:
        sx.check(e.response is response, 'the response')
        sx.check(len(str(e)) > 0 and len(repr(e)) > 0, 'as text')
    else:
        sx.fail('raises')
    k = sx.str('k', 2, sx.LATIN)
    e = BadRequestKeyError(k)
    sx.check(isinstance(e, KeyError) and isinstance(e, BadRequest), 'both')
    sx.check(e.code == 400 and e.args == (k,), 'with the key')
    wrapped = NotFound.wrap(ValueError)
    e = wrapped(k)
    sx.check(isinstance(e, ValueError) and isinstance(e, NotFound), 'both')
    sx.check(e.code == 404 and e.args == (k,), 'with the argument')
    e = MethodNotAllowed(['GET'])
    sx.check(e.valid_methods == ['GET'] and e.code == 405, 'the methods')


def h_aborters(sx):
    """aborters with mappings and extras of their own, made and used in any
    order, leave each other and the mappings they were given alone"""
    mine = {404: Gone, 410: NotFound}
    extra = {410: BadRequest}
    made = []
    for i in range(2):
        how = sx.choice('how%d' % i, ['plain', 'extra', 'mapping', 'both'])
        made.append((how, {
            'plain': lambda: Aborter(), 'extra': lambda: Aborter(extra=extra),
            'mapping': lambda: Aborter(mine),
            'both': lambda: Aborter(mine, extra)}[how]()))
    code = sx.choice('code', [404, 410, 400])
    made.append(('plain', abort))
    for how, f in made:
        want = {404: NotFound, 410: Gone, 400: BadRequest}[code]
        if how in ('mapping', 'both'):
            want = mine.get(code)
        if how in ('extra', 'both') and code in extra:
            want = extra[code]
        try:
            f(code)
        except HTTPException as e:
            sx.check(type(e) is want, 'the exception of its own mapping')
        except LookupError:
            sx.check(want is None, 'an unknown code')
    sx.check(mine == {404: Gone, 410: NotFound} and
             extra == {410: BadRequest}, 'the mappings are left alone')
    # and do not follow them
    mine.clear()
    extra[404] = BadRequest
    for how, f in made:
        try:
            f(410)
        except HTTPException as e:
            sx.check(type(e) is {'plain': Gone, 'mapping': NotFound}.get(
                how, BadRequest), 'the exception it was made with')
        except LookupError:
            sx.fail('the code it was made with')


def h_table(sx):
    """each code has the most general of the exceptions with that code"""
    import verktyg.exceptions as mod
    name = sx.choice('name', sorted(
        n for n, o in vars(mod).items()
        if isinstance(o, type) and issubclass(o, HTTPException) and
        o.code is not None))
    cls = getattr(mod, name)
    try:
        abort(cls.code)
    except HTTPException as e:
        sx.check(issubclass(cls, type(e)), 'never a more special one')
        sx.check(type(e).__mro__[1] is HTTPException, 'directly below')


class Unhashable(object):
    __hash__ = None


def h_response(sx):
    """abort with responses: any object that is not a number"""
    r = sx.choice('r', [Response('x'), Response('', 404), Unhashable(), '404',
                        None, '', (), 404.0])
    try:
        abort(r)
    except HTTPException as e:
        sx.check(e.response is r and type(e) is HTTPException,
                 'raised with the response')
        sx.check(e.code is None and str(e) == '???: Unknown Error', 'as text')
    else:
        sx.fail('raises')


def h_wrapped(sx):
    """wrapped exceptions with arguments, descriptions and names"""
    base = sx.choice('base', [NotFound, BadRequest, Gone])
    exc = sx.choice('exc', [KeyError, ValueError, RuntimeError])
    name = sx.choice('name', [None, 'Other'])
    cls = base.wrap(exc) if name is None else base.wrap(exc, name)
    sx.check(cls.__name__ == (name or base.__name__ + exc.__name__), 'named')
    arg = sx.text('arg', 1, sx.LATIN)
    d = sx.choice('d', [None, '', 'text'])
    if d is None:
        e = cls(arg)
    elif sx.bool('keyword'):
        e = cls(arg, description=d)
    else:
        e = cls(arg, d)
    sx.check(e.args == (arg,), 'the argument')
    sx.check(e.description == (base.description if d is None else d),
             'the description')
    sx.check(e.code == base.code and isinstance(e, exc), 'both')
    sx.check(cls().args == (None,), 'without argument')


def h_history(sx):
    """two redirects or aborts of the same or other kind, the first of which
    is changed"""
    todo = [('/a', 302), ('/a', 301), ('/b', 302), ('/A', 302)]

    class Mine(Response):
        pass
    first = sx.choice('first', todo)
    second = sx.choice('second', todo)
    c1 = sx.choice('c1', [None, Mine])
    c2 = sx.choice('c2', [None, Mine])
    r = redirect(*first, **({'Response': c1} if c1 else {}))
    r.headers['Set-Cookie'] = 'secret'
    r.headers['Location'] = '/elsewhere'
    r.set_data('changed')
    r.status_code = 404
    r = redirect(*second, **({'Response': c2} if c2 else {}))
    sx.check(type(r) is (c2 or Response), 'the class')
    sx.check(r.headers['Location'] == second[0], 'the location')
    sx.check(r.status_code == second[1], 'the status')
    sx.check('set-cookie' not in r.headers, 'nothing else')
    sx.check(second[0].encode('ascii') in r.get_data(), 'the page')
    codes = [404, 405, 410]
    a, b = sx.choice('a', codes), sx.choice('b', codes)
    errors = []
    for code in a, b:
        try:
            abort(code, 'text%d' % len(errors))
        except HTTPException as e:
            errors.append(e)
            e.description = 'changed'
    sx.check(len(errors) == 2 and errors[0] is not errors[1], 'new ones')
    sx.check(errors[1].code == b, 'the code')
    try:
        abort(b)
    except HTTPException as e:
        sx.check(e.description != 'changed', 'the description')
        sx.check(e.code == b, 'the code')


def h_threads(sx):
    """two threads at once, the second at any line of the first: redirects and aborts"""
    def send(r):
        return r.status, sorted(r.headers), r.get_data()

    def failed(*args):
        try:
            abort(*args)
        except HTTPException as e:
            return type(e), e.description, e.code
    todo = [lambda: send(redirect('/a<b', 301)), lambda: send(redirect('/c')),
            lambda: failed(404, 'x'), lambda: failed(410)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
