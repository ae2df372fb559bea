"""Attributes of responses and their headers always agree.

Outside the bounds: longer values, the age attribute (its tests demand a
date), parameters of responses without a mimetype, dates beyond those
listed (C31), assigning None to attributes other than the ones named here.
"""
from datetime import datetime, timedelta
from verktyg.http import ContentRange, parse_options_header
from verktyg.responses import Response
from verktyg.utils import header_property, cached_property

PLAIN = [('location', 'Location'), ('content_type', 'Content-Type'),
         ('content_location', 'Content-Location'),
         ('content_encoding', 'Content-Encoding'),
         ('content_md5', 'Content-MD5'), ('accept_ranges', 'Accept-Ranges')]
DATES = ['date', 'expires', 'last_modified']
SETS = ['vary', 'content_language', 'allow']


def lines(r, name):
    return [v for k, v in r.headers if k.lower() == name.lower()]


def h_plain(sx):
    """attributes that are the header's text; values of up to 3 characters"""
    attr, name = sx.choice('attr', PLAIN)
    v = sx.text('v', 3, sx.LATIN)
    sx.assume('\r' not in v and '\n' not in v)
    r = Response('x')
    del r.headers['content-type']
    sx.check(getattr(r, attr) is None, 'None if missing')
    how = sx.choice('how', ['attribute', 'header', 'added'])
    if how == 'attribute':
        setattr(r, attr, 'old')
        setattr(r, attr, v)
        sx.check(lines(r, name) == [v], 'one header')
    elif how == 'header':
        r.headers[name.lower()] = v
    else:
        r.headers.add(name.upper(), v)
    sx.check(getattr(r, attr) == v, 'the text')
    for other, _ in PLAIN:
        if other != attr:
            sx.check(getattr(r, other) is None, 'no other')
    delattr(r, attr)
    sx.check(lines(r, name) == [] and getattr(r, attr) is None, 'removed')
    delattr(r, attr)
    sx.check(getattr(r, attr) is None, 'twice is no error')


def h_newline(sx):
    """no attribute lets newlines into a header"""
    attr, name = sx.choice('attr', PLAIN + [
        ('mimetype', 'Content-Type'), ('content_range', 'Content-Range'),
        ('retry_after', 'Retry-After'), ('vary', 'Vary'),
        ('allow', 'Allow'), ('content_language', 'Content-Language')])
    v = sx.text('v', 3, ['a', '\r', '\n', ' ', ';'], 1)
    r = Response('x')
    before = list(r.headers)
    try:
        if attr in SETS and sx.choice('list', [False, True]):
            setattr(r, attr, [v, 'b'])
        elif attr in SETS and sx.choice('add', [False, True]):
            getattr(r, attr).add(v)
        else:
            setattr(r, attr, v)
    except ValueError:
        sx.check('\r' in v or '\n' in v, 'only newlines are refused')
        sx.check(list(r.headers) == before, 'unchanged')
        return
    sx.check('\r' not in v and '\n' not in v, 'newlines are refused')
    sx.check(len(lines(r, name)) == 1, 'one header')


def h_length(sx):
    """content lengths, and headers of up to 3 characters"""
    r = Response('x')
    del r.headers['content-length']
    sx.check(r.content_length is None, 'None if missing')
    if sx.choice('set', [True, False]):
        n = sx.int('n', 0, 999)
        r.content_length = n
        sx.check(r.content_length == n, 'the number')
        v = lines(r, 'content-length')
        sx.check(len(v) == 1 and int(v[0]) == n, 'one header')
    else:
        v = sx.text('v', 3, ['0', '7', 'x', '.'])
        r.headers['Content-Length'] = v
        if [c for c in v if c not in '07'] or v == '':
            sx.check(r.content_length is None, 'not a number')
        else:
            sx.check(r.content_length == int(v), 'the number')
    del r.content_length
    sx.check(r.content_length is None and
             lines(r, 'content-length') == [], 'removed')


def h_dates(sx):
    """date attributes; any time of the day"""
    name = sx.choice('name', DATES)
    dt = datetime(2016, 2, 29, sx.int('h', 0, 23), sx.int('m', 0, 59), 7)
    r = Response('x')
    sx.check(getattr(r, name) is None, 'None if missing')
    setattr(r, name, dt)
    sx.check(getattr(r, name) == dt, 'read back')
    sx.check(len(lines(r, name.replace('_', '-'))) == 1, 'one header')
    for other in DATES:
        if other != name:
            sx.check(getattr(r, other) is None, 'no other')
    n = sx.choice('stamp', [0, 1, 86400, 0.0, 951782400])
    setattr(r, name, n)
    sx.check(getattr(r, name) == datetime(1970, 1, 1) + timedelta(seconds=n),
             'from a timestamp')
    sx.check(len(lines(r, name.replace('_', '-'))) == 1, 'one header')
    r.headers[name.replace('_', '-')] = sx.choice('bad', [
        '', 'x', '0', 'Mon, 32 Feb 2016 00:00:00 GMT'])
    sx.check(getattr(r, name) is None, 'no date')
    delattr(r, name)
    sx.check(lines(r, name.replace('_', '-')) == [], 'removed')


def h_retry(sx):
    """seconds of up to 3 digits, dates, nothing"""
    r = Response('x')
    sx.check(r.retry_after is None, 'None if missing')
    how = sx.choice('how', ['date', 'seconds', 'text', 'header', 'none',
                            'huge', 'bad'])
    if how in ('huge', 'bad'):
        r.headers['Retry-After'] = sx.choice('digits', [
            '9' * 12, '9' * 30, '9' * 5000]) if how == 'huge' else sx.text(
                'bad', 2, ['1', '\xb2', '\xb9', 'x', '-', '_', ' '], 1)
        got = r.retry_after
        if how == 'huge' or not r.headers['Retry-After'].strip().isdecimal():
            sx.check(got is None, 'malformed ones are missing')
        return
    if how == 'date':
        dt = datetime(2016, 2, 29, 3, 4, sx.int('s', 0, 59))
        r.retry_after = dt
        sx.check(r.retry_after == dt, 'read back')
    elif how == 'none':
        r.retry_after = None
        sx.check(lines(r, 'retry-after') == [], 'no header')
        r.retry_after = 7
        r.retry_after = None
    else:
        n = sx.choice('n', [0, 1, 60, 999])
        if how == 'seconds':
            r.retry_after = n
        elif how == 'text':
            r.retry_after = str(n)
        else:
            r.headers['Retry-After'] = str(n)
        sx.check(lines(r, 'retry-after') == [str(n)], 'in seconds')
        a = datetime.utcnow()
        got = r.retry_after
        b = datetime.utcnow()
        d = timedelta(seconds=n)
        sx.check(a + d <= got and got <= b + d, 'from now on')
    if how == 'none':
        sx.check(lines(r, 'retry-after') == [] and r.retry_after is None,
                 'removed')
    else:
        sx.check(len(lines(r, 'retry-after')) == 1, 'one header')


def h_lists(sx):
    """attributes which are lists, of items of up to 2 characters"""
    attr, name = sx.choice('attr', [
        ('vary', 'Vary'), ('allow', 'Allow'),
        ('content_language', 'Content-Language')])
    v = sx.text('v', 2, ['a', ' ', ',', '"', '\\', '=', '\xe4', 'B'], 1)
    r = Response('x')
    sx.check(list(getattr(r, attr)) == [] and lines(r, name) == [],
             'empty if missing')
    how = sx.choice('how', ['add', 'list', 'tuple', 'update', 'more',
                            'subclass'])
    if how == 'add':
        getattr(r, attr).add(v)
        want = [v]
    elif how == 'list':
        setattr(r, attr, ['x', v])
        want = ['x', v]
    elif how == 'tuple':
        setattr(r, attr, (v, 'x'))
        want = [v, 'x']
    elif how == 'subclass':
        class Name(str):
            pass
        v = Name('de')
        setattr(r, attr, Name('x, de'))
        want = ['x', 'de']
    elif how == 'update':
        setattr(r, attr, 'x')
        getattr(r, attr).update([v, 'y'])
        want = ['x', v, 'y']
    else:
        setattr(r, attr, 'x, y')
        s = getattr(r, attr)
        s.add(v)
        s.discard('x')
        want = ['y', v]
    sx.check(list(getattr(r, attr)) == want, 'read back')
    sx.check(len(lines(r, name)) == 1, 'one header')
    for other in SETS:
        if other != attr:
            sx.check(list(getattr(r, other)) == [], 'no other')
    end = sx.choice('end', ['clear', 'empty', 'none', 'remove'])
    if end == 'clear':
        getattr(r, attr).clear()
    elif end == 'remove':
        s = getattr(r, attr)
        for item in want:
            s.remove(item)
    else:
        setattr(r, attr, [] if end == 'empty' else None)
    sx.check(lines(r, name) == [] and list(getattr(r, attr)) == [],
             'removed')


TYPES = ['text/plain', 'text/', 'application/xml', 'application/a+xml',
         'application/json', 'image/svg+xml', 'a/b', 'Text/plain']


def h_mimetype(sx):
    """mimetypes with a changed parameter of up to 2 characters"""
    t = sx.choice('type', TYPES)
    r = Response('x')
    r.mimetype = t
    text = t in TYPES[:4]
    sx.check(lines(r, 'content-type') ==
             [t + '; charset=utf-8' if text else t], 'with the charset')
    sx.check(r.mimetype == t, 'read back')
    params = {'charset': 'utf-8'} if text else {}
    sx.check(r.mimetype_params == params, 'the parameters')
    k = sx.choice('k', ['charset', 'x-y'])
    v = sx.text('v', 2, ['a', ' ', ';', '"', '\\', '=', ',', '\xe4'])
    op = sx.choice('op', ['set', 'update', 'pop', 'clear', 'setdefault'])
    if op == 'set':
        r.mimetype_params[k] = v
        params[k] = v
    elif op == 'update':
        r.mimetype_params.update({k: v, 'z': '1'})
        params.update({k: v, 'z': '1'})
    elif op == 'pop':
        r.mimetype_params.pop(k, None)
        params.pop(k, None)
    elif op == 'clear':
        r.mimetype_params.clear()
        params = {}
    else:
        r.mimetype_params.setdefault(k, v)
        params.setdefault(k, v)
    sx.check(r.mimetype_params == params, 'changes are kept')
    sx.check(r.mimetype == t, 'the type stays')
    sx.check(len(lines(r, 'content-type')) == 1, 'one header')
    sx.check(parse_options_header(r.headers['Content-Type']) == (t, params),
             'in the header')


def h_type(sx):
    """content types of up to 4 characters"""
    v = sx.text('v', 4, ['a', '/', ';', '=', ' ', 'B'])
    r = Response('x', content_type=v)
    sx.check(r.content_type == v, 'as given')
    want = ''
    for c in v:
        if c == ';':
            break
        want += c
    if v == '':
        sx.check(not r.mimetype, 'none')
    else:
        sx.check(r.mimetype == want.strip(), 'without parameters')
    how = sx.choice('how', ['mimetype', 'default', 'both', 'headers'])
    if how == 'mimetype':
        r = Response('x', mimetype='a/b')
        sx.check(r.content_type == 'a/b', 'the mimetype')
    elif how == 'both':
        r = Response('x', mimetype='a/b', content_type='c/d')
        sx.check(r.content_type == 'c/d', 'the content type wins')
    elif how == 'headers':
        r = Response('x', headers={'content-type': 'c/d'})
        sx.check(r.content_type == 'c/d' and
                 len(lines(r, 'content-type')) == 1, 'the header stays')
    else:
        sx.check(Response('x').content_type == 'text/plain; charset=utf-8',
                 'text by default')


def h_range(sx):
    """changes to content ranges with positions below 5"""
    r = Response('x')
    cr = r.content_range
    sx.check(not cr and lines(r, 'content-range') == [], 'none at first')
    a = sx.int('a', 0, 3)
    b = sx.int('b', 1, 4)
    sx.assume(a < b)
    how = sx.choice('how', ['set', 'object', 'text', 'start', 'unset',
                            'none', 'header'])
    if how == 'header':
        if sx.bool('again'):
            cr.set(a, b, 9)
            del r.headers['Content-Range']
            sx.check(not r.content_range and r.content_range.start is None
                     and r.content_range.length is None, 'removed')
        r.headers['Content-Range'] = 'bytes 0-1/9'
        cr = r.content_range
        cr.length = 10
        sx.check(lines(r, 'content-range') == ['bytes 0-1/10'], 'changed')
        return
    if how == 'object':
        r.content_range = ContentRange('bytes', a, b, 9)
    elif how == 'text':
        r.content_range = ContentRange('bytes', a, b, 9).to_header()
    else:
        cr.set(a, b, 9)
    if how == 'start':
        sx.assume(b > 1)
        cr.start = 0
        a = 0
    elif how == 'unset':
        cr.unset()
        cr.unset()
        sx.check(lines(r, 'content-range') == [], 'removed')
        return
    elif how == 'none':
        r.content_range = None
        r.content_range = None
        sx.check(lines(r, 'content-range') == [], 'removed')
        return
    sx.check(len(lines(r, 'content-range')) == 1, 'one header')
    got = r.content_range
    sx.check(got.units == 'bytes' and got.start == a and got.stop == b and
             got.length == 9, 'read back')


def h_etag(sx):
    """entity tags of up to 3 characters"""
    r = Response('x')
    sx.check(r.get_etag() == (None, None), 'none at first')
    v = sx.text('v', 3, ['a', 'W', '/', ' ', ',', '\xe4'])
    weak = sx.bool('weak')
    r.set_etag('old')
    r.set_etag(v, weak)
    sx.check(len(lines(r, 'etag')) == 1, 'one header')
    got, w = r.get_etag()
    sx.check(got == v and bool(w) == weak, 'read back')
    r.add_etag()
    sx.check(r.get_etag()[0] == v, 'not replaced')
    s = Response('y')
    s.add_etag(weak=True)
    t = Response('y')
    t.add_etag()
    sx.check(s.get_etag() == (t.get_etag()[0], True), 'by content')
    r.add_etag(overwrite=True)
    sx.check(r.get_etag()[0] != t.get_etag()[0] and
             not r.get_etag()[1], 'replaced')


def h_property(sx):
    """header properties with defaults, conversion and protection"""
    v = sx.text('v', 2, ['1', '0', 'x', ' '])

    class Other(Response):
        number = header_property('X-N', 5, int, str)
        fixed = header_property('X-F', 'd', read_only=True)
        strict = header_property('X-N', load_func=int)
    r = Other('x')
    sx.check(r.number == 5 and r.strict is None, 'the default')
    r.headers['x-n'] = v
    r.headers['x-f'] = v
    if sx.bool('twice'):
        r.headers.add('X-N', '7')
    try:
        want = int(v)
    except ValueError:
        want = None
    sx.check(r.number == (5 if want is None else want), 'or converted')
    sx.check(r.strict == want, 'or converted')
    sx.check(r.fixed == v, 'read')
    for f in (lambda: setattr(r, 'fixed', 'n'), lambda: delattr(r, 'fixed')):
        try:
            f()
        except AttributeError:
            pass
        else:
            sx.fail('read only')
    sx.check(r.headers['X-F'] == v, 'unchanged')
    if sx.bool('delete'):
        del r.number
        sx.check(lines(r, 'x-n') == [] and r.number == 5, 'gone')
    r.number = 12
    sx.check(lines(r, 'x-n') == ['12'], 'written')
    sx.check(Other('y').number == 5, 'of its own')


def h_cached(sx):
    """cached properties of two objects, in any order of 3 operations"""
    calls = []

    class Other(object):
        @cached_property
        def value(self):
            calls.append(self)
            return results[len(calls)]
    results = [None] + sx.choice('results', [
        [1, 2, 3], [0, '', False], [None, 0, None], [[], {}, ()]])
    objs = [Other(), Other()]
    missing = object()
    model = [missing, missing]
    n = 0
    for i in range(3):
        j = sx.choice('j%d' % i, [0, 1])
        op = sx.choice('op%d' % i, ['get', 'set', 'drop'])
        if op == 'get':
            if model[j] is missing:
                n += 1
                model[j] = results[n]
            sx.check(objs[j].value is model[j], 'computed once')
        elif op == 'set':
            v = sx.choice('v%d' % i, [70 + i, 0, None])
            objs[j].value = v
            model[j] = v
        else:
            objs[j].__dict__.pop('value', None)
            model[j] = missing
        sx.check(len(calls) == n, 'never again')


def h_cached_name(sx):
    """cached properties with names of their own, added to a class later or
    read by hand"""
    calls = []

    def function(self):
        """documented"""
        calls.append(self)
        return len(calls)
    named = sx.bool('named')
    if named:
        p = cached_property(function, name='other',
                            doc=sx.choice('doc', [None, 'text']))
    else:
        p = cached_property(function)

    class Plain(object):
        pass
    attr = sx.choice('attr', ['other', 'function', 'third'])
    setattr(Plain, attr, p)
    sx.check(getattr(Plain, attr) is p, 'the class has the property')
    sx.check(p.__doc__ in ('documented', 'text'), 'documented')
    name = 'other' if named else 'function'
    sx.check(p.__name__ == name, 'the name')
    a, b = Plain(), Plain()
    sx.check(getattr(a, attr) == 1 and getattr(a, attr) == 1, 'once')
    sx.check(p.__get__(a) == 1 and a.__dict__ == {name: 1}, 'stored')
    sx.check(getattr(b, attr) == 2 and len(calls) == 2, 'for each object')
    setattr(a, attr, 9)
    sx.check(getattr(a, attr) == 9 and a.__dict__ == {name: 9}, 'set')
    sx.check(calls[0] is a and calls[1] is b, 'of the object')


def h_follow(sx):
    """attributes read before their header is changed or removed"""
    attr, name, values = sx.choice('attr', [
        ('vary', 'Vary', ['a', 'b, c']),
        ('allow', 'Allow', ['GET', 'PUT, GET']),
        ('content_language', 'Content-Language', ['de', 'en']),
        ('cache_control', 'Cache-Control', ['no-cache', 'max-age=1']),
        ('mimetype_params', 'Content-Type', ['a/b; c=d', 'a/b']),
        ('mimetype', 'Content-Type', ['a/b; c=d', 'c/d']),
        ('www_authenticate', 'WWW-Authenticate', ['Basic realm="a"',
                                                  'Basic realm="b"']),
        ('content_range', 'Content-Range', ['bytes 0-1/2', 'bytes 1-2/9']),
        ('content_length', 'Content-Length', ['1', '2']),
        ('last_modified', 'Last-Modified', [
            'Sun, 06 Nov 1994 08:49:37 GMT',
            'Sun, 06 Nov 1994 08:49:38 GMT']),
        ('location', 'Location', ['/a', '/b'])])

    def text(r):
        v = getattr(r, attr)
        return v.to_header() if hasattr(v, 'to_header') else v
    r = Response('x')
    for i in range(3):
        change = sx.choice('change%d' % i, [0, 1, None])
        fresh = Response('x')
        for x in (r, fresh):
            if change is None:
                x.headers.pop(name, None)
            else:
                x.headers[name] = values[change]
        sx.check(text(r) == text(fresh), 'the header as it is now')


def h_threads(sx):
    """two threads at once, the second at any line of the first: attributes of responses"""
    def attrs(n):
        r = Response('x' * n)
        r.content_length = n
        r.mimetype = 'text/t%d' % n
        r.mimetype_params['a'] = str(n)
        r.vary.add('v%d' % n)
        r.cache_control.max_age = n
        r.status_code = 200 + n
        return (r.content_length, r.content_type, r.status, r.vary.to_header(),
                r.cache_control.to_header(), sorted(r.headers))
    todo = [lambda: attrs(1), lambda: attrs(2)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
