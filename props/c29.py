"""Requests report exactly what the environment says.

The oracles read the environment with rules of their own.
Outside the bounds: longer values, other WSGI variables, text that is no
valid WSGI (beyond latin1), lists and dates in headers (C12, C15, C31, ...).
"""
from io import BytesIO
from verktyg.datastructures import (
    MultiDict, OrderedMultiDict, ImmutableMultiDict,
    ImmutableOrderedMultiDict, ImmutableDict, ImmutableList,
    TypeConversionDict,
)
from verktyg.exceptions import ClientDisconnected, SecurityError
from verktyg.utils import cached_property
from verktyg.requests import Request, BaseRequest, PlainRequest
from verktyg.wsgi import EnvironHeaders, get_content_length
from verktyg.http import (
    parse_options_header, parse_etags, parse_date, parse_range_header,
    parse_if_range_header, FileStorage,
)

HEX = '0123456789abcdefABCDEF'


def base(**kw):
    environ = {
        'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': '', 'PATH_INFO': '/',
        'SERVER_NAME': 'host', 'SERVER_PORT': '80',
        'wsgi.url_scheme': 'http', 'wsgi.input': BytesIO(b''),
        'wsgi.version': (1, 0),
    }
    environ.update(kw)
    return environ


NAMES = ['HTTP_X_A', 'HTTP_X_AB', 'HTTP_ACCEPT', 'CONTENT_TYPE',
         'CONTENT_LENGTH', 'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH',
         'HTTPS', 'HTTPX_A', 'SERVER_NAME', 'X_HTTP_A', 'wsgi.version']
TITLES = {'HTTP_X_A': 'X-A', 'HTTP_X_AB': 'X-Ab', 'HTTP_ACCEPT': 'Accept',
          'CONTENT_TYPE': 'Content-Type', 'CONTENT_LENGTH': 'Content-Length'}


def h_headers(sx):
    """headers of environments with any 3 of 12 variables"""
    environ = {}
    for i in range(3):
        n = sx.choice('n%d' % i, NAMES)
        if n in environ:
            return
        environ[n] = sx.text('v%d' % i, 1, sx.LATIN)
    if 'wsgi.version' in environ:
        environ['wsgi.version'] = (1, 0)
    h = EnvironHeaders(environ)
    want = [(TITLES[n], v) for n, v in environ.items() if n in TITLES]
    sx.check(list(h) == want, 'exactly the headers')
    sx.check(len(h) == len(want) and bool(h) == bool(want), 'len')
    sx.check(list(h.items(lower=True)) == [(k.lower(), v) for k, v in want],
             'lower case')
    sx.check(list(h.keys()) == [k for k, _ in want], 'names')
    sx.check(h.to_wsgi_list() == want, 'as list')
    how = sx.choice('case', ['title', 'lower', 'upper'])
    for name in ['X-A', 'X-Ab', 'Accept', 'Content-Type', 'Content-Length',
                 'Server-Name', 'S', 'X-Http-A', 'A']:
        vs = [v for k, v in want if k == name]
        key = getattr(name, how)()
        sx.check((key in h) == bool(vs), 'in')
        sx.check(h.get(key) == (vs[0] if vs else None), 'get')
        sx.check(h.getlist(key) == vs, 'getlist')
        if vs:
            sx.check(h.get(key, as_bytes=True) == vs[0].encode('latin1'),
                     'as bytes')
        try:
            got = h[key]
            sx.check(len(vs) > 0 and got == vs[0], 'value')
        except KeyError:
            sx.check(not vs, 'only missing ones are an error')
    sx.check(h == EnvironHeaders(environ), 'views of the same are equal')
    environ['HTTP_NEW'] = 'n'
    sx.check(h['new'] == 'n' and len(h) == len(want) + 1, 'a view')


def h_name(sx):
    """any header name of up to 4 characters, in any case"""
    name = sx.str('name', 4, sx.TOKEN)
    sx.assume(len(name) > 0)
    sx.assume('_' not in name and name.lower() != 'new')
    environ = {'HTTP_' + name.upper().replace('-', '_'): 'v',
               'HTTP_NEW': 'w'}
    h = EnvironHeaders(environ)
    sx.check(h[name] == 'v' and h.get(name.lower()) == 'v', 'found')
    sx.check(name.upper() in h, 'found')
    sx.check(h.getlist(name) == ['v'], 'found')
    sx.check([k.lower() for k, _ in h] == [name.lower(), 'new'], 'listed')


def h_plain(sx):
    """attributes that are one variable each"""
    attr, var = sx.choice('attr', [
        ('content_type', 'CONTENT_TYPE'),
        ('content_encoding', 'HTTP_CONTENT_ENCODING'),
        ('content_md5', 'HTTP_CONTENT_MD5'), ('referrer', 'HTTP_REFERER'),
        ('remote_addr', 'REMOTE_ADDR'), ('remote_user', 'REMOTE_USER'),
        ('scheme', 'wsgi.url_scheme'),
    ])
    environ = base()
    sx.check(getattr(Request(environ), attr) == environ.get(var),
             'None if missing')
    environ[var] = v = sx.text('v', 2, sx.LATIN)
    for other in ['CONTENT_TYPE', 'HTTP_CONTENT_ENCODING',
                  'HTTP_CONTENT_MD5', 'HTTP_REFERER', 'REMOTE_ADDR',
                  'REMOTE_USER', 'HTTP_CONTENT_TYPE']:
        environ.setdefault(other, 'other')
    r = Request(environ)
    sx.check(getattr(r, attr) == v and getattr(r, attr) == v, 'the value')
    sx.check(environ['verktyg.request'] is r, 'in the environment')
    del environ['verktyg.request']
    Request(environ, populate_request=False)
    Request(environ, shallow=True)
    sx.check('verktyg.request' not in environ, 'unless told otherwise')


def digits(v):
    """the value of 1*DIGIT or None"""
    rv = 0
    for c in v:
        if c not in '0123456789':
            return None
        rv = rv * 10 + ord(c) - 48
    return rv if len(v) else None


def h_numbers(sx):
    """content length and max forwards of up to 3 (thorough 5) characters"""
    v = sx.text('v', sx.t(3, 5), ['0', '1', '9', '-', ' ', 'x', '.'])
    name = sx.choice('name', ['content_length', 'max_forwards'])
    var = {'content_length': 'CONTENT_LENGTH',
           'max_forwards': 'HTTP_MAX_FORWARDS'}[name]
    r = Request(base())
    sx.check(getattr(r, name) is None, 'None if missing')
    r = Request(base(**{var: v}))
    got = getattr(r, name)
    n = digits(v.strip())
    if n is not None:
        sx.check(got == n, 'the number')
    elif name == 'content_length' and v.strip()[:1] == '-':
        sx.check(got is None or got == 0, 'never negative')
    elif name == 'content_length' or v.strip()[:1] != '-':
        sx.check(got is None, 'no number')
    if name == 'content_length':
        sx.check(get_content_length({'CONTENT_LENGTH': v}) == got, 'as well')


def h_flags(sx):
    """flags and the method"""
    scheme = sx.text('scheme', 5, ['h', 't', 'p', 's', 'w'], 2)
    value = sx.choice('value', [True, False])
    m = sx.text('m', 3, ['G', 'E', 't', 'g', '-'], 1)
    x = sx.choice('x', [None, 'XMLHttpRequest', 'xmlhttprequest', 'other',
                        '', 'XMLHttpRequest2'])
    environ = base(**{
        'wsgi.url_scheme': scheme, 'wsgi.multithread': value,
        'wsgi.multiprocess': not value, 'wsgi.run_once': value,
        'REQUEST_METHOD': m, 'verktyg.application': 'app'})
    if x is not None:
        environ['HTTP_X_REQUESTED_WITH'] = x
    r = sx.choice('cls', [Request, BaseRequest, PlainRequest])(environ)
    sx.check(r.is_secure is (scheme == 'https'), 'only https is secure')
    sx.check(r.is_multithread is value, 'multithread')
    sx.check(r.is_multiprocess is (not value), 'multiprocess')
    sx.check(r.is_run_once is value, 'run once')
    sx.check(r.method == m.upper(), 'method')
    sx.check(r.is_xhr is (x is not None and x.lower() == 'xmlhttprequest'),
             'xhr')
    sx.check(r.app == 'app', 'application')
    del environ['REQUEST_METHOD']
    del environ['verktyg.application']
    sx.check(Request(environ).method == 'GET', 'GET by default')
    sx.check(Request(environ).app is None, 'no application')


def decode(raw):
    return raw.decode('utf-8', 'replace')


def h_path(sx):
    """paths, roots and queries of up to 3 (thorough 4) bytes"""
    n = sx.t(3, 4)
    p = sx.data('p', n, b'/a?%\xc3\xa4\xff')
    s = sx.data('s', 2, b'/b\xc3\xa4')
    q = sx.data('q', 2, b'=&?%\xc3\xa4')
    environ = base(PATH_INFO=p.decode('latin1'),
                   SCRIPT_NAME=s.decode('latin1'),
                   QUERY_STRING=q.decode('latin1'))
    r = Request(environ)
    path = decode(p)
    while path[:1] == '/':
        path = path[1:]
    root = decode(s)
    while root[-1:] == '/':
        root = root[:-1]
    sx.check(r.path == '/' + path, 'decoded, with one slash in front')
    sx.check(r.script_root == root, 'decoded, without slashes at the end')
    sx.check(r.query_string == decode(q), 'decoded')
    sx.check(r.full_path == '/' + path + '?' + decode(q), 'both')
    missing = Request({'wsgi.url_scheme': 'http'})
    sx.check(missing.path == '/' and missing.query_string == '' and
             missing.script_root == '', 'empty without the variables')


def quoted(sx, text, mode):
    """written like browsers write form data"""
    rv = ''
    for c in text:
        if c == ' ' and mode != 'all':
            rv += '+'
        elif mode == 'raw' and c not in '&=+%#;':
            rv += c.encode('utf-8').decode('latin1')
        elif mode == 'part' and c in 'ab;':
            rv += c
        else:
            for b in c.encode('utf-8'):
                rv += '%%%X%X' % (b // 16, b % 16)
    return rv


def h_args(sx):
    """query strings of up to 2 (thorough 3) items of up to 2 characters"""
    mode = sx.choice('mode', ['raw', 'part', 'all'])
    pairs = []
    for i in range(sx.choice('n', list(range(sx.t(3, 4))))):
        pairs.append((
            sx.text('k%d' % i, 1, ['a', '&', '\xe4', ' ']),
            sx.text('v%d' % i, sx.t(2, 2) if i == 0 else 1,
                    ['b', '&', '=', '+', '%', ';', ' ', '\u20ac'])))
    qs = '&'.join([quoted(sx, k, mode) + '=' + quoted(sx, v, mode)
                   for k, v in pairs])
    r = Request(base(QUERY_STRING=qs))
    args = r.args
    sx.check(type(args) is ImmutableMultiDict, 'immutable')
    for k, _ in pairs:
        sx.check(args.getlist(k) == [v for n, v in pairs if n == k],
                 'all values in order')
    sx.check(len(list(args.items(multi=True))) == len(pairs), 'nothing else')
    sx.check(r.args is args, 'parsed once')


def h_query(sx):
    """any query string of up to 4 (thorough 6) characters"""
    q = sx.text('q', sx.t(4, 6), ['a', '=', '&', '%', '4', '+', '\xff', ';'])
    args = Request(base(QUERY_STRING=q)).args
    want = []
    for part in q.split('&'):
        if part != '' and '%' not in part and '\xff' not in part:
            k, v = part.split('=', 1) if '=' in part else (part, '')
            want.append((k.replace('+', ' '), v.replace('+', ' ')))
    if '%' not in q and '\xff' not in q:
        got = list(args.items(multi=True))
        sx.check(len(got) == len(want), 'as many items')
        for k, _ in want + got:
            sx.check([v for n, v in got if n == k] ==
                     [v for n, v in want if n == k], 'the items')


def h_route(sx):
    """forwarded addresses of up to 4 (thorough 6) characters"""
    environ = base()
    sx.check(list(Request(environ).access_route) == [], 'nothing')
    how = sx.choice('how', ['forwarded', 'remote', 'both'])
    v = sx.text('v', sx.t(4, 6), ['1', '.', ',', ' ', '\t', 'a', ':'])
    if how != 'remote':
        environ['HTTP_X_FORWARDED_FOR'] = v
    if how != 'forwarded':
        environ['REMOTE_ADDR'] = 'r'
    got = Request(environ).access_route
    sx.check(type(got) is ImmutableList, 'immutable')
    want = ['']
    for c in v:
        if c == ',':
            want.append('')
        else:
            want[-1] += c
    want = [x.strip(' \t') for x in want]
    sx.check(list(got) == (['r'] if how == 'remote' else want),
             'all addresses in order')
    if how == 'forwarded':
        sx.check(Request(environ).remote_addr is None, 'none')
    else:
        sx.check(Request(environ).remote_addr == 'r', 'never a claimed one')


def h_mimetype(sx):
    """content types with a symbolic type and parameter"""
    t = sx.text('t', 3, ['a', 'B', '/', '+'], 1)
    v = sx.text('v', 2, ['u', 'T', '-', '8'], 1)
    style = sx.choice('style', ['%s; charset=%s', '%s;charset="%s"',
                                '%s ; charset=%s', '%s;a=b;charset=%s'])
    r = Request(base(CONTENT_TYPE=style % (t, v)))
    sx.check(r.mimetype == t.lower(), 'lower case, without parameters')
    want = {'charset': v}
    if 'a=b' in style:
        want['a'] = 'b'
    sx.check(r.mimetype_params == want, 'parameters')
    sx.check(r.content_type == style % (t, v), 'unchanged')
    r = Request(base(CONTENT_TYPE=t))
    sx.check(r.mimetype == t.lower() and r.mimetype_params == {}, 'none')
    r = Request(base())
    sx.check(r.mimetype == '' and r.mimetype_params == {}, 'none')


class Source(object):
    """a connection that ends after its data"""

    def __init__(self, data):
        self.data = data

    def read(self, size=-1):
        if size is None or size < 0:
            size = len(self.data)
        rv = self.data[:size]
        self.data = self.data[size:]
        return rv

    def readline(self, size=-1):
        raise AssertionError('not used')


def h_body(sx):
    """the body of a request read in any order, twice"""
    data = sx.data('d', 3, b'a\xc3\xa4\n')
    extra = sx.choice('extra', [b'', b'next'])
    environ = base(**{
        'CONTENT_LENGTH': str(len(data)), 'wsgi.input': Source(data + extra)
    })
    r = Request(environ, shallow=sx.choice('shallow', [False, True]))
    log = []
    for i in range(3):
        op = sx.choice('op%d' % i, ['data', 'text', 'nocache', 'stream'])
        try:
            if op == 'data':
                got = r.get_data()
            elif op == 'text':
                got = r.get_data(as_text=True)
            elif op == 'nocache':
                got = r.get_data(cache=False)
            else:
                got = r.stream.read()
        except RuntimeError:
            sx.check(r.shallow, 'only shallow requests do not read')
            sx.check(environ['wsgi.input'].data == data + extra,
                     'nothing was read')
            return
        sx.check(not r.shallow, 'shallow requests do not read')
        cached = 'data' in log or 'text' in log
        if not log or (cached and op != 'stream'):
            if log and log[0] in ('nocache', 'stream'):
                want = b''
            else:
                want = data
        else:
            want = b''
        if op == 'text':
            want = want.decode('utf-8', 'replace')
        sx.check(got == want, 'the body, once or cached')
        log.append(op)
    sx.check(environ['wsgi.input'].data == (extra if log else data + extra),
             'never more')


class Counting(object):
    def __init__(self, data):
        self.data = data
        self.reads = 0
        self.ended = 0

    def read(self, size=-1):
        self.reads += 1
        n = len(self.data) if size is None or size < 0 else size
        rv, self.data = self.data[:n], self.data[n:]
        return rv

    def readline(self, size=-1):
        return self.read(size)


def h_cached(sx):
    """a body of up to 2 bytes, which may be empty, is read once; with or
    without a length"""
    data = sx.data('d', 2, b'a\xff')
    source = Counting(data)
    environ = base(**{'wsgi.input': source})
    if sx.bool('terminated'):
        environ['wsgi.input_terminated'] = True
    else:
        environ['CONTENT_LENGTH'] = str(len(data))
    r = Request(environ)
    text = sx.bool('text')
    want = data.decode('utf-8', 'replace') if text else data
    sx.check(r.get_data(as_text=text) == want, 'the body')
    reads = source.reads
    for i in range(2):
        sx.check(r.get_data() == data, 'again')
        sx.check(r.get_data(as_text=True) == data.decode('utf-8', 'replace'),
                 'as text')
    sx.check(source.reads == reads, 'read once')


def h_close(sx):
    """closing requests"""
    log = []
    environ = base()
    r = Request(environ)

    @r.call_on_close
    def first():
        log.append(1)
    sx.check(first is not None, 'can be used as a decorator')
    r.call_on_close(lambda: log.append(2))
    sx.check(log == [], 'not yet')
    if sx.choice('with', [True, False]):
        with r as s:
            sx.check(s is r and log == [], 'not yet')
    else:
        r.close()
    sx.check(log == [1, 2], 'all of them')
    n = sx.int('n', 0, 3)
    files = [FileStorage(BytesIO(b'x')) for _ in range(n)]
    r = Request(environ)
    r.files = MultiDict(list(zip(['a', 'a', 'c'], files)))
    r.close()
    for f in files:
        sx.check(f.stream.closed, 'all files are closed')
    Request(environ).close()
    sx.check(log == [1, 2], 'only its own')


def h_options(sx):
    """the mimetype agrees with the options of any header of 4 characters"""
    v = sx.text('v', sx.t(4, 5), ['a', '/', ';', '=', '"', ' ', 'B'])
    r = Request(base(CONTENT_TYPE=v))
    t, params = parse_options_header(v)
    sx.check(r.mimetype == t.lower(), 'the type')
    sx.check(r.mimetype_params == params, 'parameters')
    if not [c for c in v if c in ';=" ']:
        sx.check(r.mimetype == v.lower(), 'all of it')


COND = [('HTTP_IF_MATCH', '"%s"'), ('HTTP_IF_NONE_MATCH', '"%s"'),
        ('HTTP_IF_RANGE', '"%s"'), ('HTTP_RANGE', 'bytes=%s-'),
        ('HTTP_IF_MODIFIED_SINCE', 'Tue, 0%s Mar 2011 10:00:00 GMT'),
        ('HTTP_IF_UNMODIFIED_SINCE', 'Tue, 0%s Mar 2011 10:00:00 GMT'),
        ('HTTP_DATE', 'Tue, 0%s Mar 2011 10:00:00 GMT'),
        ('HTTP_PRAGMA', 'x%s, y'), ('HTTP_CACHE_CONTROL', 'max-age=%s')]


def h_conditions(sx):
    """conditional headers are those of their own variable, any subset of
    which is sent"""
    digits = {}
    environ = base()
    one = sx.choice('missing', [None] + [var for var, _ in COND])
    only = sx.bool('only')
    for i, (var, form) in enumerate(COND):
        if one is not None and (var == one) != only:
            continue
        digits[var] = sx.str('d', 1, '123456789') if i == 0 else (
            '123456789'[i])
        environ[var] = form % digits[var]
    r = Request(environ)
    for attr in ['if_match', 'if_none_match']:
        d = digits.get('HTTP_' + attr.upper())
        got = getattr(r, attr)
        sx.check(got.as_set() == (set() if d is None else {d}), 'tags')
        sx.check(bool(got) == (d is not None), 'tags')
    d = digits.get('HTTP_IF_RANGE')
    sx.check(r.if_range.etag == d and r.if_range.date is None, 'if range')
    d = digits.get('HTTP_RANGE')
    sx.check((r.range is None) == (d is None), 'range')
    if d is not None:
        sx.check(r.range.units == 'bytes' and
                 r.range.ranges == [(int(d), None)], 'range')
    for attr in ['if_modified_since', 'if_unmodified_since', 'date']:
        d = digits.get('HTTP_' + attr.upper())
        got = getattr(r, attr)
        if d is None:
            sx.check(got is None, 'no date')
        else:
            sx.check((got.year, got.month, got.day, got.hour, got.minute) ==
                     (2011, 3, int(d), 10, 0), 'dates')
    d = digits.get('HTTP_PRAGMA')
    sx.check(list(r.pragma) == ([] if d is None else ['x' + d, 'y']),
             'pragma')
    d = digits.get('HTTP_CACHE_CONTROL')
    sx.check(r.cache_control.max_age == (None if d is None else int(d)),
             'cache control')
    sx.check(r.input_stream is environ['wsgi.input'], 'the raw stream')


def h_host(sx):
    """the host, and the addresses of requests made from values"""
    host = sx.text('host', 2, ['a', 'b', '.', '-'], 1)
    port = sx.text('port', 2, '0123456789', 1)
    scheme = sx.choice('scheme', ['http', 'https'])
    environ = base(HTTP_HOST=host + ':' + port)
    environ['wsgi.url_scheme'] = scheme

    class Trusting(Request):
        trusted_hosts = sx.choice('trusted', [None, ['zz']])
    r = Trusting(environ)
    try:
        got = r.host
        sx.check(Trusting.trusted_hosts is None, 'only trusted hosts')
        sx.check(got == host + ':' + port, 'the host and port')
    except Exception as e:
        sx.check(Trusting.trusted_hosts is not None and
                 type(e).__name__ == 'SecurityError', 'refused')
    r = Request.from_values('/p?q=' + host, base_url='http://x.y/z',
                            method='PUT', data='abc')
    sx.check(type(r) is Request and r.path == '/p' and r.method == 'PUT' and
             r.script_root == '/z' and r.host == 'x.y' and
             r.args['q'] == host and r.get_data() == b'abc', 'from values')


def h_errors(sx):
    """what is not utf-8 is decoded as the class of the request says; paths,
    queries, cookies and bodies of up to 2 bytes"""
    errors = sx.choice('errors', ['replace', 'ignore', 'strict'])

    class Mine(Request):
        encoding_errors = errors
    raw = sx.data('raw', 2, b'a\xc3\xa4\xff')
    name = sx.choice('name', ['path', 'script_root', 'query_string', 'args',
                              'names', 'full_path', 'text', 'quoted',
                              'cookie'])
    text = raw.decode('latin1')
    environ = base()
    if name in ('path', 'full_path'):
        environ['PATH_INFO'] = '/' + text
    elif name == 'script_root':
        environ['SCRIPT_NAME'] = '/' + text
    elif name == 'query_string':
        environ['QUERY_STRING'] = text
    elif name == 'args':
        environ['QUERY_STRING'] = 'q=' + text
    elif name == 'names':
        environ['QUERY_STRING'] = text + '=v'
    elif name == 'quoted':
        environ['QUERY_STRING'] = 'q=' + ''.join(
            ['%%%X%X' % (b // 16, b % 16) for b in raw])
    elif name == 'cookie':
        environ['HTTP_COOKIE'] = 'q=' + text
    else:
        environ['wsgi.input'] = BytesIO(raw)
        environ['CONTENT_LENGTH'] = str(len(raw))
    r = Mine(environ)
    try:
        want = raw.decode('utf-8', errors)
    except UnicodeDecodeError:
        want = None
    try:
        if name == 'text':
            got = r.get_data(as_text=True)
        elif name in ('args', 'quoted'):
            got = r.args['q']
        elif name == 'names':
            got = [k for k, v in r.args.items() if v == 'v']
            got = got[0]
        elif name == 'cookie':
            got = r.cookies['q']
        else:
            got = getattr(r, name)
    except UnicodeDecodeError:
        sx.check(want is None, 'only what is not utf-8 is an error')
        return
    sx.check(want is not None, 'errors are raised if so')
    if name in ('path', 'script_root'):
        want = '/' + want
        if name == 'script_root':
            want = want.rstrip('/')
    elif name == 'full_path':
        want = '/' + want + '?'
    sx.check(got == want, 'decoded')


def h_storage(sx):
    """the classes used for the values of a request can be chosen"""
    multi = sx.choice('multi', [ImmutableMultiDict, MultiDict,
                                OrderedMultiDict,
                                ImmutableOrderedMultiDict, dict])
    single = sx.choice('single', [dict, ImmutableDict, TypeConversionDict])
    lists = sx.choice('lists', [list, tuple, ImmutableList])

    class Mine(Request):
        parameter_storage_class = multi
        dict_storage_class = single
        list_storage_class = lists
    v = sx.text('v', 1, 'xy')
    environ = base()
    if sx.bool('some'):
        environ['QUERY_STRING'] = 'b=' + v + '&a=1&b=z'
        environ['HTTP_COOKIE'] = 'b=1; a=' + v
        environ['REMOTE_ADDR'] = 'r'
        if sx.bool('forwarded'):
            environ['HTTP_X_FORWARDED_FOR'] = 'f, ' + v
    r = Mine(environ)
    sx.check(type(r.args) is multi, 'args')
    sx.check(type(r.cookies) is single, 'cookies')
    sx.check(type(r.access_route) is lists, 'addresses')
    if 'REMOTE_ADDR' not in environ:
        sx.check(len(r.args) == 0 and len(r.cookies) == 0 and
                 len(r.access_route) == 0, 'nothing')
        return
    if multi is dict:
        sx.check(r.args == {'b': 'z', 'a': '1'}, 'args')
    else:
        sx.check(r.args.getlist('b') == [v, 'z'] and
                 r.args.getlist('a') == ['1'] and len(r.args) == 2, 'args')
    if multi in (OrderedMultiDict, ImmutableOrderedMultiDict):
        sx.check(list(r.args.items(multi=True)) ==
                 [('b', v), ('a', '1'), ('b', 'z')], 'in order')
    sx.check(r.cookies['b'] == '1' and r.cookies['a'] == v and
             len(r.cookies) == 2, 'cookies')
    sx.check(list(r.access_route) ==
             (['f', v] if 'HTTP_X_FORWARDED_FOR' in environ else ['r']),
             'addresses')


class Failure(Exception):
    pass


def h_fails(sx):
    """requests are closed when the block using them fails as well, and the
    failure is not hidden"""
    log = []
    r = Request(base())
    n = sx.choice('n', [0, 1, 3])
    for i in range(n):
        r.call_on_close(lambda i=i: log.append(i))
    error = sx.choice('error', [None, Failure, KeyError])
    try:
        with r as s:
            sx.check(s is r, 'the request')
            if error is not None:
                raise error('x')
    except (Failure, KeyError) as e:
        sx.check(type(e) is error, 'the failure')
        sx.reach('failed')
    else:
        sx.check(error is None, 'failures are not hidden')
    sx.check(log == list(range(n)), 'closed once, in order')


def h_history(sx):
    """requests on one environment that is changed between them, or of
    another class"""
    class Ordered(Request):
        parameter_storage_class = OrderedMultiDict
        dict_storage_class = dict
        list_storage_class = list

    env = base(QUERY_STRING='a=1&b=2', HTTP_COOKIE='c=1', PATH_INFO='/p',
               HTTP_X_A='1', CONTENT_TYPE='text/html; charset=x',
               HTTP_HOST='h.com', HTTP_X_FORWARDED_FOR='1.2.3.4',
               HTTP_CACHE_CONTROL='no-cache', HTTP_IF_NONE_MATCH='"a"')
    first = Request(env)
    names = ['args', 'cookies', 'path', 'mimetype_params', 'host', 'url',
             'access_route', 'cache_control', 'if_none_match', 'full_path',
             'mimetype', 'query_string', 'base_url']
    name = sx.choice('name', names)
    before = getattr(first, name)
    change = sx.choice('change', [
        {}, {'QUERY_STRING': 'a=2'}, {'HTTP_COOKIE': 'c=2; d=3'},
        {'PATH_INFO': '/q'}, {'CONTENT_TYPE': 'a/b; x=y'},
        {'HTTP_HOST': 'i.com'}, {'HTTP_X_FORWARDED_FOR': '5.6.7.8'},
        {'HTTP_CACHE_CONTROL': 'max-age=1'}, {'HTTP_IF_NONE_MATCH': '"b"'}])
    env.update(change)
    cls = sx.choice('cls', [Request, Ordered])
    fresh = base(QUERY_STRING='a=1&b=2', HTTP_COOKIE='c=1', PATH_INFO='/p',
                 HTTP_X_A='1', CONTENT_TYPE='text/html; charset=x',
                 HTTP_HOST='h.com', HTTP_X_FORWARDED_FOR='1.2.3.4',
                 HTTP_CACHE_CONTROL='no-cache', HTTP_IF_NONE_MATCH='"a"')
    fresh.update(change)
    got = getattr(cls(env), name)
    want = getattr(cls(fresh), name)
    sx.check(type(got) is type(want), 'of the type of the class')
    if name == 'if_none_match':
        got, want = got.to_header(), want.to_header()
    sx.check(got == want, 'what the environment says now')


def h_threads(sx):
    """two threads at once, the second at any line of the first: requests read"""
    def read(path, query, kind):
        r = kind({'PATH_INFO': path, 'QUERY_STRING': query,
                  'REQUEST_METHOD': 'POST', 'SERVER_NAME': 'h',
                  'SERVER_PORT': '80', 'wsgi.url_scheme': 'http',
                  'HTTP_HOST': path[1:] + '.com', 'HTTP_ACCEPT': 'a/b',
                  'CONTENT_TYPE': 'application/x-www-form-urlencoded',
                  'CONTENT_LENGTH': str(len(query)),
                  'wsgi.input': BytesIO(query.encode('ascii'))})
        return (r.path, list(r.args.items(multi=True)), r.url,
                r.get_data(), r.mimetype,
                list(r.headers)[0])
    todo = [lambda: read('/a', 'b=c', Request),
            lambda: read('/d', 'e=f&g=h', Request),
            lambda: read('/i', '', Request)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')


def h_broken(sx):
    """attributes that cannot be had: asked for again, they fail again or are
    right; others are not touched"""
    have = sx.choice('have', range(3))

    class Slow(Request):
        n = 0

        @cached_property
        def lazy(self):
            self.n += 1
            if self.n <= fails:
                raise KeyError('lazy')
            return self.path + str(self.n)
    fails = sx.choice('fails', [0, 1, 2])
    r = Slow({'PATH_INFO': '/p', 'REQUEST_METHOD': 'POST',
              'HTTP_HOST': 'evil', 'wsgi.url_scheme': 'http',
              'wsgi.input': BytesIO(b'xy'[:have]), 'CONTENT_LENGTH': '4'})
    r.trusted_hosts = ['good']
    for i in range(3):
        what = sx.choice('what%d' % i, ['data', 'lazy', 'host', 'url',
                                        'path'])
        try:
            if what == 'data':
                r.get_data(cache=sx.bool('cache%d' % i))
                sx.fail('a body that is cut off is no body')
            elif what == 'lazy':
                n = r.n
                got = r.lazy
                sx.check(got == '/p%d' % (fails + 1), 'computed once')
            elif what == 'path':
                sx.check(r.path == '/p', 'others')
            else:
                getattr(r, what)
                sx.fail('a host that is not trusted is no host')
        except ClientDisconnected:
            sx.check(what == 'data', 'no other errors')
        except KeyError:
            sx.check(what == 'lazy' and n < fails, 'no other errors')
        except SecurityError:
            sx.check(what in ('host', 'url'), 'no other errors')
