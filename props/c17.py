"""Responses as WSGI applications: status, headers and body agree.

The server is the harness: it calls the response, iterates over the body,
possibly only in part, and closes it.
Outside the bounds: longer bodies, more than 3 parts, other charsets than
utf-8 and latin-1, responses in direct passthrough mode except for wrapped
files.
"""
from verktyg.http import Headers
from verktyg.responses import Response, BaseResponse, ETagResponseMixin
from verktyg.utils import get_content_type
from verktyg.wsgi import FileWrapper

ENTITY = ['allow', 'content-encoding', 'content-language', 'content-length',
          'content-md5', 'content-range', 'content-type', 'last-modified']
CHARS = ['a', '\n', '\x7f', '\xfc', '\u20ac', '\U0001f600']


def environ(method='GET', **kw):
    env = {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http',
           'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
           'HTTP_HOST': 'example.com', 'SCRIPT_NAME': '/app',
           'PATH_INFO': '/x/y'}
    env.update(kw)
    return env


def serve(sx, r, env):
    """the part of the server: (status, headers, body)"""
    calls = []

    def start_response(status, headers):
        calls.append((status, headers))
        return None
    it = r(env, start_response)
    body = []
    for item in it:
        sx.check(len(calls) == 1, 'started before the body')
        sx.check(isinstance(item, bytes), 'the body is made of bytes')
        body.append(item)
    if hasattr(it, 'close'):
        it.close()
    sx.check(len(calls) == 1, 'started exactly once')
    status, headers = calls[0]
    sx.check(isinstance(headers, list), 'headers are a list')
    for pair in headers:
        sx.check(isinstance(pair, tuple) and len(pair) == 2 and
                 isinstance(pair[0], str) and isinstance(pair[1], str),
                 'headers are pairs of text')
        for c in pair[1]:
            sx.check(c not in '\r\n' and ord(c) < 256,
                     'headers fit on one line in latin-1')
    return status, Headers(headers), b''.join(body)


def empty(method, status):
    return method == 'HEAD' or 100 <= status < 200 or status in (204, 304)


class Parts(object):
    """an iterable that has to be closed"""

    def __init__(self, parts):
        self.parts = parts
        self.closed = 0

    def __iter__(self):
        return iter(self.parts)

    def close(self):
        self.closed += 1


def parts_of(sx, most):
    rv = []
    for i in range(sx.choice('n', range(3))):
        if sx.bool('text%d' % i):
            rv.append(sx.text('t%d' % i, most, CHARS))
        else:
            rv.append(sx.data('b%d' % i, most, b'a\x00\xff'))
    return rv


def h_whole(sx):
    """bodies given as one string, bytes or bytearray, at once or later"""
    kind = sx.choice('kind', ['text', 'bytes', 'array'])
    body = sx.text('t', 2, CHARS) if kind == 'text' else \
        sx.choice('b', [b'', b'a', b'a\x00\xff'])
    whole = body.encode('utf-8') if kind == 'text' else body
    given = bytearray(body) if kind == 'array' else body
    if kind == 'array' or sx.bool('at once'):
        r = Response(given)
        sx.check(r.is_sequence, 'a sequence')
    else:
        r = Response()
        r.set_data(given)
        sx.check(r.headers['content-length'] == str(len(whole)), 'length')
    sx.check(bytes(r.get_data()) == whole, 'the data')
    st, headers, sent = serve(sx, r, environ('GET'))
    sx.check(bytes(sent) == whole, 'the body')
    sx.check(headers.get('content-length') == str(len(whole)), 'length')


def h_body(sx):
    """up to 2 parts of text or bytes of up to 1 (thorough 2) characters as
    list, tuple, iterator or closable; statuses at the boundaries; any
    method"""
    parts = parts_of(sx, sx.t(1, 2))
    whole = b''.join([p.encode('utf-8') if isinstance(p, str) else p
                      for p in parts])
    form = sx.choice('form', ['list', 'tuple', 'iter', 'object'])
    src = Parts(parts)
    r = Response({'list': list, 'tuple': tuple, 'iter': iter,
                  'object': lambda p: src}[form](parts))
    status = sx.choice('status', [200, 100, 199, 204, 205, 304, 404])
    r.status_code = status
    r.headers['Content-MD5'] = 'x'
    r.headers['Allow'] = 'GET'
    method = sx.choice('method', ['GET', 'HEAD'])
    closed = []
    r.call_on_close(lambda: closed.append(1))
    how = sx.choice('how', ['plain', 'sequence', 'data', 'freeze'])
    before = list(r.headers)
    if how == 'sequence':
        r.make_sequence()
    elif how == 'data':
        sx.check(r.get_data() == whole, 'the data is the whole body')
    elif how == 'freeze':
        r.freeze()
        before = list(r.headers)
        sx.check(r.headers['Content-Length'] == str(len(whole)),
                 'freezing sets the length')
    st, headers, body = serve(sx, r, environ(method))
    sx.check(int(st.split(' ')[0]) == status, 'the status is sent')
    sx.check(body == (b'' if empty(method, status) else whole),
             'the body is sent where there may be one')
    length = headers.get('content-length')
    if 100 <= status < 200 or status == 204:
        sx.check(length == '0', 'no content, no length')
    elif status == 304:
        for k in headers.keys():
            sx.check(k.lower() not in ENTITY, 'no entity headers in a 304')
    else:
        if length is not None:
            sx.check(length == str(len(whole)),
                     'the length is that of the body')
        if how != 'plain' or form in ('list', 'tuple'):
            sx.check(length is not None, 'the length is sent if it is known')
        sx.check(headers['content-md5'] == 'x' and headers['allow'] == 'GET',
                 'other headers are sent as they are')
    sx.check(list(r.headers) == before, 'serving does not change the headers')
    sx.check(closed == [1], 'close callbacks run once')
    if form == 'object':
        sx.check(src.closed >= 1, 'the iterable is closed')


def h_passthrough(sx):
    """wrapped files of 2 bytes in direct passthrough mode; any status and
    method"""
    data = sx.bytes('data', 2)
    src = Source(data)
    status = sx.int('status', 100, 599)
    method = sx.choice('method', ['GET', 'HEAD', 'POST'])
    wrapper = FileWrapper(src, sx.choice('size', [1, 2, 5]))
    r = Response(wrapper, status=status, direct_passthrough=True)
    it, line, headers = r.get_wsgi_response({'REQUEST_METHOD': method})
    empty = method == 'HEAD' or status < 200 or status in (204, 304)
    if not empty:
        sx.check(it is wrapper, 'passed on as it is')
    got = b''
    for part in it:
        got += part
    sx.check(got == (b'' if empty else data), 'sent where there may be one')
    if hasattr(it, 'close'):
        it.close()
    sx.check(src.closed == 1, 'the file is closed')


class Source(object):
    def __init__(self, data):
        self.data = data
        self.closed = 0

    def read(self, size):
        rv, self.data = self.data[:size], self.data[size:]
        return rv

    def close(self):
        self.closed += 1


def h_partial(sx):
    """the client goes away after 0..3 of 3 parts; the response is closed by
    the server, by a with statement or both"""
    src = Parts(['a', b'b', 'c'])
    stop = sx.choice('stop', range(4))
    r = Response(src)
    log = []
    r.call_on_close(lambda: log.append('first'))

    @r.call_on_close
    def second():
        log.append('second')
    got = []

    def run():
        it = r(environ(sx.choice('method', ['GET', 'HEAD'])),
               lambda s, h: None)
        for i, item in enumerate(it):
            if i == stop:
                break
            got.append(item)
        sx.check(log == [] and src.closed == 0, 'not closed too early')
        return it
    how = sx.choice('how', ['server', 'with', 'both'])
    if how == 'server':
        run().close()
    elif how == 'with':
        with r:
            run()
    else:
        with r:
            run().close()
    sx.check(src.closed >= 1, 'the iterable is closed')
    sx.check(log == ['first', 'second'], 'callbacks run once, in order')


def h_data(sx):
    """text or bytes of up to 3 characters, set at first and replaced by
    others; utf-8 and latin-1"""
    charset = sx.choice('charset', ['utf-8', 'latin-1'])

    class R(Response):
        pass
    R.charset = charset
    r = R('first' if sx.bool('first') else b'f')
    value = None
    if sx.bool('bytes'):
        value = want = sx.data('data', 3, b'a\x00\xff')
    else:
        value = sx.text('text', 3, CHARS if charset == 'utf-8' else CHARS[:4])
        want = value.encode(charset)
        sx.check(R(value).get_data(as_text=True) == value,
                 'text survives the round trip')
    if sx.bool('set'):
        r.set_data(value)
    else:
        r = R(value)
    sx.check(r.get_data() == want, 'the data is what was set')
    sx.check(r.content_length == len(want), 'the length is that of the data')
    st, headers, body = serve(sx, r, environ())
    sx.check(body == want and headers['content-length'] == str(len(want)),
             'it is sent')
    sx.check(headers['content-type'] == 'text/plain; charset=' + charset,
             'with its charset')


def h_stream(sx):
    """up to 2 writes of text or bytes of up to 2 characters after a body
    of up to 1"""
    first = sx.text('first', 1, CHARS)
    form = sx.choice('form', ['text', 'tuple', 'iter'])
    r = Response({'text': lambda x: x, 'tuple': lambda x: (x,),
                  'iter': lambda x: iter([x])}[form](first))
    parts = parts_of(sx, 2)
    if sx.bool('lines'):
        r.stream.writelines(parts)
    else:
        for p in parts:
            r.stream.write(p)
    whole = first.encode('utf-8') + b''.join(
        [p.encode('utf-8') if isinstance(p, str) else p for p in parts])
    if sx.bool('calculate'):
        sx.check(r.calculate_content_length() == len(whole),
                 'the length can be calculated')
    st, headers, body = serve(sx, r, environ())
    sx.check(body == whole, 'everything written is sent')
    length = headers.get('content-length')
    sx.check(length is None or length == str(len(whole)),
             'the length is that of the body')
    r.stream.close()
    try:
        r.stream.write(b'x')
    except ValueError:
        sx.reach('closed streams refuse writes')
    else:
        sx.fail('closed streams refuse writes')


def h_code(sx):
    """any code of 100..999, on construction or assigned"""
    code = sx.int('code', 100, 999)
    if sx.bool('set'):
        r = Response('x')
        r.status_code = code
    else:
        r = Response('x', status=code)
    sx.check(r.status_code == code, 'the code is kept')
    d = r.status[:3]
    sx.check((ord(d[0]) * 100 + ord(d[1]) * 10 + ord(d[2]) - 48 * 111 ==
              code) and r.status[3] == ' ' and len(r.status) > 4,
             'the status line starts with the code')


def h_line(sx):
    """status lines of a code and a reason of up to 3 characters"""
    reason = sx.text('reason', 3, [chr(i) for i in range(33, 127)], 1)
    d = sx.str('digits', 2, '0123456789')
    line = '4' + d + ' ' + reason
    if sx.bool('set'):
        r = Response('x')
        r.status = line
    else:
        r = Response('x', status=line)
    sx.check(r.status == line, 'the status line is kept')
    sx.check(r.status_code == 400 + (ord(d[0]) - 48) * 10 + ord(d[1]) - 48,
             'the code is read from it')
    sx.check(serve(sx, r, environ())[0] == line, 'it is sent')


LOC = ['a', '/', '.', '%', '\xfc', '\u20ac', ' ', '?', '#', '"', '<', '\\',
       '+', '&', '=']
URI = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
          "-._~:/?#[]@!$&'()*+,;=%")


def uri_chars(sx, loc):
    for c in loc:
        sx.check(c in URI, 'locations are made of the characters of a URI')


def h_location(sx):
    """locations: absolute paths and relative ones of up to 4 (thorough 5)
    characters, other sites; with and without correction"""
    kind = sx.choice('kind', ['root', 'relative', 'site'])
    t = sx.text('t', sx.t(3, 4), LOC)
    sx.assume('..' not in t and './' not in t and t[-1:] != '.')
    r = Response('x', status=302)
    r.autocorrect_location_header = auto = sx.bool('auto')
    if kind == 'root':
        sx.assume(t[:1] != '/')
        given = '/' + t
    elif kind == 'relative':
        sx.assume(t[:1] not in ('/', '?', '#', ' ', ''))
        given = t
    else:
        given = 'https://other.org/' + t
    r.headers['Location'] = given.encode('utf-8').decode('utf-8')
    st, headers, body = serve(sx, r, environ())
    loc = headers['location']
    uri_chars(sx, loc)
    if kind == 'site':
        sx.check(loc.startswith('https://other.org/'),
                 'locations on other sites are kept')
    elif kind == 'root' and auto:
        sx.check(loc.startswith('http://example.com/'),
                 'paths stay on the site')
    elif auto:
        sx.check(loc.startswith('http://example.com/app/'),
                 'relative locations are below the root')
        if t.isalpha() and t.isascii():
            sx.check(loc == 'http://example.com/app/' + t, 'exactly there')
    elif kind == 'root':
        sx.check(loc[:1] == '/' and loc[:2] != '//', 'paths stay paths')


def h_content_location(sx):
    """content locations of up to 3 characters after a slash and a letter"""
    t = sx.text('t', 3, LOC)
    r = Response('x')
    r.content_location = '/a' + t
    st, headers, body = serve(sx, r, environ())
    loc = headers['content-location']
    uri_chars(sx, loc)
    sx.check(loc[:2] == '/a', 'the content location is kept')


def h_mimetype(sx):
    """the charset is added to text types only; types of up to 2 characters
    after a prefix"""
    prefix = sx.choice('prefix', ['text/', 'application/', 'image/', ''])
    suffix = sx.choice('suffix', ['', '+xml', 'xml', 'json'])
    t = prefix + sx.text('t', 2, sx.TOKEN) + suffix
    textual = t[:5] == 'text/' or t == 'application/xml' or (
        t[:12] == 'application/' and t[-4:] == '+xml')
    want = t + '; charset=utf-8' if textual else t
    sx.assume(t != '')
    sx.check(get_content_type(t, 'utf-8') == want, 'content type')
    sx.check(Response('x', mimetype=t).headers['content-type'] == want,
             'on construction')
    sx.check(Response('x', content_type=t).headers['content-type'] == t,
             'content types are kept as they are')
    r = Response('x')
    r.mimetype = t
    sx.check(r.headers['content-type'] == want and r.mimetype == t,
             'on assignment')
    sx.check(r.mimetype_params == (
        {'charset': 'utf-8'} if textual else {}), 'parameters')
    sx.check(len(r.headers.getlist('content-type')) == 1, 'only once')


def h_freeze_conditional(sx):
    """make_conditional and freeze leave a length that fits the body; parts
    of up to 2 characters"""
    parts = parts_of(sx, 2)
    whole = b''.join([p.encode('utf-8') if isinstance(p, str) else p
                      for p in parts])
    r = Response(iter(parts) if sx.bool('iter') else parts)
    env = environ()
    r.make_conditional(env)
    st, headers, body = serve(sx, r, env)
    sx.check(body == whole and headers['content-length'] == str(len(whole)),
             'the length is that of the body')


def h_force_type(sx):
    """any other application's output of up to 2 parts is taken over"""
    parts = [sx.data('p%d' % i, 2, b'a\xff')
             for i in range(sx.choice('n', range(3)))]
    code = sx.choice('code', [200, 404])
    write_first = sx.bool('write')

    def app(env, start_response):
        write = start_response('%d X' % code, [('Content-Type', 'text/x'),
                                               ('X-A', 'b')])
        if write_first:
            write(b'w')
            return [b''] + parts
        return iter(parts)
    env = environ()
    if sx.bool('from_app'):
        r = Response.from_app(app, env, buffered=sx.bool('buffered'))
    else:
        r = Response.force_type(app, env)
    written = b'w' if write_first else b''
    st, headers, body = serve(sx, r, env)
    sx.check(st == '%d X' % code, 'the status is kept')
    sx.check(headers['x-a'] == 'b' and headers['content-type'] == 'text/x',
             'the headers are kept')
    sx.check(body == written + b''.join(parts), 'the body is kept')


def h_stream_attrs(sx):
    """the stream of a response; what is streamed"""
    enc = sx.choice('enc', ['utf-8', 'latin1'])

    class R(Response):
        charset = enc
    r = R(sx.choice('start', [None, 'a', ['a', 'b']]))
    n = len(r.get_data())
    sx.check(r.stream.encoding == enc, 'the charset')
    sx.check(r.stream.isatty() is False, 'no terminal')
    text = sx.text('text', 2, ['a', '\xe4', '\n'])
    r.stream.write(text)
    r.stream.flush()
    r.stream.writelines(['x', text])
    sx.check(r.get_data()[n:] == (text + 'x' + text).encode(enc), 'written')
    r.stream.close()
    sx.check(r.stream.closed, 'closed')
    try:
        r.stream.write('x')
        sx.fail('nothing can be written when closed')
    except ValueError:
        pass
    sx.check(Response('x').is_streamed is False, 'a list')
    sx.check(Response(iter(['x'])).is_streamed is True, 'an iterator')
    sx.check(Response(['x', 'y']).is_sequence is True and
             Response(iter(['x'])).is_sequence is False, 'a sequence')


def h_freeze(sx):
    """frozen responses have their length and tag, and all of their body"""
    parts = parts_of(sx, 1)
    whole = b''.join([p.encode('utf-8') if isinstance(p, str) else p
                      for p in parts])

    class Tagged(ETagResponseMixin, BaseResponse):
        pass
    cls = sx.choice('cls', [Response, BaseResponse, Tagged])
    r = cls(iter(parts) if sx.bool('iter') else parts)
    if cls is Tagged and sx.bool('no tag'):
        r.freeze(no_etag=True)
        sx.check('etag' not in r.headers, 'no tag')
    else:
        r.freeze()
        sx.check(('etag' in r.headers) == (cls is Tagged), 'a tag')
    sx.check(r.is_sequence, 'a sequence')
    sx.check(r.headers['content-length'] == str(len(whole)), 'the length')
    for _ in range(2):
        sx.check(b''.join(r.response) == whole, 'the body')


def h_history(sx):
    """one response sent to any 3 of 6 requests, changed or not in between"""
    r = Response('body')
    r.headers['Location'] = '/x'
    location, body, status = '/x', b'body', 200
    for i in range(3):
        scheme, host, method = sx.choice('request%d' % i, [
            ('http', 'a', 'GET'), ('http', 'a', 'HEAD'), ('http', 'b', 'GET'),
            ('https', 'a', 'GET'), ('http', 'a:8', 'GET'),
            ('http', 'a', 'POST')])
        env = environ(method)
        env['HTTP_HOST'] = host
        env['wsgi.url_scheme'] = scheme
        st, headers, sent = serve(sx, r, env)
        sx.check(headers['Location'] == scheme + '://' + host + location,
                 'relative to this request')
        sx.check(st[:3] == str(status), 'the status')
        if method == 'HEAD':
            sx.check(sent == b'', 'no body')
        else:
            sx.check(sent == body, 'the body')
        sx.check(headers['content-length'] == str(len(body)), 'its length')
        headers['X'] = 'y'
        sx.check('x' not in r.headers, 'the headers sent are a copy')
        change = sx.choice('change%d' % i, ['no', 'body', 'status', 'header'])
        if change == 'body':
            body = b'other%d' % i
            r.set_data(body)
        elif change == 'status':
            status = 201 + i
            r.status_code = status
        elif change == 'header':
            location = '/y%d' % i
            r.headers['Location'] = location


def h_threads(sx):
    """two threads at once, the second at any line of the first: responses sent"""
    def send(text, method, **kw):
        r = Response(text, **kw)
        r.headers['Location'] = '/' + text
        env = environ(method)
        env['HTTP_HOST'] = text + '.com'
        got = []
        it = r(env, lambda status, headers, exc_info=None:
               got.append((status, list(headers))))
        got.append(b''.join(it))
        it.close()
        return got
    todo = [lambda: send('a', 'GET'), lambda: send('bc', 'HEAD', status=404),
            lambda: send('d', 'GET', content_type='t/x')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')


def h_failing(sx):
    """bodies that fail with any of 4 errors before, after or instead of
    their parts: the error is passed on, and what was to be closed is"""
    kind = sx.choice('kind', [ValueError, KeyError, IOError, GeneratorExit])
    at = sx.choice('at', [0, 1, 2])
    stops = sx.choice('stops', [None, 1, 2])
    log = []

    class Parts(object):
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i == at:
                raise kind('part')
            self.i += 1
            return b'x'

        def close(self):
            log.append('body')
    r = Response(Parts())
    r.call_on_close(lambda: log.append('callback'))
    r.call_on_close(lambda: log.append('last'))
    started = []
    it = r(environ(), lambda status, headers: started.append(status))
    got = []
    error = None
    try:
        for part in it:
            got.append(part)
            if len(got) == stops:
                break
    except BaseException as e:
        if type(e) is not kind:
            raise
        error = e
    if stops is not None and stops <= at:
        sx.check(error is None and got == [b'x'] * stops, 'the first parts')
    else:
        sx.check(error is not None and got == [b'x'] * at, 'the error')
    sx.check(log == [], 'not closed yet')
    it.close()
    sx.check(log == ['body', 'callback', 'last'], 'closed once, in order')
    sx.check(started == ['200 OK'], 'started once')


def h_given_length(sx):
    """a length set by the application, any of 1 or 2 digits or one of 11:
    kept for HEAD requests and streams, whatever the body is made of"""
    n = sx.choice('n', [0, 12345678901, None])
    if n is None:
        n = sx.int('small', 0, sx.t(20, 99))
    form = sx.choice('form', ['list', 'tuple', 'iter', 'none'])
    r = Response({'list': [b''], 'tuple': (b'',), 'iter': iter([b'']),
                  'none': None}[form])
    how = sx.choice('how', ['header', 'property', 'argument'])
    if how == 'argument':
        r = Response(r.response, headers=[('Content-Length', str(n))])
    elif how == 'header':
        r.headers['Content-Length'] = str(n)
    else:
        r.content_length = n
    status = sx.choice('status', [200, 204, 205, 304, 404])
    r.status_code = status
    st, headers, body = serve(sx, r, environ('HEAD'))
    sx.check(body == b'', 'nothing is sent')
    if status == 204:
        sx.check(headers.get('content-length') == '0', 'no content')
    elif status == 304:
        sx.check('content-length' not in headers, 'not modified')
    else:
        sx.check(headers.get('content-length') == str(n),
                 'the length that was set is sent')
        sx.check(len(headers.getlist('content-length')) == 1, 'once')


class OneResponse(BaseResponse):
    default_status = 201


class OtherResponse(BaseResponse):
    charset = 'latin-1'

    def shout(self):
        return self.get_data().upper()


def h_force_kinds(sx):
    """responses of 4 classes made one of 3 others, with or without an
    environ of any method"""
    data = sx.data('data', 2, b'a\xff')
    kind = sx.choice('kind', [BaseResponse, Response, OneResponse,
                              OtherResponse])
    cls = sx.choice('cls', [Response, OneResponse, OtherResponse])
    r = kind([data], headers=[('X-A', 'b')], status='299 Odd')
    closed = []
    r.call_on_close(lambda: closed.append(1))
    method = sx.choice('method', ['GET', 'HEAD'])
    if sx.bool('environ'):
        out = cls.force_type(r, environ(method))
    else:
        out = cls.force_type(r)
    sx.check(isinstance(out, cls), 'the class asked for')
    sx.check(closed == [], 'the response is not over')
    sx.check(out.headers['X-A'] == 'b' and out.status == '299 Odd' and
             out.status_code == 299, 'the same status and headers')
    sx.check(out.get_data() == data, 'the same body')
    if cls is OtherResponse:
        sx.check(out.shout() == data.upper(), 'methods of the class')
    st, headers, body = serve(sx, out, environ())
    sx.check(st == '299 Odd' and body == data, 'it is sent')
    sx.check(closed == [1], 'callbacks are kept')
