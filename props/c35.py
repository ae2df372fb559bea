"""The test client sends exactly the requests that were described.

The environments are read back by rules of the harness.
Outside the bounds: longer texts, names of form fields and files with quotes
or newlines, newlines and tabs in paths, repeated request headers, IPv6 hosts, fragments, relative
redirects, request bodies and script roots across redirects.
"""
import sys
from io import BytesIO
from verktyg.datastructures import MultiDict
from verktyg.http import FileStorage, Headers
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.test import (
    EnvironBuilder, create_environ, Client, ClientRedirectError,
    encode_multipart, stream_encode_multipart, FileMultiDict, run_wsgi_app,
)
from verktyg.wsgi import get_current_url

HEX = '0123456789ABCDEFabcdef'
PATH = ['a', '4', '/', '%', '+', ';', '&', ' ', '\xe4', '\u20ac', '\x7f']
NAME = ['a', 'b', '[', '&', '=', ';', '%', '+', ' ', '\xe4', '\u20ac']
VALUE = ['a', 'b', '&', '=', ';', '%', '+', '"', '-', '\r', '\n', '\xe4',
         '\u20ac', '\x00']
BYTES = b'a-"\r\n\x00\xe4\xff'


def unquote(text):
    """the bytes that a text in IRI form stands for"""
    rv = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == '%' and len(text) >= i + 3 and text[i + 1] in HEX and (
                text[i + 2] in HEX):
            rv.append(int(text[i + 1:i + 3], 16))
            i += 3
            continue
        for b in c.encode('utf-8'):
            rv.append(b)
        i += 1
    return rv


def same(sx, native, want, what):
    """a native string of WSGI holds these bytes"""
    sx.check(len(native) == len(want), what)
    for i in range(len(want)):
        sx.check(ord(native[i]) == want[i], what)


def form(text):
    """application/x-www-form-urlencoded to pairs of lists of bytes"""
    rv = []
    if not text:
        return rv
    for item in text.split('&'):
        i = item.find('=')
        k, v = (item, '') if i < 0 else (item[:i], item[i + 1:])
        rv.append((unquote(k.replace('+', ' ')), unquote(v.replace('+', ' '))))
    return rv


def same_pairs(sx, got, want, what):
    sx.check(len(got) == len(want), what)
    for (k, v), (k2, v2) in zip(got, want):
        k2 = list(k2.encode('utf-8'))
        v2 = list(v2.encode('utf-8'))
        sx.check(len(k) == len(k2) and len(v) == len(v2), what)
        for i in range(len(k)):
            sx.check(k[i] == k2[i], what)
        for i in range(len(v)):
            sx.check(v[i] == v2[i], what)


def pairs_of(sx, n, key='ab', value=VALUE, size=1):
    rv = []
    for i in range(sx.choice('n', range(n + 1))):
        rv.append((sx.choice('k%d' % i, key),
                   sx.text('v%d' % i, size, value)))
    return rv


def grouped(pairs):
    """the order in which a plain dict of lists has the pairs"""
    rv = []
    for k, _ in pairs:
        if k not in rv:
            rv.append(k)
    return [(k, [v for k2, v in pairs if k2 == k]) for k in rv]


def body(environ):
    data = environ['wsgi.input'].read()
    return data


def h_path(sx):
    """paths of up to 3 (thorough 4) characters after a slash"""
    path = '/' + sx.text('path', sx.t(3, 4), PATH)
    sx.assume(not path.startswith('//'))
    env = create_environ(path)
    same(sx, env['PATH_INFO'], unquote(path), 'the path described')
    sx.check(env['QUERY_STRING'] == '', 'no query')
    sx.check(env['SCRIPT_NAME'] == '', 'no root')
    sx.check(env['REQUEST_METHOD'] == 'GET', 'the default method')
    sx.check(env['HTTP_HOST'] == 'localhost' and
             env['SERVER_NAME'] == 'localhost' and
             env['SERVER_PORT'] == '80', 'the default host')
    sx.check(env['wsgi.url_scheme'] == 'http', 'the default scheme')
    sx.check(env['CONTENT_LENGTH'] == '0' and body(env) == b'', 'no body')


def h_query_string(sx):
    """queries of up to 3 characters, in the path or as an argument"""
    qs = sx.text('qs', 3, ['a', '?', '=', '&', '%', '+', '/', '\xe4'])
    if sx.bool('in path'):
        env = create_environ('/x?' + qs)
        sx.check(env['PATH_INFO'] == '/x', 'the path')
    else:
        env = create_environ('/x?y', query_string=qs)
        sx.check(env['PATH_INFO'] == '/x?y', 'the path')
    same(sx, env['QUERY_STRING'], list(qs.encode('utf-8')), 'the query')


def h_args(sx):
    """query arguments of up to 2 pairs, in every kind of container"""
    kind = sx.choice('kind', ['dict', 'lists', 'multi', 'list', 'args'])
    pairs = pairs_of(sx, 2, ['a', '\xe4 &'], size=sx.t(1, 2))
    if kind == 'dict':
        sx.assume(len(pairs) < 2 or pairs[0][0] != pairs[1][0])
        env = create_environ('/', query_string=dict(pairs))
    elif kind == 'lists':
        env = create_environ('/', query_string=dict(grouped(pairs)))
    elif kind == 'multi':
        env = create_environ('/', query_string=MultiDict(pairs))
    elif kind == 'list':
        env = create_environ('/', query_string=pairs)
    else:
        b = EnvironBuilder('/')
        for k, v in pairs:
            b.args.add(k, v)
        env = b.get_environ()
    same_pairs(sx, form(env['QUERY_STRING']),
               [(k, v) for k, vs in grouped(pairs) for v in vs],
               'the arguments described')


def h_arg_name(sx):
    """names of arguments and of form fields of up to 2 characters"""
    name = sx.text('name', 2, NAME)
    if sx.bool('form'):
        env = create_environ('/', method='POST', data={name: 'v'})
        text = body(env).decode('ascii')
    else:
        text = create_environ('/', query_string={name: 'v'})['QUERY_STRING']
    same_pairs(sx, form(text), [(name, 'v')], 'the name')


def h_form(sx):
    """urlencoded forms of up to 2 pairs"""
    kind = sx.choice('kind', ['lists', 'multi', 'form', 'typed'])
    pairs = pairs_of(sx, 2, ['a', '\xe4 &'], size=sx.t(1, 2))
    if kind == 'lists':
        b = EnvironBuilder(method='POST', data=dict(grouped(pairs)))
    elif kind == 'multi':
        b = EnvironBuilder(method='POST', data=MultiDict(pairs))
    elif kind == 'form':
        b = EnvironBuilder(method='POST')
        for k, v in pairs:
            b.form.add(k, v)
    else:
        b = EnvironBuilder(
            method='POST', data=MultiDict(pairs),
            content_type='application/x-www-form-urlencoded')
    env = b.get_environ()
    data = body(env)
    if pairs or kind == 'typed':
        sx.check(env['CONTENT_TYPE'] == 'application/x-www-form-urlencoded',
                 'the type of a form')
    else:
        sx.check(env['CONTENT_TYPE'] == '', 'no form, no type')
    sx.check(env['CONTENT_LENGTH'] == str(len(data)), 'the length')
    same_pairs(sx, form(data.decode('ascii')),
               [(k, v) for k, vs in grouped(pairs) for v in vs],
               'the form described')
    sx.check(env['REQUEST_METHOD'] == 'POST', 'the method')


def multipart(sx, ctype, data):
    """list of (headers, body)"""
    start = 'multipart/form-data; boundary="'
    sx.check(ctype.startswith(start) and ctype.endswith('"'), 'the type')
    return parts(sx, ctype[len(start):-1], data)


def parts(sx, boundary, data):
    boundary = boundary.encode('ascii')
    sx.check(data.startswith(b'--' + boundary + b'\r\n'), 'first delimiter')
    end = b'\r\n--' + boundary + b'--\r\n'
    sx.check(data.endswith(end), 'last delimiter')
    data = data[len(boundary) + 4:-len(end)]
    rv = []
    for part in data.split(b'\r\n--' + boundary + b'\r\n'):
        i = part.find(b'\r\n\r\n')
        sx.check(i >= 0, 'every part has headers')
        rv.append((part[:i].split(b'\r\n'), part[i + 4:]))
    return rv


def field(sx, part, name, value, filename=None, ctype=None):
    head, data = part
    want = 'Content-Disposition: form-data; name="%s"' % name
    if filename is not None:
        want += '; filename="%s"' % filename
    sx.check(head[0] == want.encode('utf-8'), 'name of the part')
    if ctype is None:
        sx.check(len(head) == 1, 'a field has no type')
    else:
        sx.check(len(head) == 2 and
                 head[1] == b'Content-Type: ' + ctype.encode('ascii'),
                 'type of the part')
    sx.check(data == value, 'content of the part')


def h_multipart(sx):
    """a form of up to 2 fields and files with contents of up to 2 (thorough
    3) bytes"""
    n = sx.t(2, 3)
    pairs = [('a', sx.text('a', n, VALUE))]
    if sx.bool('second'):
        pairs.append(('a', 'c'))
    content = sx.data('content', n, BYTES)
    how = sx.choice('how', ['tuple', 'storage', 'add', 'type', 'two'])
    data = dict(grouped(pairs))
    name, ctype = 'x.txt', 'text/plain'
    if how == 'tuple':
        name, ctype = 'x.foo\xe4', 'application/octet-stream'
        data['f'] = (BytesIO(content), name)
    elif how == 'storage':
        ctype = 'image/gif'
        data['f'] = FileStorage(BytesIO(content), name, content_type=ctype)
    elif how == 'type':
        ctype = 'image/png'
        data['f'] = (BytesIO(content), name, ctype)
    elif how == 'two':
        data['f'] = [(BytesIO(content), name), (BytesIO(b'\r\n--'), 'y.txt')]
    b = EnvironBuilder(method='POST', data=data)
    if how == 'add':
        b.files.add_file('f', BytesIO(content), name)
    env = b.get_environ()
    data = body(env)
    sx.check(env['CONTENT_LENGTH'] == str(len(data)), 'the length')
    got = multipart(sx, env['CONTENT_TYPE'], data)
    want = len(pairs) + (2 if how == 'two' else 1)
    sx.check(len(got) == want, 'a part for each field and file')
    for i, (k, v) in enumerate(pairs):
        field(sx, got[i], k, v.encode('utf-8'))
    field(sx, got[len(pairs)], 'f', content, name, ctype)
    if how == 'two':
        field(sx, got[-1], 'f', b'\r\n--', 'y.txt', ctype)


def h_encode(sx):
    """any two values as text, bytes or numbers, in memory or on disk"""
    kind = sx.choice('kind', ['text', 'bytes', 'int', 'file'])
    if kind == 'text':
        v = sx.text('t', 2, VALUE)
        want = v.encode('utf-8')
    elif kind == 'bytes':
        v = want = sx.data('b', 2, BYTES)
    elif kind == 'int':
        v = sx.choice('i', [0, 12, -3])
        want = str(v).encode('ascii')
    else:
        want = sx.data('f', 2, BYTES)
        fname, ctype = sx.choice('fname', [
            ('n', 'a/b'), ('', 'a/b'), ('x y\xe4', 'a/b'),
            ('n.gif', None), ('', None), (None, None)])
        if fname is None:
            v = BytesIO(want)
        else:
            v = FileStorage(BytesIO(want), fname, content_type=ctype)
        if ctype is None:
            ctype = ('image/gif' if fname == 'n.gif' else
                     'application/octet-stream')
    name = sx.text('name', 1, ['a', '\xe4', '=', ';'], 1)
    boundary = 'xyz'
    if sx.bool('stream'):
        stream, length, boundary = stream_encode_multipart(
            [(name, v), ('z', 'last')], boundary=boundary)
        sx.check(stream.tell() == 0, 'the stream starts at its begin')
        data = stream.read()
        sx.check(length == len(data), 'the length of the stream')
    else:
        boundary, data = encode_multipart(
            MultiDict([(name, v), ('z', 'last')]), boundary)
    sx.check(boundary == 'xyz', 'the boundary given')
    got = parts(sx, boundary, data)
    sx.check(len(got) == 2, 'two parts')
    if kind == 'file':
        field(sx, got[0], name, want, fname, ctype)
    else:
        field(sx, got[0], name, want)
    field(sx, got[1], 'z', b'last')


def h_empty(sx):
    """fields without values, in queries and forms"""
    kind = sx.choice('kind', ['form', 'query', 'file', 'nothing'])
    pairs = []
    data = {}
    for k in 'abc':
        vs = sx.choice(k, [None, [], ['x'], ['', 'y'], 'z', ''])
        if vs is None:
            continue
        data[k] = vs
        for v in (vs if isinstance(vs, list) else [vs]):
            pairs.append((k, v))
    if kind == 'query':
        env = create_environ('/', query_string=data)
        same_pairs(sx, form(env['QUERY_STRING']), pairs, 'the arguments')
        return
    if kind == 'nothing':
        env = create_environ('/', method='POST', data=sx.choice(
            'data', [{}, '', b'', None, [], MultiDict()]))
        sx.check(body(env) == b'' and env['CONTENT_LENGTH'] == '0' and
                 env['CONTENT_TYPE'] == '', 'no body')
        return
    if kind == 'file':
        data['f'] = (BytesIO(b''), 'n.txt')
        env = create_environ('/', method='POST', data=data)
        got = multipart(sx, env['CONTENT_TYPE'], body(env))
        sx.check(len(got) == len(pairs) + 1, 'a part for each')
        for i, (k, v) in enumerate(pairs):
            field(sx, got[i], k, v.encode('utf-8'))
        field(sx, got[-1], 'f', b'', 'n.txt', 'text/plain')
        return
    env = create_environ('/', method='POST', data=data)
    same_pairs(sx, form(body(env).decode('ascii')), pairs, 'the form')


def h_disk(sx):
    """bodies which are moved to a file at any threshold"""
    v = b'some bytes'
    stream, length, boundary = stream_encode_multipart(
        {'a': v, 'b': 'second'}, boundary='xyz',
        threshold=sx.int('threshold', 0, 140))
    data = stream.read()
    stream.close()
    sx.check(length == len(data), 'the length of the stream')
    got = parts(sx, boundary, data)
    sx.check(len(got) == 2, 'two parts')
    field(sx, got[0], 'a', v)
    field(sx, got[1], 'b', b'second')


def h_data(sx):
    """bodies of up to 3 characters as text, bytes or streams"""
    kind = sx.choice('kind', ['text', 'bytes', 'stream'])
    ctype = sx.choice('type', [None, 'text/plain'])
    if kind == 'text':
        text = sx.text('t', 3, VALUE)
        want = text.encode('utf-8')
        env = create_environ('/', method='PUT', data=text,
                             content_type=ctype)
    elif kind == 'bytes':
        want = sx.data('b', 3, BYTES)
        length = sx.choice('length', [None, 0, 7])
        b = EnvironBuilder(data=want, content_length=length)
        sx.check(b.content_length == (
            length if length is not None or not want else len(want)),
            'the length given')
        env = create_environ('/', method='PUT', data=want,
                             content_type=ctype)
    else:
        want = sx.data('s', 3, BYTES)
        s = BytesIO(want)
        skip = sx.choice('skip', range(2))
        sx.assume(skip <= len(want))
        s.read(skip)
        want = want[skip:]
        env = create_environ('/', method='PUT', input_stream=s,
                             content_type=ctype)
    sx.check(env['CONTENT_LENGTH'] == str(len(want)), 'the length')
    sx.check(env['CONTENT_TYPE'] == (ctype or ''), 'the type')
    sx.check(env['REQUEST_METHOD'] == 'PUT', 'the method')
    sx.check(Request(env).get_data() == want, 'the body')


def h_base(sx):
    """base urls: scheme, host, port of up to 3 digits, root of up to 2
    characters"""
    scheme = sx.choice('scheme', ['http', 'https'])
    host = sx.choice('host', ['h', 'a.b'])
    port = sx.text('port', 3, '0189')
    sx.assume(not port.startswith('0'))
    if len(port) == 3:
        port += sx.choice('long', ['', '1', '00'])
    sx.assume(len(port) < 5 or port[0] == '1')
    root = sx.text('root', 2, ['a', '/', '\xe4', '%', ' ', '4'])
    slash = sx.choice('slash', ['', '/'])
    sx.assume(not root.startswith('/'))
    url = '%s://%s%s/%s%s' % (scheme, host, ':' + port if port else '', root,
                              slash)
    b = EnvironBuilder('/x', base_url=url)
    env = b.get_environ()
    sx.check(env['wsgi.url_scheme'] == scheme, 'scheme')
    sx.check(env['SERVER_NAME'] == host, 'name')
    sx.check(env['HTTP_HOST'] == (host + ':' + port if port else host),
             'host')
    want = port or ('443' if scheme == 'https' else '80')
    sx.check(int(env['SERVER_PORT']) == int(want), 'port')
    path = '/' + root
    while path.endswith('/'):
        path = path[:-1]
    same(sx, env['SCRIPT_NAME'], unquote(path), 'root')
    sx.check(env['PATH_INFO'] == '/x', 'path')


def h_headers(sx):
    """headers of up to 2 characters, and what is set besides them"""
    v = sx.text('v', 2, ['a', ' ', '\xe4', ',', '"'])
    name = sx.choice('name', ['X-Foo', 'accept', 'Content-Type'])
    kind = sx.choice('kind', ['list', 'dict', 'headers', 'argument'])
    kw = {}
    if kind == 'argument':
        sx.assume(name == 'Content-Type')
        kw['content_type'] = v
    elif kind == 'list':
        kw['headers'] = [(name, v)]
    elif kind == 'dict':
        kw['headers'] = {name: v}
    else:
        kw['headers'] = Headers([(name, v)])
    env = create_environ('/', **kw)
    if name == 'Content-Type':
        sx.check(env['CONTENT_TYPE'] == v, 'the type')
    else:
        sx.check(env['HTTP_' + name.upper().replace('-', '_')] == v,
                 'the header')
        sx.check(env['CONTENT_TYPE'] == '', 'no type')
    names = [k for k in env if k.startswith('HTTP_')]
    sx.check(len(names) == 2, 'the host and the header')


def h_overrides(sx):
    """environments before and after, and the flags"""
    mt, mp, ro = sx.bool('mt'), sx.bool('mp'), sx.bool('ro')
    base = {'x.base': 1, 'PATH_INFO': '/base', 'HTTP_A': 'base'}
    over = {'y.over': 2, 'HTTP_B': 'over'}
    err = object()
    env = create_environ('/p', multithread=mt, multiprocess=mp, run_once=ro,
                         environ_base=base, environ_overrides=over,
                         headers=[('A', 'a'), ('B', 'b')], errors_stream=err)
    sx.check(env['x.base'] == 1 and env['PATH_INFO'] == '/p' and
             env['HTTP_A'] == 'a', 'the request wins over the base')
    sx.check(env['y.over'] == 2 and env['HTTP_B'] == 'over',
             'overrides win')
    sx.check(bool(env['wsgi.multithread']) == mt and
             bool(env['wsgi.multiprocess']) == mp and
             bool(env['wsgi.run_once']) == ro, 'flags')
    sx.check(env['wsgi.errors'] is err, 'errors')
    sx.check(env['wsgi.version'] == (1, 0), 'version')
    sx.check(len(base) == 3 and len(over) == 2, 'nothing else changes')


class File(object):
    def __init__(self, name=None, data=b'x'):
        if name is not None:
            self.name = name
        self.stream = BytesIO(data)
        self.closed = 0

    def read(self, n=-1):
        return self.stream.read(n)

    def close(self):
        self.closed += 1


def h_close(sx):
    """closing closes every file once; forms and streams exclude each other"""
    files = [File() for _ in range(3)]
    b = EnvironBuilder(method='POST', data={
        'a': [(files[0], 'x'), (files[1], 'y')], 'b': (files[2], 'z')})
    if sx.bool('built'):
        b.get_environ()
    if sx.bool('stream'):
        b.input_stream = BytesIO(b'q')
        try:
            b.form
        except AttributeError:
            sx.reach('exclusive')
        else:
            sx.fail('an input stream has no form')
        sx.check(b.get_environ()['CONTENT_LENGTH'] == '1', 'the new stream')
        b.close()
        return
    b.close()
    b.close()
    for f in files:
        sx.check(f.closed == 1, 'files are closed once')


def h_storage(sx):
    """uploaded files: names of up to 3 characters, types and lengths"""
    kind = sx.choice('kind', ['given', 'stream', 'bytes', 'none'])
    name = sx.text('name', 3, ['a', '<', '>', '/', '\xe4'])
    if kind == 'given':
        f = FileStorage(File('other'), name)
        want = name
    elif kind == 'stream':
        f = FileStorage(File(name))
        want = name
        if name and name[0] == '<' and name[-1] == '>':
            want = None
    elif kind == 'bytes':
        f = FileStorage(File(name.encode('utf-8')))
        want = name
        if name and name[0] == '<' and name[-1] == '>':
            want = None
    else:
        f = FileStorage(File())
        want = None
    sx.check(f.filename == want, 'the name of the file')
    sx.check(bool(f) == bool(want), 'true with a name')
    f.close()
    sx.check(f.stream.closed == 1, 'closed')


def h_storage_type(sx):
    """types of uploaded files with parameters of up to 2 characters"""
    v = sx.text('v', 2, ['a', 'B', ' ', '"', ';'])
    n = sx.choice('n', [None, 0, 17])
    f = FileStorage(
        BytesIO(b''), 'n', content_type='Text/%s; X=a' % (v or 'h')
        if ';' not in v and '"' not in v and ' ' not in v else 'A/b; x=y',
        content_length=n)
    sx.check(f.mimetype == ('text/' + (v or 'h').lower()
                            if ';' not in v and '"' not in v and
                            ' ' not in v else 'a/b'), 'type in lower case')
    sx.check(f.mimetype_params.get('x', f.mimetype_params.get('X')) in
             ('a', 'y'), 'parameters')
    sx.check(f.content_length == (n or 0), 'length')
    sx.check(FileStorage(BytesIO(b'')).mimetype == '', 'no type')


SITES = ['http://localhost/b', 'http://localhost/c?x=1', 'http://s.localhost/b',
         'http://notlocalhost/b', 'https://localhost:8080/b', 'http://localhost/a',
         'http://evil.org/b']


def h_redirects(sx):
    """up to 3 redirects between 7 locations with any status, to pages which
    set cookies or fail"""
    table = {'/z': (200, None)}
    for path in ['/a', '/b', '/c']:
        code = sx.choice('code ' + path, [200, 302, 303, 307] + (
            [500] if path == '/c' else []))
        to = None
        if code not in (200, 500):
            to = sx.choice('to ' + path, SITES[:sx.t(5, 7)])
        table[path] = (code, to)
    subdomains = sx.bool('subdomains')
    method = sx.choice('method', ['GET', 'POST', 'HEAD'])
    follow = sx.bool('follow')
    log = []

    def app(environ, start_response):
        path = environ['PATH_INFO']
        log.append((environ['wsgi.url_scheme'], environ['HTTP_HOST'], path,
                    environ['QUERY_STRING'], environ['REQUEST_METHOD']))
        code, to = table[path]
        if code == 500:
            raise KeyError(path)
        start_response('%d X' % code, [
            ('Set-Cookie', 'n=%d' % len(log))] + (
            [('Location', to)] if to else []))
        return [path.encode('ascii')]
    # the oracle
    want = [('http', 'localhost', '/a', '', method)]
    seen = []
    error = None
    while follow:
        scheme, host, path, qs, m = want[-1]
        code, to = table[path]
        if code == 200:
            break
        if code == 500:
            error = 'failed'
            break
        if (to, code) in seen:
            error = 'loop'
            break
        seen.append((to, code))
        s, rest = to.split('://')
        h, p = rest.split('/')
        p, _, q = p.partition('?')
        new, cur = h.split(':')[0], host.split(':')[0]
        if not (new == cur or subdomains and new.endswith('.' + cur)):
            error = 'external'
            break
        want.append((s, h, '/' + p, q, m if code == 307 else 'GET'))
    client = Client(app, lambda *args: ['wrapped'] + list(args),
                    allow_subdomain_redirects=subdomains)
    got = None
    try:
        got = client.open('/a', method=method, follow_redirects=follow)
        sx.check(got[0] == 'wrapped' and len(got) == 4, 'wrapped once')
        got = got[1:]
    except ClientRedirectError:
        sx.check(error == 'loop', 'loops are reported')
        sx.reach('loop')
    except RuntimeError:
        sx.check(error == 'external', 'other sites are refused')
        sx.reach('external')
    except KeyError:
        sx.check(error == 'failed', 'errors are not caught')
    else:
        sx.check(error is None, 'loops and other sites are refused')
        sx.reach('end')
        code = table[want[-1][2]][0]
        sx.check(got[1] == '%d X' % code, 'the last response')
        sx.check(b''.join(got[0]) == want[-1][2].encode('ascii'),
                 'the last body')
    sx.check(log == want, 'the requests in order')
    got = client.get('/z')
    sx.check(got[0] == 'wrapped' and got[2] == '200 X',
             'the client can be used again')


def h_cookies(sx):
    """2 requests which set or delete cookies, and a third"""
    jar = sx.bool('jar')
    want = {}
    sent = []
    action = [None]

    def app(environ, start_response):
        sent.append(environ.get('HTTP_COOKIE'))
        r = Response('x')
        kind, name = action[0]
        if kind == 'set':
            r.set_cookie(name, 'v%d' % len(sent))
        elif kind == 'delete':
            r.delete_cookie(name)
        return r(environ, start_response)
    client = Client(app, use_cookies=jar)
    for i in range(3):
        action[0] = (sx.choice('kind%d' % i, ['set', 'delete', 'none']),
                     sx.choice('name%d' % i, ['a', 'b']))
        client.get('/')
        got = sent[-1]
        if got is None:
            sx.check(len(want) == 0, 'the cookies of the jar are sent')
        else:
            sx.check(sorted(got.split('; ')) ==
                     sorted('%s=%s' % x for x in want.items()),
                     'the cookies of the jar are sent')
        if jar:
            if action[0][0] == 'set':
                want[action[0][1]] = 'v%d' % len(sent)
            elif action[0][0] == 'delete':
                want.pop(action[0][1], None)


def h_methods(sx):
    """the shortcuts send their method; wrappers and tuples"""
    name = sx.choice('name', ['get', 'patch', 'post', 'head', 'put',
                              'delete', 'options', 'trace'])
    body = sx.data('body', 2, BYTES)
    buffered = sx.bool('buffered')
    closed = []

    def app(environ, start_response):
        sx.check(environ['REQUEST_METHOD'] == name.upper(), 'the method')
        r = Response([body, b'!'], status=201)
        r.call_on_close(lambda: closed.append(1))
        return r(environ, start_response)
    client = Client(app, Response if sx.bool('wrapper') else None)
    rv = getattr(client, name)('/', buffered=buffered,
                               as_tuple=sx.bool('tuple'))
    if type(rv) is tuple and len(rv) == 2:
        sx.check(rv[0]['REQUEST_METHOD'] == name.upper(), 'environment')
        rv = rv[1]
    want = b'' if name == 'head' else body + b'!'
    if type(rv) is tuple:
        sx.check(rv[1] == '201 CREATED', 'status')
        if buffered:
            sx.check(len(closed) == 1, 'closed at once')
        sx.check(b''.join(rv[0]) == want, 'body')
        sx.check(rv[2]['Content-Type'].startswith('text/plain'), 'headers')
    else:
        sx.check(rv.status_code == 201, 'status')
        sx.check(rv.get_data() == want, 'body')
        rv.close()
        sx.check(len(closed) == 1, 'closed once')


def h_set_cookie(sx):
    """cookies set and deleted by the test itself"""
    sent = []

    def app(environ, start_response):
        sent.append(environ.get('HTTP_COOKIE'))
        return Response('x')(environ, start_response)
    client = Client(app)
    want = {}
    for i in range(2):
        name = sx.choice('n%d' % i, ['a', 'b'])
        if sx.bool('delete%d' % i):
            client.delete_cookie('localhost.local', name)
            want.pop(name, None)
        else:
            client.set_cookie('localhost.local', name, 'v%d' % i,
                              httponly=sx.bool('h%d' % i))
            want[name] = 'v%d' % i
    client.get('/', base_url='http://localhost.local')
    got = sent[0]
    sx.check(sorted(got.split('; ') if got else []) ==
             sorted('%s=%s' % x for x in want.items()), 'the cookies')
    try:
        Client(app, use_cookies=False).set_cookie('localhost', 'a')
        sx.fail('no cookies')
    except AssertionError:
        pass


def h_builder(sx):
    """the attributes of a builder and the requests it makes"""
    b = EnvironBuilder('/p', base_url=sx.choice(
        'base', ['http://h:81/r/', 'https://h/', None]))
    base = b.base_url
    sx.check(base in ('http://h:81/r/', 'https://h/', 'http://localhost/'),
             'the base url')
    b.base_url = base
    sx.check(b.base_url == base, 'is kept')
    text = sx.text('v', 2, ['a', '&', '\xe4'])
    kind = sx.choice('kind', ['form', 'query', 'args', 'type', 'length'])
    if kind == 'form':
        b.input_stream = BytesIO(b'old')
        b.form = MultiDict({'a': text})
        sx.check(b.input_stream is None, 'a form replaces the stream')
        same_pairs(sx, form(body(b.get_environ()).decode('ascii')),
                   [('a', text)], 'the form')
    elif kind == 'query':
        b.args['old'] = 'x'
        b.query_string = 'q=1'
        sx.check(b.get_environ()['QUERY_STRING'] == 'q=1', 'the new query')
        try:
            b.args
            sx.fail('no arguments besides a query')
        except AttributeError:
            pass
    elif kind == 'args':
        b.query_string = 'old=1'
        b.args = MultiDict({'a': text})
        same_pairs(sx, form(b.query_string), [('a', text)], 'the arguments')
    elif kind == 'type':
        b.content_type = 'a/b'
        sx.check(b.headers['Content-Type'] == 'a/b', 'in the headers')
        b.content_type = None
        sx.check('Content-Type' not in b.headers and
                 b.content_type is None, 'removed')
    else:
        b.content_length = 7
        sx.check(b.headers['Content-Length'] == '7' and
                 b.content_length == 7, 'in the headers')
        b.content_length = None
        sx.check('Content-Length' not in b.headers, 'removed')

    class R(Request):
        pass
    r = b.get_request(R) if sx.bool('cls') else b.get_request()
    sx.check(isinstance(r, EnvironBuilder.request_class) and r.path == '/p',
             'a request')


def h_arg_charset(sx):
    """query arguments, forms and paths in other charsets: 1 character"""
    charset, alphabet = sx.choice('charset', [
        ('latin-1', ['a', '\xe4', ' ', '&']),
        ('cp1251', ['a', '\u0436', '+', '=']),
        ('utf-8', ['a', '\xe4', '\u0436', '%'])])
    k = sx.text('k', 1, alphabet, 1)
    v = sx.text('v', 1, alphabet)
    how = sx.choice('how', ['query', 'form', 'multi'])
    if how == 'form':
        env = create_environ('/', method='POST', data={k: v}, charset=charset)
        text = body(env).decode('ascii')
    else:
        env = create_environ('/', charset=charset, query_string=(
            {k: v} if how == 'query' else MultiDict([(k, v)])))
        text = env['QUERY_STRING']
    name, _, value = text.partition('=')
    for got, want in ((name, k), (value, v)):
        raw = bytes(unquote(got.replace('+', ' ')))
        sx.check(raw == want.encode(charset), 'in the charset')


class Body(object):
    def __init__(self, items, fail):
        self.items = iter(items)
        self.fail = fail
        self.closed = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail:
            raise KeyError('body')
        return next(self.items)

    def close(self):
        self.closed += 1


def h_closing(sx):
    """up to 2 redirects, to pages which fail before they start or not: the
    responses which nobody else can close are closed, once"""
    n = sx.choice('n', [0, 1, 2])
    buffered = sx.bool('buffered')
    fail = sx.choice('fail', [None, 'before'])
    end = sx.choice('end', ['page', 'loop', 'external'])
    bodies = []

    def app(environ, start_response):
        i = int(environ['PATH_INFO'][1:])
        if len(bodies) > 5:
            raise RuntimeError('too many requests')
        bodies.append(Body([b'x'], fail if i == n else None))
        if i < n:
            start_response('302 X', [('Location', 'http://localhost/%d' % (
                i + 1))])
        elif end != 'page':
            start_response('302 X', [('Location', (
                'http://localhost/0' if end == 'loop' else
                'http://evil.org/'))])
        elif fail != 'before':
            start_response('200 OK', [])
        return bodies[-1]
    sx.assume(fail is None or end == 'page')
    got = None
    try:
        got = Client(app).open('/0', buffered=buffered, follow_redirects=True)
    except KeyError:
        sx.check(fail is not None, 'errors are not caught')
    except ClientRedirectError:
        sx.check(end == 'loop', 'loops')
    except RuntimeError:
        sx.check(end == 'external', 'other sites')
    last = len(bodies) - 1
    for i, b in enumerate(bodies):
        if i == last and got is not None and not buffered:
            sx.check(b.closed == 0, 'the last one is left to the caller')
            sx.check(b''.join(got[0]) == b'x', 'which can read it')
            got[0].close()
        sx.check(b.closed == 1, 'closed once')


def h_app(sx):
    """applications run directly, which start at any point of up to 2 chunks,
    write before or report an error"""
    chunks = [sx.data('c%d' % i, 1, b'ab')
              for i in range(sx.choice('n', [0, 1, 2]))]
    writes = sx.choice('writes', [[], [b'w'], [b'w', b'x']])
    at = sx.choice('at', [0, 1])
    if at > len(chunks):
        return
    error = sx.choice('error', ['no', 'before', 'after'])
    buffered = sx.bool('buffered')
    log = []

    def start(start_response):
        if error == 'after':
            start_response('200 OK', [('A', '1')])
        exc_info = None
        if error != 'no':
            try:
                raise IndexError('failure')
            except IndexError:
                exc_info = sys.exc_info()
        write = start_response('201 X', [('B', '2'), ('b', '3')], exc_info)
        for w in writes:
            write(w)

    class Body(object):
        def __init__(self, start_response):
            self.start_response = start_response

        def __iter__(self):
            for i, c in enumerate(chunks):
                if i == at - 1:
                    start(self.start_response)
                yield c

        def close(self):
            log.append('closed')

    def app(environ, start_response):
        sx.check(environ == {'e': '1'}, 'the environment')
        if at == 0:
            start(start_response)
        return Body(start_response)
    try:
        body, status, headers = run_wsgi_app(app, {'e': '1'}, buffered)
    except IndexError as e:
        sx.check(error != 'no' and str(e) == 'failure', 'errors are raised')
        sx.check(log == ['closed'] or at == 0, 'closed')
        return
    sx.check(error == 'no', 'errors are not hidden')
    sx.check(status == '201 X', 'status')
    sx.check(type(headers) is Headers and
             list(headers) == [('B', '2'), ('b', '3')], 'headers')
    sx.check((log == ['closed']) == buffered, 'closed when buffered')
    sx.check(b''.join(list(body)) == b''.join(writes + chunks),
             'what was written comes first')
    if not buffered:
        body.close() if hasattr(body, 'close') else log.append('-')
    sx.check(log == ['closed'], 'closed once')


def h_file_type(sx):
    """files added with or without a name and type"""
    name = sx.choice('name', [None, '', 'f.txt', 'f.png', 'f'])
    given = sx.choice('type', [None, 'text/x', 'image/png; a=b'])
    how = sx.choice('how', ['tuple', 'add', 'keywords', 'storage'])
    content = sx.data('c', 1, b'ab')
    b = EnvironBuilder(method='POST')
    if how == 'tuple':
        b = EnvironBuilder(method='POST', data={
            'u': (BytesIO(content), name, given)})
    elif how == 'add':
        b.files.add_file('u', BytesIO(content), name, given)
    elif how == 'keywords':
        b.files.add_file('u', BytesIO(content), content_type=given,
                         filename=name)
    else:
        b.files.add_file('u', FileStorage(BytesIO(content), name, 'u', given))
    f = b.files['u']
    want = given
    if given is None and how != 'storage':
        want = {'f.txt': 'text/plain', 'f.png': 'image/png'}.get(
            name, 'application/octet-stream')
    sx.check(f.content_type == want, 'type')
    sx.check(f.filename == name and f.name == 'u', 'names')
    sx.check(f.read() == content, 'content')


def h_history(sx):
    """builders made after another one was changed in every way"""
    kw = sx.choice('kw', [{}, {'headers': []}, {'method': 'POST'},
                          {'query_string': {}}, {'data': {'a': 'b'}}])
    a = EnvironBuilder(**kw)
    what = sx.choice('what', ['headers', 'args', 'form', 'files', 'base'])
    if what == 'headers':
        a.headers['X-A'] = '1'
        a.content_type = 'a/b'
    elif what == 'args':
        a.args.add('x', '1')
    elif what == 'form':
        a.form.add('x', '1')
    elif what == 'files':
        a.files.add_file('f', BytesIO(b'x'), 'name')
    else:
        a.get_environ()['x'] = 'y'
        a.get_environ()['wsgi.version'] = None
    b = EnvironBuilder(**kw)
    sx.check(len(b.headers) == 0 and not b.args, 'of its own')
    sx.check(len(b.form) == (1 if 'data' in kw else 0) and
             not b.files, 'of its own')
    env = b.get_environ()
    sx.check('HTTP_X_A' not in env and 'x' not in env and
             env['QUERY_STRING'] == '' and env['wsgi.version'] == (1, 0),
             'of its own')
    got = env['wsgi.input'].read()
    sx.check(got == (b'a=b' if 'data' in kw else b''), 'of its own')


def h_clients(sx):
    """two clients of one application: what one of them got is not sent by
    the other one"""
    def app(environ, start_response):
        start_response('200 OK', [('Set-Cookie', 'a=' + environ['PATH_INFO'][
            1:]), ('X', 'y')])
        return [environ.get('HTTP_COOKIE', 'none').encode('ascii')]
    clients = [Client(app), Client(app, use_cookies=True),
               Client(app, use_cookies=False)]
    seen = [None, None, None]
    for i in range(3):
        n = sx.choice('client%d' % i, [0, 1, 2])
        path = sx.choice('path%d' % i, ['1', '2'])
        body, status, headers = clients[n].get('/' + path)
        want = 'none' if seen[n] is None else 'a=' + seen[n]
        sx.check(b''.join(body) == want.encode('ascii'), 'its own cookies')
        if n < 2:
            seen[n] = path
        headers['X'] = 'changed'


def h_threads(sx):
    """two threads at once, the second at any line of the first: requests described"""
    def build(path, **kw):
        env = create_environ(path, **kw)
        return [(k, env[k]) for k in (
            'PATH_INFO', 'QUERY_STRING', 'REQUEST_METHOD', 'HTTP_HOST')], env[
                'wsgi.input'].read()
    todo = [lambda: build('/a?b=c'),
            lambda: build('/d', method='POST', data={'e': 'f'}),
            lambda: build('/g', base_url='http://h/', query_string={'i': 'j'})]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')


def h_shortcuts(sx):
    """the 8 methods of the client, and open, with a method of 0 to 2
    characters given as well: the name of the shortcut wins"""
    name = sx.choice('name', ['get', 'patch', 'post', 'head', 'put', 'delete',
                              'options', 'trace', 'open'])
    seen = []

    def app(environ, start_response):
        seen.append((environ['REQUEST_METHOD'], environ['PATH_INFO'],
                     environ['QUERY_STRING']))
        start_response('200 OK', [('X-A', 'b')])
        return [b'x']
    client = Client(app)
    kw = {}
    want = 'GET'
    if sx.bool('given'):
        kw['method'] = want = sx.text('method', 2, ['G', 'p', '-'])
    if sx.bool('query'):
        kw['query_string'] = 'a=b'
    call = getattr(client, name)
    got = call('/x', **kw)
    sx.check(b''.join(got[0]) == b'x' and got[1] == '200 OK' and
             got[2]['x-a'] == 'b', 'the answer')
    if name != 'open':
        want = name.upper()
    sx.check(seen[0][0] == want, 'the method')
    sx.check(seen[0][1:] == ('/x', kw.get('query_string', '')), 'the page')


def h_as_given(sx):
    """environs and builders given to the client: every value is what it was,
    the servers' flags and other keys included"""
    flags = {}
    for k in ('wsgi.multithread', 'wsgi.multiprocess', 'wsgi.run_once'):
        flags[k] = sx.bool(k)
    value = sx.text('value', 1, sx.LATIN)
    extra = {'app.key': 7, 'HTTP_X': value, 'REMOTE_ADDR': '10.0.0.1'}
    how = sx.choice('how', ['environ', 'builder', 'arguments'])
    over = dict(flags, **extra)
    kw = dict(method='POST', data=b'body', query_string='q=1',
              environ_overrides=over)
    seen = []

    def app(environ, start_response):
        seen.append(dict(environ))
        start_response('200 OK', [])
        return [environ['wsgi.input'].read()]
    client = Client(app, use_cookies=sx.bool('cookies'))
    if how == 'arguments':
        want = EnvironBuilder('/p', **kw).get_environ()
        got = client.open('/p', **kw)
    else:
        builder = EnvironBuilder('/p', **kw)
        want = builder.get_environ()
        got = client.open(dict(want) if how == 'environ' else builder)
    sx.check(b''.join(got[0]) == b'body', 'the body')
    got = seen[0]
    sx.check(sorted(got) == sorted(want), 'the keys')
    for k in want:
        if k not in ('wsgi.input', 'wsgi.errors'):
            sx.check(got[k] == want[k], 'the values')
    for k in over:
        sx.check(got[k] == over[k], 'what was asked for')
