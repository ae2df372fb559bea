"""Shared files: only exported files are served, and those completely.

The file system is a stand-in in memory (the module's ``os`` and ``open``);
it resolves '.' and '..' like a POSIX system.
Outside the bounds: symbolic links, files that are changed in place while they
are sent, other operating systems, links in archives.  `pkg_resources` is a stand-in on the same file system.
"""
import os
import sys
import time
import types
from datetime import datetime
import urllib.parse
from verktyg import wsgi
from verktyg.http import parse_date

CHARS = ['a', 'b', 'c', '.', '/', '\\', '%', '\x00', '~', '\xc3', '\xa4']
TIME = 1577880000


class File(object):
    def __init__(self, data):
        self.data = data
        self.time = TIME


A = File(b'first')
B = File(b'second file')
C = File(b'')
U = File(b'umlaut')
SECRET = File(b'secret')
OTHER = File(b'other')
# /s/p is exported
TREE = {'s': {'p': {'a': A, 'b': {'a': B, 'c': {}}, '.a': C, '\xe4': U,
                    'a.b': B},
              'a': SECRET, 'b': {'a': SECRET}, 'pa': {'a': SECRET},
              'o': {'a': OTHER, 'c': OTHER}},
        'a': SECRET, 'b': {'a': SECRET}}
FILES = [('a', A), ('b/a', B), ('.a', C), ('\xe4', U), ('a.b', B)]
EXPORTED = [A, B, C, U]


# called at each call of the file system
TURN = [None]


def look(path):
    """the file or directory at the path"""
    if TURN[0] is not None:
        TURN[0]()
    if path[:1] != '/' or '\x00' in path:
        return None
    way = [TREE]
    for part in path.split('/'):
        if not isinstance(way[-1], dict):
            return None
        if part == '' or part == '.':
            continue
        if part == '..':
            if len(way) > 1:
                way.pop()
            continue
        found = None
        for name, node in way[-1].items():
            if part == name:
                found = node
                break
        if found is None:
            return None
        way.append(found)
    return way[-1]


class Opened(object):
    def __init__(self, log, node):
        self.log = log
        self.node = node
        self.pos = 0
        self.closed = 0
        log.append(self)

    def read(self, size=-1):
        end = len(self.node.data) if size < 0 else self.pos + size
        rv = self.node.data[self.pos:end]
        self.pos += len(rv)
        return rv

    def close(self):
        self.closed += 1

    def fileno(self):
        return 1000 + self.log.index(self)

    def seek(self, pos, whence=0):
        self.pos = [0, self.pos, len(self.node.data)][whence] + pos
        return self.pos

    def tell(self):
        return self.pos

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Stat(object):
    def __init__(self, node):
        self.st_mtime = node.time
        self.st_mode = 0o100644
        self.st_size = len(node.data)


class Path(object):
    def __getattr__(self, name):
        return getattr(os.path, name)

    def isfile(self, path):
        return isinstance(look(path), File)

    def isdir(self, path):
        return isinstance(look(path), dict)

    def exists(self, path):
        return look(path) is not None

    def islink(self, path):
        return False

    def realpath(self, path):
        return os.path.normpath(path)

    def abspath(self, path):
        return os.path.normpath(path)

    def getmtime(self, path):
        return Os.stat(None, path).st_mtime

    def getsize(self, path):
        return Os.stat(None, path).st_size


class Os(object):
    def __init__(self, log):
        self.path = Path()
        self.log = log

    def fstat(self, fd):
        if TURN[0] is not None:
            TURN[0]()
        return Stat(self.log[fd - 1000].node)

    def access(self, path, mode):
        return look(path) is not None

    def __getattr__(self, name):
        return getattr(os, name)

    def stat(self, path):
        node = look(path)
        if not isinstance(node, File):
            raise FileNotFoundError(path)
        return Stat(node)


class System(object):
    def __enter__(self):
        self.log = []
        self.os = wsgi.os
        wsgi.os = Os(self.log)
        wsgi.open = self.open
        return self

    def __exit__(self, *exc):
        wsgi.os = self.os
        del wsgi.open

    def open(self, path, mode='r', *a):
        node = look(path)
        if not isinstance(node, File):
            raise FileNotFoundError(path)
        assert mode == 'rb'
        return Opened(self.log, node)


class App(object):
    def __init__(self):
        self.calls = []

    def __call__(self, environ, start_response):
        self.calls.append(dict(environ))
        start_response('404 NOT FOUND', [])
        return [b'app']


def serve(sx, path, exports, header=None, middleware=None, **kw):
    """(file, app called, status, headers)"""
    app = App()
    env = {'PATH_INFO': path, 'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': ''}
    if header is not None:
        env[header[0]] = header[1]
    before = dict(env)
    calls = []

    def start_response(status, headers, exc_info=None):
        calls.append((status, headers))
    with System() as system:
        if middleware is None:
            middleware = wsgi.SharedDataMiddleware(app, exports, **kw)
        middleware.app = app
        it = middleware(env, start_response)
        body = b''
        for part in it:
            body += part
        if hasattr(it, 'close'):
            it.close()
    sx.check(len(calls) == 1, 'one response')
    status, headers = calls[0]
    if app.calls:
        sx.check(len(app.calls) == 1 and app.calls[0] == before,
                 'the application sees the same request')
        sx.check(body == b'app' and status == '404 NOT FOUND', 'its response')
        sx.check(not system.log, 'no file opened')
        return None, status, {}
    sx.check(len(system.log) == 1, 'one file')
    f = system.log[0]
    sx.check(f.closed, 'the file is closed')
    headers = {k.lower(): v for k, v in headers}
    if status[:3] == '304':
        sx.check(body == b'', 'no body when not modified')
    else:
        sx.check(status[:3] == '200', 'ok')
        sx.check(body == f.node.data, 'the whole content')
        sx.check(headers.get('content-length') == str(len(body)), 'length')
        sx.check(headers.get('content-type'), 'has a type')
        sx.check(parse_date(headers.get('last-modified')) ==
                 datetime.utcfromtimestamp(f.node.time), 'modification time')
        cc = headers.get('cache-control', '')
        if kw.get('cache', True):
            age = kw.get('cache_timeout', 43200)
            sx.check(cc.replace(' ', '').split(',') ==
                     ['max-age=%d' % age, 'public'], 'may be cached')
            left = (parse_date(headers.get('expires')) -
                    parse_date(headers.get('date'))).total_seconds()
            sx.check(age <= left < age + 60, 'for that time')
        else:
            sx.check('max-age' not in cc and 'expires' not in headers and
                     'etag' not in headers, 'without caching')
    return f.node, status, headers


def raw(path):
    return path.encode('utf-8').decode('latin-1')


def contained(sx, got, exported=EXPORTED):
    if got is not None:
        for node in exported:
            if got is node:
                return
        sx.fail('a file outside of the exported directory')


def h_root(sx):
    """directory exported at the root; PATH_INFO of up to 6 (thorough 7)
    characters"""
    path = '/' + sx.text('path', sx.t(5, 6), CHARS)
    got, _, _ = serve(sx, path, {'/': '/s/p'})
    contained(sx, got)
    for name, node in FILES:
        if path == '/' + raw(name):
            sx.check(got is node, 'exported files are served')


def h_mount(sx):
    """directory and file exported below a mount point; up to 6 (thorough 7)
    characters after it"""
    path = sx.choice('mount', ['/a', '/a/', '/a/..', '//a', '/']) + sx.text(
        'path', sx.t(4, 5), CHARS)
    got, _, _ = serve(sx, path, {'/a': '/s/p', '/c': '/s/p/b/a'})
    contained(sx, got)
    for name, node in FILES:
        if path == '/a/' + raw(name):
            sx.check(got is node, 'exported files are served')
    if path == '/c':
        sx.check(got is B, 'single files')
    parts = [p for p in path.split('/') if p != '' and p != '..']
    if not parts or parts[0] not in ('a', 'c'):
        sx.check(got is None, 'nothing beside of the mount points')


def h_dotdot(sx):
    """parent references in any place, up to 2 characters between them"""
    a = sx.text('a', 2, CHARS)
    b = sx.text('b', 2, CHARS)
    c = sx.choice('c', ['a', '../a', 's/a', 'pa/a', 'b/a', 's/b/a'])
    u1 = sx.choice('u1', ['..', '../..', '....', '.', '%2e%2e', '..\\..'])
    path = '/' + a + u1 + b + '/' + c
    mount = sx.choice('at', ['/', '/a'])
    got, _, _ = serve(sx, path, {mount: '/s/p'})
    contained(sx, got)


def h_disallow(sx):
    """disallowed names are never served, others still are; directories with
    a trailing slash"""
    path = '/' + sx.text('path', sx.t(4, 5), CHARS)
    rules = sx.choice('rules', [['.*'], ['*.b', '\xe4'], [], ['[ab]']])
    got, _, _ = serve(sx, path, {'/': sx.choice('dir', ['/s/p', '/s/p/'])},
                      disallow=rules)
    contained(sx, got)
    name = path.split('/')[-1]
    bad = {'.*': [raw('.a')], '*.b': ['a.b', raw('\xe4')], '[ab]': ['a']}
    no = bad[rules[0]] if rules else []
    if name in no:
        sx.check(got is None, 'disallowed')
    for f, node in FILES:
        if path == '/' + raw(f) and name not in no:
            sx.check(got is node, 'exported files are served')


def h_several(sx):
    """overlapping exports: the first export which has the file"""
    path = '/' + sx.text('path', sx.t(4, 5), ['a', 'c', '/', '.', 'x'])
    exports = {'/a': '/s/p', '/a/a': '/s/o', '/': '/s/o'}
    if sx.bool('reverse'):
        exports = dict(reversed(list(exports.items())))
    got, _, _ = serve(sx, path, exports)
    contained(sx, got, [A, B, C, U, OTHER])
    if path == '/a/a':
        sx.check(got is A, 'first')
    if path in ('/c', '/a/a/c', '/a/a/a'):
        sx.check(got is OTHER, 'other')
    if '/x' in path:
        sx.check(got is None, 'no such file')


def h_modified(sx):
    """conditional requests with any entity tag or date near the file's"""
    path = '/a'
    _, _, headers = serve(sx, path, {'/': '/s/p'})
    etag = headers['etag']
    _, _, others = serve(sx, '/b/a', {'/': '/s/p'})
    sx.check(etag != others['etag'], 'tags of different files differ')
    age = sx.choice('age', [1, 60, 43200])
    kind = sx.choice('kind', ['etag', 'edit', 'star', 'date', 'nocache'])
    if kind == 'etag':
        pre = sx.choice('pre', ['', '"x", ', 'W/"x",'])
        got, status, h2 = serve(sx, path, {'/': '/s/p'}, (
            'HTTP_IF_NONE_MATCH', pre + etag), cache_timeout=age)
        sx.check(status[:3] == '304', 'not modified')
        sx.check(h2.get('etag') == etag, 'keeps the tag')
        sx.check('max-age=%d' % age in h2.get('cache-control', ''), 'age')
    elif kind == 'edit':
        i = sx.choice('i', list(range(1, len(etag) - 1)))
        c = sx.str('c', 1, 'x0-9')
        new = etag[:i] + c + etag[i + 1:]
        _, status, _ = serve(sx, path, {'/': '/s/p'}, (
            'HTTP_IF_NONE_MATCH', new))
        sx.check((status[:3] == '304') == (new == etag), 'other tags')
    elif kind == 'star':
        _, status, _ = serve(sx, path, {'/': '/s/p'}, (
            'HTTP_IF_NONE_MATCH', '*'))
        sx.check(status[:3] == '304', 'any tag')
    elif kind == 'date':
        ten = sx.str('ten', 1, '012345')
        one = sx.str('one', 1, '0123456789')
        hour = sx.choice('hour', ['11', '12'])
        _, status, _ = serve(sx, path, {'/': '/s/p'}, (
            'HTTP_IF_MODIFIED_SINCE',
            'Wed, 01 Jan 2020 %s:%s%s:00 GMT' % (hour, ten, one)))
        if hour == '12':
            sx.check(status[:3] == '304', 'not modified since')
        else:
            sx.check(status[:3] == '200', 'modified since')
    else:
        _, status, h2 = serve(sx, path, {'/': '/s/p'}, (
            'HTTP_IF_NONE_MATCH', etag), cache=False)
        sx.check(status[:3] == '200' and 'etag' not in h2, 'no caching')


def h_changed(sx):
    """a file that is replaced by one of another size or time is sent to
    clients with the old one"""
    exports = {'/': '/n'}
    old = File(b'old')
    new = File(b'new')
    kind = sx.choice('kind', ['time', 'size', 'both', 'none'])
    middleware = None
    TREE['n'] = {'f.txt': old}
    if sx.bool('same middleware'):
        exports = sx.choice('exports', [{'/': '/n'},
                                        {'/f.txt': '/n/f.txt'}])
        with System():
            middleware = wsgi.SharedDataMiddleware(None, exports)
    if kind in ('time', 'both'):
        new.time = TIME + sx.choice('d', [
            1, -1, 2, -2, 3, -3, 8, 60, 86400, -86400])
    if kind in ('size', 'both'):
        new.data = b'new content'[:sx.choice('n', [0, 1, 2, 4, 11])]
    try:
        _, _, headers = serve(sx, '/f.txt', exports, middleware=middleware)
        TREE['n']['f.txt'] = new
        got, status, again = serve(sx, '/f.txt', exports, (
            'HTTP_IF_NONE_MATCH', headers['etag']), middleware=middleware)
    finally:
        del TREE['n']
    sx.check(got is new, 'found')
    sx.check(status[:3] == ('304' if kind == 'none' else '200'),
             'sent again when changed')
    sx.check((again['etag'] == headers['etag']) == (kind == 'none'), 'tag')
    sx.check(headers['content-type'] == 'text/plain', 'type')


def h_timeout(sx):
    """any time for which files may be cached"""
    age = sx.choice('age', [0, 1, 60, 43199, 43200, 86400, 31536000])
    path = sx.choice('path', ['/a', '/.a', '/b/a'])
    got, status, _ = serve(sx, path, {'/': '/s/p'}, cache_timeout=age,
                           cache=sx.choice('cache', [True, False]))
    sx.check(got is not None and status[:3] == '200', 'served')


def h_types(sx):
    """the type of a file follows its name, or else the fallback"""
    name, mime = sx.choice('name', [('x.html', 'text/html'), ('x', None),
                                    ('x.css', 'text/css'), ('x.', None),
                                    ('x.png', 'image/png'), ('html', None)])
    fallback = sx.choice('fallback', [None, 'a/b'])
    kw = {'fallback_mimetype': fallback} if fallback else {}
    TREE['n'] = {name: File(b'z')}
    try:
        _, _, headers = serve(sx, '/' + name, {'/': '/n'}, **kw)
    finally:
        del TREE['n']
    sx.check(headers['content-type'] == (mime or fallback or 'text/plain'),
             'type')


def h_names(sx):
    """any name of up to 4 characters (as UTF-8 on the wire) is found"""
    name = sx.text('name', sx.t(3, 4), ['a', '.', '~', '%', '\\', ' ', '\xe4',
                                        '\u2028', '\U0001f600', '\n'], 1)
    sx.assume(name != '.' and name != '..')
    node = File(b'data')
    TREE['n'] = {'d': {name: node}}
    try:
        got, _, _ = serve(sx, '/x/' + raw(name), {'/x': '/n/d'})
    finally:
        del TREE['n']
    sx.check(got is node, 'found')


class Zone(object):
    """the local time zone"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.name
        time.tzset()

    def __exit__(self, *exc):
        if self.old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = self.old
        time.tzset()


def h_zones(sx):
    """the local time zone of the server makes no difference"""
    zone = sx.choice('zone', ['UTC', 'XYZ-5', 'XYZ+11', 'XYZ-1XYY'])
    with Zone(zone):
        got, status, headers = serve(sx, '/a', {'/': '/s/p'})
        sx.check(got is A and status[:3] == '200', 'served')
        later = sx.choice('later', [-3600, -1, 0, 1, 3600])
        _, status, _ = serve(sx, '/a', {'/': '/s/p'}, (
            'HTTP_IF_MODIFIED_SINCE', time.strftime(
                '%a, %d %b %Y %H:%M:%S GMT', time.gmtime(TIME + later))))
        sx.check((status[:3] == '304') == (later >= 0), 'conditional')


class Package(object):
    """a package at /s, installed as files or in an archive"""

    def __init__(self, files):
        self.files = files
        base = type('DefaultProvider', (object,), {})
        self.log = []
        log = self.log

        class Provider(base if files else object):
            def has_resource(self, path):
                return look('/s/' + path) is not None

            def resource_isdir(self, path):
                return isinstance(look('/s/' + path), dict)

            def get_resource_filename(self, manager, path):
                return '/s/' + path

            def get_resource_stream(self, manager, path):
                return Opened(log[0], look('/s/' + path))

            def get_resource_string(self, manager, path):
                return look('/s/' + path).data
        provider = Provider()

        def get_provider(name):
            assert name == 'pkg'
            return provider
        self.module = types.ModuleType('pkg_resources')
        self.module.DefaultProvider = base
        self.module.ResourceManager = type('ResourceManager', (object,), {})
        self.module.get_provider = get_provider

    def __enter__(self):
        self.old = sys.modules.get('pkg_resources')
        sys.modules['pkg_resources'] = self.module
        return self

    def __exit__(self, *exc):
        if self.old is None:
            del sys.modules['pkg_resources']
        else:
            sys.modules['pkg_resources'] = self.old


def h_package(sx):
    """a directory of a package (as files or in an archive); up to 4
    (thorough 5) characters below its mount"""
    path = sx.choice('mount', ['/x/', '/x', '/']) + sx.text(
        'path', sx.t(3, 4), ['a', 'b', 'o', '.', '/', '\xc3', '\xa4'])
    files = sx.bool('files')
    app = App()
    calls = []
    env = {'PATH_INFO': path, 'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': ''}
    with Package(files) as package, System() as system:
        package.log.append(system.log)
        it = wsgi.SharedDataMiddleware(app, {'/x': ('pkg', 'p')})(
            env, lambda *a: calls.append(a))
        body = b''.join(list(it))
        if hasattr(it, 'close'):
            it.close()
    sx.check(len(calls) == 1, 'one response')
    status, headers = calls[0]
    if app.calls:
        sx.check(not system.log, 'no file opened')
        got = None
    else:
        sx.check(len(system.log) == 1 and system.log[0].closed, 'one file')
        got = system.log[0].node
        sx.check(status[:3] == '200' and body == got.data, 'its content')
        sx.check(dict(headers)['Content-Length'] == str(len(body)), 'length')
    contained(sx, got)
    for name, node in FILES:
        if path == '/x/' + raw(name):
            sx.check(got is node, 'exported files are served')
    if path[:3] != '/x/':
        sx.check(got is None, 'nothing beside of the mount')


def h_threads(sx):
    """two threads below one middleware, the second at any line of the
    first"""
    todo = ['/a/a', '/a/b/a', '/c', '/a/x', '/b']
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    middleware = wsgi.SharedDataMiddleware(
        lambda environ, start_response: [b'app'], {'/a': '/s/p',
                                                   '/c': '/s/p/b/a'})

    def get(path):
        calls = []
        it = middleware({'PATH_INFO': path, 'REQUEST_METHOD': 'GET',
                         'SCRIPT_NAME': ''},
                        lambda status, headers, exc_info=None:
                        calls.append((status, sorted(
                            (k, v) for k, v in headers
                            if k.lower() not in ('date', 'expires')))))
        body = b''
        for part in it:
            body += part
        if hasattr(it, 'close'):
            it.close()
        return calls, body
    with System():
        sx.interleave('at', lambda: ((lambda: get(one)), (lambda: get(two))),
                      'both requests get their own file')


def h_races(sx):
    """a file that is replaced by another, or removed, at any of the calls of
    the file system while it is served: one of the two is sent, with its own
    length and time, and nothing stays open"""
    old = File(b'old')
    new = File(b'new content')
    new.time = TIME + 60
    change = sx.choice('change', ['replace', 'remove'])
    at = sx.int('at', 1, 12)
    calls = [0]
    TREE['n'] = {'f.txt': old}

    def turn():
        calls[0] += 1
        if calls[0] == at:
            if change == 'replace':
                TREE['n']['f.txt'] = new
            else:
                del TREE['n']['f.txt']
    exports = sx.choice('exports', [{'/': '/n'}, {'/f.txt': '/n/f.txt'}])
    started = []
    body = b''
    error = None
    app = App()
    with System() as system:
        try:
            middleware = wsgi.SharedDataMiddleware(app, exports)
            TURN[0] = turn
            it = middleware({'PATH_INFO': '/f.txt', 'REQUEST_METHOD': 'GET'},
                            lambda *args: started.append(args))
            for part in it:
                body += part
            if hasattr(it, 'close'):
                it.close()
        except OSError as e:
            error = e
        finally:
            TURN[0] = None
            del TREE['n']
        sx.check(all([f.closed for f in system.log]), 'nothing stays open')
    if error is not None or app.calls:
        sx.check(change == 'remove', 'a file that is there is served')
        sx.check(len(started) == len(app.calls), 'not started')
        return
    headers = dict(started[0][1])
    sx.check(body in (old.data, new.data), 'one of the files')
    sx.check(headers['Content-Length'] == str(len(body)), 'its length')
    node = old if body == old.data else new
    sx.check(parse_date(headers['Last-Modified']) ==
             datetime.utcfromtimestamp(node.time), 'its time')
