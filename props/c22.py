"""Mounted applications get exactly the requests below their mount point.

Outside the bounds: mount points with trailing slashes, paths that do not
begin with a slash (which PEP 3333 excludes), longer paths.
"""
from verktyg.wsgi import DispatcherMiddleware, get_path_info, get_script_name

CHARS = ['a', 'b', '/', '.', '%', '\xc3', '\xa4', '\xff']
MOUNTS = ['', '/a', '/b', '/a/a', '/a/b/a', '/ab', '/\xc3\xa4', '/a.', '/a%']


class App(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, environ, start_response):
        start_response('200 OK', [])
        return [self, environ]


def expected(path, mounts):
    """the longest mount point that is a part of the path"""
    best = None
    for m in mounts:
        if path == m or path[:len(m) + 1] == m + '/':
            if best is None or len(m) > len(best):
                best = m
    return best


def check(sx, path, script, mounts):
    root = App(None)
    apps = {m: App(m) for m in mounts}
    env = {'REQUEST_METHOD': 'GET', 'HTTP_X': 'y', 'PATH_INFO': path}
    if script is not None:
        env['SCRIPT_NAME'] = script
    calls = []
    app, got = DispatcherMiddleware(root, apps)(
        env, lambda *a: calls.append(a))
    sx.check(calls == [('200 OK', [])], 'the response is passed on')
    best = expected(path, mounts)
    sx.check(app.name == best, 'the application of the mount point')
    script = script or ''
    if best is None:
        best = ''
    sx.check(got['SCRIPT_NAME'] == script + best, 'the mount point is added')
    sx.check(got['PATH_INFO'] == path[len(best):], 'the rest is left')
    sx.check(got['REQUEST_METHOD'] == 'GET' and got['HTTP_X'] == 'y',
             'the rest of the environment is kept')
    return got


def h_mounts(sx):
    """any path of up to 7 (thorough 8) characters, up to 3 of 9 mount
    points"""
    path = sx.text('path', sx.t(6, 7), CHARS)
    if path:
        path = '/' + path
    mounts = sx.choice('mounts', [
        [], ['/a'], ['/a', '/a/a'], ['/a/b/a', '/a'], ['/a', '/ab'],
        ['/b', '/\xc3\xa4'], ['', '/a'], ['/a.', '/a', '/a%'],
        ['/a/a', '/b'], ['/a//b', '/a'], ['//a', '/a'], ['/a/../b', '/a/.'],
        ['/a/b/a/b', '/a/b']])
    script = sx.choice('script', [None, '', '/a', '/s/'])
    check(sx, path, script, mounts)


def h_nested(sx):
    """dispatchers below dispatchers"""
    path = sx.text('path', sx.t(6, 7), ['a', 'b', '/'])
    path = '/' + path
    inner = DispatcherMiddleware(App('none'), {'/a': App('aa'),
                                               '/b': App('ab')})
    outer = DispatcherMiddleware(App('other'), {'/a': inner, '/b': App('b')})
    env = {'PATH_INFO': path, 'SCRIPT_NAME': '/s'}
    app, got = outer(env, lambda *a: None)
    best = expected(path, ['/a', '/b', '/a/a', '/a/b'])
    name = {'/a': 'none', '/b': 'b', '/a/a': 'aa', '/a/b': 'ab',
            None: 'other'}[best]
    sx.check(app.name == name, 'the application of the mount point')
    sx.check(got['SCRIPT_NAME'] == '/s' + (best or ''), 'all mount points')
    sx.check(got['SCRIPT_NAME'] + got['PATH_INFO'] == '/s' + path,
             'nothing is lost')


def h_decoded(sx):
    """script name and path as text, for any UTF-8 text"""
    path = sx.text('path', sx.t(3, 4), ['a', '/', '%', '\xe4', '\u2028',
                                        '\U0001f600', '\x00'])
    script = sx.text('script', 2, ['a', '/', '\xe4', '\u20ac'])
    env = {'PATH_INFO': path.encode('utf-8').decode('latin-1'),
           'SCRIPT_NAME': script.encode('utf-8').decode('latin-1')}
    sx.check(get_path_info(env) == path, 'path')
    sx.check(get_script_name(env) == script, 'script name')
    raw = sx.bytes('raw', 3, [0x41, 0x80, 0xc3, 0xa4, 0xff, 0xe2])
    env = {'PATH_INFO': raw.decode('latin-1'),
           'SCRIPT_NAME': raw.decode('latin-1')}
    text = raw.decode('utf-8', 'replace')
    sx.check(get_path_info(env) == text, 'never fails')
    sx.check(get_script_name(env) == text, 'never fails')
    sx.check(get_path_info(env, 'latin-1') == raw.decode('latin-1'),
             'other encodings')
    sx.check(get_path_info(env, None) == raw, 'raw')
    sx.check(get_script_name(env, None) == raw, 'raw')
    sx.check(get_path_info({}) == '' and get_script_name({}) == '',
             'empty when absent')


class Empty(App):
    """an application which is false"""

    def __len__(self):
        return 0


def h_false(sx):
    """applications that are false (an empty collection, say)"""
    path = '/' + sx.text('path', 3, ['a', '/'])
    mounts = {m: Empty(m) for m in sx.choice('mounts', [
        ['/a'], ['/a', ''], ['', '/a/a']])}
    root = Empty(None)
    app, got = DispatcherMiddleware(root, mounts)(
        {'PATH_INFO': path, 'SCRIPT_NAME': ''}, lambda *a: None)
    sx.check(app.name == expected(path, list(mounts)), 'gets its requests')
    app, got = DispatcherMiddleware(root, {})(
        {'PATH_INFO': path, 'SCRIPT_NAME': ''}, lambda *a: None)
    sx.check(app is root and got['PATH_INFO'] == path, 'no mounts')


def h_history(sx):
    """one dispatcher asked by any 3 of 6 requests"""
    app = DispatcherMiddleware(App(None), {'/a': App('/a'), '/b': App('/b')})
    for i in range(3):
        path, script, best = sx.choice('request%d' % i, [
            ('/a/x', '/s', '/a'), ('/a/x', '/t', '/a'), ('/b/x', '/s', '/b'),
            ('/x', '/s', None), ('/x', '/t', None), ('/a', '', '/a')])
        env = {'PATH_INFO': path, 'SCRIPT_NAME': script, 'n': i}
        got, env = app(env, lambda *a: None)
        mount = best or ''
        sx.check(got.name == best, 'the application')
        sx.check(env['SCRIPT_NAME'] == script + mount, 'its root')
        sx.check(env['PATH_INFO'] == path[len(mount):], 'its path')
        sx.check(env['n'] == i, 'the rest')


def h_threads(sx):
    """two threads below one dispatcher, the second at any line of the
    first"""
    mounts = {m: App(m) for m in ['/a', '/a/b', '/c']}
    app = DispatcherMiddleware(App(''), mounts)
    todo = ['/a/b/x', '/a/x', '/c', '/d/e', '/']
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def serve(path):
        a, env = app({'PATH_INFO': path, 'SCRIPT_NAME': '/s'},
                     lambda *args: None)
        return a.name, env['PATH_INFO'], env['SCRIPT_NAME']

    def both():
        return (lambda: serve(one)), (lambda: serve(two))
    sx.interleave('at', both, 'both requests reach their application')


def h_failing(sx):
    """applications that raise one of 4 errors, when called or when their
    body is read: nothing else is called instead"""
    kind = sx.choice('kind', [KeyError, ValueError, AttributeError, TypeError])
    late = sx.bool('late')
    calls = []

    def failing(environ, start_response):
        calls.append('failing')
        if not late:
            raise kind('app')
        start_response('200 OK', [])
        return parts()

    def parts():
        yield b'x'
        raise kind('body')

    def other(environ, start_response):
        calls.append('other')
        return []
    where = sx.choice('where', ['root', 'mount', 'nested'])
    mounts = {'/a': other, '/a/b': other}
    if where == 'mount':
        mounts['/a'] = failing
    elif where == 'nested':
        mounts['/a/b'] = failing
    app = DispatcherMiddleware(failing if where == 'root' else other, mounts)
    path = {'root': '/x', 'mount': '/a/x', 'nested': '/a/b'}[where]
    error = None
    try:
        for part in app({'PATH_INFO': path, 'SCRIPT_NAME': ''},
                        lambda *args: None):
            sx.check(part == b'x', 'its parts')
    except (KeyError, ValueError, AttributeError, TypeError) as e:
        error = e
    sx.check(type(error) is kind and
             error.args == ('body' if late else 'app',), 'the error')
    sx.check(calls == ['failing'], 'one application')
