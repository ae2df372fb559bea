"""Requests served at the same time, or inside of each other, do not notice.

The second thread gets its turn at any one line of verktyg's code that the
first executes, and keeps it until it ends or has to wait for the first.
Each must return what it returns alone.
Outside the bounds: turns within a line, more than one change of the thread,
more than two threads, requests and responses that are shared by threads.
"""
from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Dispatcher, Binding
from verktyg.exceptions import (
    HTTPException, NotFound, MethodNotAllowed, NotAcceptable, NotImplemented,
)
from verktyg.responses import Response
from verktyg.routing import (
    URLMap, Route, RequestRedirect, BaseConverter, BuildError,
)
from verktyg.views import expose_json
from verktyg.wsgi import DispatcherMiddleware, ClosingIterator


class Oops(Exception):
    pass


class Upper(BaseConverter):
    def to_python(self, value):
        return value.upper()

    def to_url(self, value):
        return value.lower()


def environ(path, method='GET', accept=None, query=''):
    env = {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http',
           'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
           'HTTP_HOST': 'example.com', 'SCRIPT_NAME': '',
           'PATH_INFO': path, 'QUERY_STRING': query}
    if accept is not None:
        env['HTTP_ACCEPT'] = accept
    return env


def serve(app, env):
    calls = []
    it = app(env, lambda status, headers, exc_info=None:
             calls.append((status, list(headers))))
    body = b''
    for part in it:
        body += part
    if hasattr(it, 'close'):
        it.close()
    return calls, body


def application(inner=None):
    b = ApplicationBuilder()
    b.add_converters(upper=Upper)

    @b.expose('page', route='/p/<upper:v>', methods=['GET'])
    def page(app, request, v):
        if inner is not None:
            inner(app, v)
        if v == 'BAD':
            raise Oops()
        r = Response('page %s %s %s' % (
            v, request.path, request.args.get('q')))
        r.set_cookie('c', v)
        r.headers['Location'] = app.url_for('page', v=v)
        return r

    @b.expose('page', methods=['POST'])
    def post(app, request, v):
        return Response('posted ' + v, status=201)

    @b.expose('typed', route='/t/', content_type='text/html')
    def html(app, request):
        return Response('html', content_type='text/html')

    @b.expose('typed', content_type='text/css')
    def css(app, request):
        return Response('css', content_type='text/css')

    b.add_routes(Route('/j/<int:n>', endpoint='json'))

    @expose_json(b, 'json')
    def data(app, request, n):
        return {'n': n, 'path': request.path}

    @b.exception_handler(Oops)
    def oops(app, request, exc_type, exc_value, exc_traceback):
        return Response('oops ' + request.path, status=500)

    @b.exception_handler(HTTPException)
    def http(app, request, exc_type, exc_value, exc_traceback):
        return Response('%s %s' % (exc_value.code, request.path),
                        status=exc_value.code)
    return b('http://example.com')


REQUESTS = [('/p/a', 'GET', None, 'q=1'), ('/p/bad', 'GET', None, ''),
            ('/t/', 'GET', 'text/html;q=0.1, text/css', ''),
            ('/p/b', 'POST', None, ''), ('/j/5', 'GET', None, ''),
            ('/t', 'GET', None, 'a=b'), ('/no', 'GET', None, ''),
            ('/j/6', 'PUT', None, ''),
            ('/t/', 'GET', 'text/html', ''), ('/p/c', 'GET', None, 'q=2')]


def h_application(sx):
    """a request of 5 and one of 3 (thorough 10 each) served by one
    application that has served others before"""
    one = sx.choice('one', REQUESTS[:sx.t(5, 10)])
    two = sx.choice('two', REQUESTS[:2] + REQUESTS[9:] if not sx.thorough
                    else REQUESTS)
    app = application()
    sx.interleave('at', lambda: (lambda: serve(app, environ(*one)),
                                 lambda: serve(app, environ(*two))),
                  'both requests get their own response')


def h_first(sx):
    """the first two requests of an application"""
    one = sx.choice('one', REQUESTS[:sx.t(2, 6)])
    two = sx.choice('two', REQUESTS[:sx.t(2, 6)])

    def both():
        app = application()
        return (lambda: serve(app, environ(*one)),
                lambda: serve(app, environ(*two)))
    sx.interleave('at', both, 'both requests get their own response')


def h_inner(sx):
    """a view that has the same application serve another request before it
    returns or raises, any 2 of 10 requests"""
    outer = sx.choice('outer', ['a', 'bad', 'o'])
    inner = sx.choice('inner', REQUESTS)
    want = serve(application(), environ(*inner))
    log = []

    def ask(app, v):
        if v == outer.upper() and not log:
            log.append(None)
            log[0] = serve(app, environ(*inner))
    got = serve(application(ask), environ('/p/' + outer, query='q=o'))
    sx.check(log == [want], 'the inner request is served')
    sx.check(got == serve(application(), environ('/p/' + outer,
                                                 query='q=o')),
             'and so is the outer one')


def h_bodies(sx):
    """two responses of one application, whose parts are sent in turns, any
    of 6 orders"""
    b = ApplicationBuilder()
    closed = []

    @b.expose('x', route='/<v>')
    def x(app, request, v):
        request.call_on_close(lambda: closed.append('request ' + v))

        def parts():
            for i in range(2):
                yield '%s%d%s' % (v, i, request.path)
        r = Response(parts())
        r.call_on_close(lambda: closed.append('response ' + v))
        return r
    app = b('http://example.com')
    started = {'a': [], 'b': []}
    its = {}
    out = {'a': [], 'b': []}

    def go(v):
        if v not in its:
            its[v] = iter(app(environ('/' + v), lambda status, headers: (
                started[v].append(status))))
        for part in its[v]:
            out[v].append(part)
            return
        if hasattr(its[v], 'close'):
            its[v].close()
        its[v] = iter(())
    for i in range(4):
        go(sx.choice('turn%d' % i, 'ab'))
    for i in range(3):
        for v in 'ab':
            go(v)
    for v in 'ab':
        sx.check(out[v] == [('%s%d/%s' % (v, i, v)).encode('ascii')
                            for i in range(2)], 'its own parts')
        sx.check(started[v] == ['200 OK'], 'started once')
        for what in 'request ', 'response ':
            sx.check(closed.count(what + v) == 1, 'closed once')


MAP = [
    Route('/', endpoint='index'), Route('/<a>', endpoint='e'),
    Route('/<int:a>', endpoint='i'), Route('/<a>/<b>', endpoint='e'),
    Route('/d/', endpoint='d', defaults={'page': 1}),
    Route('/d/<int:page>', endpoint='d'),
    Route('/s/<path:p>/', endpoint='s'), Route('/old/<a>', endpoint='e',
                                               alias=True),
]


def h_map(sx):
    """a lookup or url of 5 and one of 4 (thorough 10 each) of one map"""
    todo = [('match', '/x'), ('build', 'e', {'a': 'x', 'b': 'y'}),
            ('match', '/s/a/b'), ('build', 'd', {'page': 2}),
            ('match', '/old/x'), ('match', '/5'), ('build', 'e', {}),
            ('match', '/q/r'), ('build', 'e', {'a': 'z', 'q': '1'}),
            ('match', '/d/1')]
    one = sx.choice('one', todo[:sx.t(5, 10)])
    two = sx.choice('two', todo[:sx.t(2, 10)] + todo[7:9])
    m = URLMap([r.empty() for r in MAP])
    shared = sx.bool('shared')
    adapters = [m.bind('h', '/'), m.bind('h', '/')]
    if shared:
        adapters[1] = adapters[0]

    def work(a, op, *args):
        try:
            return getattr(a, op)(*args)
        except RequestRedirect as e:
            return e.new_url
        except (NotFound, BuildError) as e:
            return type(e)
    sx.interleave('at', lambda: (lambda: work(adapters[0], *one),
                                 lambda: work(adapters[1], *two)),
                  'both get their own answer')


def h_dispatcher(sx):
    """two of 6 lookups in one dispatcher"""
    d = Dispatcher([
        Binding('a', 0, method='GET', content_type='text/html'),
        Binding('a', 1, method='GET', content_type='text/css', qs=0.5),
        Binding('a', 2, method='POST'), Binding('b', 3, method='GET'),
    ])
    todo = [('a', 'GET', 'text/css'), ('a', 'POST', None),
            ('a', 'GET', 'text/html;q=0.1, text/css;q=0.9'),
            ('a', 'PUT', None), ('b', 'HEAD', None),
            ('a', 'GET', 'image/png')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo[:sx.t(3, 6)])

    def find(name, method, accept):
        try:
            return d.lookup(name, method, accept=accept or '*/*')
        except (NotImplemented, MethodNotAllowed, NotAcceptable) as e:
            return type(e)
    sx.interleave('at', lambda: (lambda: find(*one), lambda: find(*two)),
                  'both get their own answer')


def h_middleware(sx):
    """mounted applications and a closing iterator, two of 3 requests"""
    class App(object):
        def __init__(self, name):
            self.name = name

        def __call__(self, environ, start_response):
            start_response('200 OK', [('X', self.name)])
            body = [self.name, environ['SCRIPT_NAME'], environ['PATH_INFO']]
            return ClosingIterator([' '.join(body).encode('ascii')],
                                   [lambda: environ.update(closed=True)])
    app = DispatcherMiddleware(App('root'), {'/a': App('a'),
                                             '/a/b': App('b')})
    one = sx.choice('one', ['/a/b/c', '/a/d', '/e'])
    two = sx.choice('two', ['/a/b/c', '/a/d', '/e'])

    def get(path):
        env = environ(path)
        return serve(app, env), env.get('closed')
    sx.interleave('at', lambda: (lambda: get(one), lambda: get(two)),
                  'both get their own answer')
