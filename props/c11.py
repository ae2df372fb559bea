"""The life of a request in an application: one response, everything is
closed, unhandled errors reach the server.

The server is the harness.  It follows PEP 3333: it iterates over the body,
may stop after any part of it, and always closes the iterable.
Outside the bounds: callbacks which raise, more than 3 parts of the body,
more than two requests at the same time.
"""
import json
from verktyg.application import ApplicationBuilder
from verktyg.exceptions import (
    NotFound, MethodNotAllowed, NotAcceptable, HTTPException,
)
from verktyg.exception_dispatch import ExceptionHandler
from verktyg.responses import Response
from verktyg.views import JsonView, ClassView, expose_json
from verktyg.routing import Route, RequestRedirect, BaseConverter
from verktyg.wsgi import ClosingIterator


class Oops(Exception):
    pass


class Worse(Oops):
    pass


def environ(path, method='GET', **kw):
    env = {'REQUEST_METHOD': method, 'wsgi.url_scheme': 'http',
           'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
           'HTTP_HOST': 'example.com', 'SCRIPT_NAME': '',
           'PATH_INFO': path, 'QUERY_STRING': ''}
    env.update(kw)
    return env


class Body(object):
    def __init__(self, log, parts, fail, use_close=True):
        self.log = log
        self.parts = parts
        self.fail = fail
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail is not None and self.i == self.fail:
            raise Oops('body')
        if self.i >= len(self.parts):
            raise StopIteration()
        self.i += 1
        self.log.append('part')
        return self.parts[self.i - 1]

    def close(self):
        self.log.append('body closed')


def builder(handlers=True):
    b = ApplicationBuilder()
    b.add_routes(Route('/x/<v>', endpoint='x'), Route('/slash/',
                                                      endpoint='slash'))
    return b


def run(sx, app, env, stop=None):
    """(status, headers, body, error) as seen by the server"""
    calls = []

    def start_response(status, headers, exc_info=None):
        calls.append((status, headers))
    body = []
    error = None
    it = None
    try:
        it = app(env, start_response)
        for i, part in enumerate(it):
            sx.check(len(calls) == 1, 'started before the body')
            body.append(part)
            if stop is not None and len(body) >= stop:
                break
    except Exception as e:
        error = e
    if it is not None and hasattr(it, 'close'):
        it.close()
    sx.check(len(calls) <= 1, 'started at most once')
    if not calls:
        return None, None, b''.join(body), error
    return calls[0][0], calls[0][1], b''.join(body), error


def h_lifecycle(sx):
    """the view returns, raises one of two exceptions, is not found or
    fails while the body is sent; there is a handler for any subset of the
    exceptions, which returns or raises; the client stays or leaves after
    0..2 parts; GET or HEAD; callbacks on the request and the response"""
    log = []
    b = builder()
    what = sx.choice('what', ['return', 'oops', 'worse', 'http', 'nowhere',
                              'post'])
    fail = sx.choice('fail', [None, 0, 1])
    stop = sx.choice('stop', [None, 1, 2])
    handled = sx.choice('handled', ['no', 'oops', 'base'])
    handler = sx.choice('handler', ['return', 'raise'])
    method = sx.choice('method', ['GET', 'HEAD'])

    def respond(who):
        r = Response(Body(log, [who, b'1', b'2'], fail))
        r.call_on_close(lambda: log.append('response closed'))
        return r

    def view(app, req, v=None):
        sx.check(app is application and req.app is application,
                 'views are given the application')
        req.call_on_close(lambda: log.append('request closed'))
        log.append('view')
        if what == 'oops':
            raise Oops('view')
        if what == 'worse':
            raise Worse('view')
        if what == 'http':
            raise NotFound()
        return respond(b'view')

    def handle(app, req, exc_type, exc_value, tb):
        sx.check(app is application, 'handlers are given the application')
        sx.check(isinstance(exc_value, exc_type) and
                 exc_value.__traceback__ is tb, 'the exception is passed')
        log.append('handler')
        if handler == 'raise':
            raise KeyError('handler')
        return respond(b'handler')
    b.expose('x', methods='GET')(view)
    if handled == 'oops':
        b.exception_handler(Oops)(handle)
    elif handled == 'base':
        b.add_exception_handlers(ExceptionHandler(Exception, handle))
    application = b('http://example.com')
    env = environ('/y' if what == 'nowhere' else '/x/a',
                  'POST' if what == 'post' else method)
    status, headers, body, error = run(sx, application, env, stop)

    raised = {'return': None, 'oops': Oops, 'worse': Worse, 'http': NotFound,
              'nowhere': NotFound, 'post': MethodNotAllowed}[what]
    caught = raised is not None and (
        handled == 'base' or (handled == 'oops' and issubclass(raised, Oops)))
    answered = raised is None or (caught and handler == 'return')
    started = what in ('nowhere', 'post')
    sx.check(log.count('view') == (0 if started else 1),
             'the view is called once')
    sx.check(log.count('handler') == (1 if caught else 0),
             'the handler is called once, for its exceptions')
    if not started:
        sx.check(log.count('request closed') == 1,
                 'the request is closed once')
        sx.check(log[-1] == 'request closed', 'the request is closed last')
    if not answered:
        want = KeyError if caught else raised
        sx.check(type(error) is want, 'unhandled exceptions are passed on')
        sx.check(status is None and body == b'', 'and nothing is sent')
        return
    sx.check(log.count('response closed') == 1, 'the response is closed once')
    sx.check('body closed' in log, 'the body is closed')
    closed = log.index('response closed')
    sx.check('part' not in log[closed:], 'the response is closed at the end')
    who = b'view' if raised is None else b'handler'
    sx.check(status is not None and status[:3] == '200', 'one response')
    parts = [who, b'1', b'2']
    if method == 'HEAD' and what != 'post':
        sx.check(body == b'' and error is None, 'no body for HEAD')
        return
    n = 3 if stop is None else stop
    if fail is not None and (stop is None or fail < stop):
        sx.check(type(error) is Oops and error.args == ('body',),
                 'errors while the body is sent are passed on')
        n = fail
    else:
        sx.check(error is None, 'no errors')
    sx.check(body == b''.join(parts[:n]), 'the body is sent')


def h_not_started(sx):
    """a server which closes the response before it starts to read it"""
    log = []
    b = builder()

    @b.expose('x')
    def x(app, req, v):
        log.append('view')
        req.call_on_close(lambda: log.append('closed'))
        return Response('x')
    it = b('')(environ('/x/a'), lambda s, h: None)
    if sx.bool('one'):
        next(iter(it))
    it.close()
    sx.check(log.count('closed') == log.count('view'),
             'what was opened is closed')


def h_arguments(sx):
    """views get what was matched; any segment of up to 3 characters, as the
    bytes that a server passes on"""
    v = sx.text('v', sx.t(3, 4), sx.UNI, 1)
    sx.assume('/' not in v)
    b = builder()
    seen = []

    @b.expose('x')
    def x(app, req, v):
        seen.append(v)
        sx.check(app.url_for('x', v=v)[-len('/x/'):] != '/x/', 'url')
        return Response(v)
    wsgi = ('/x/' + v).encode('utf-8').decode('latin1')
    status, headers, body, error = run(sx, b('http://example.com'),
                                       environ(wsgi))
    sx.check(error is None and status == '200 OK', 'found')
    sx.check(seen == [v], 'the view gets the value')
    sx.check(body == v.encode('utf-8'), 'the response is sent')
    sx.check(('Content-Length', str(len(body))) in headers,
             'with its length')


def h_redirect(sx):
    """missing slashes are redirected with the query string of up to 3
    characters; with and without the default handler"""
    q = sx.text('q', 3, ['a', '=', '&', '%', '+', '7'])
    default = sx.bool('default')
    b = ApplicationBuilder(default_redirect_handler=default)
    b.add_routes(Route('/slash/', endpoint='slash'))

    @b.expose('slash')
    def slash(app, req):
        return Response('here')
    app = b('http://example.com/app')
    status, headers, body, error = run(
        sx, app, environ('/slash', QUERY_STRING=q))
    if not default:
        sx.check(isinstance(error, RequestRedirect), 'passed on')
        return
    sx.check(error is None and status[:3] == '301', 'redirected')
    want = 'http://example.com/app/slash/' + ('?' + q if q else '')
    sx.check(('Location', want) in headers, 'to the right place')


def h_middleware(sx):
    """up to 3 layers of middleware in the order they were added, with their
    arguments"""
    n = sx.choice('n', range(4))
    b = builder()
    b.expose('x')(lambda app, req, v: Response('x'))

    def wrap(app, name, suffix=''):
        def inner(env, start_response):
            env.setdefault('trace', []).append(name + suffix)
            sx.check(env['verktyg.application'] is application,
                     'the application is known')
            return app(env, start_response)
        return inner
    for i in range(n):
        if sx.bool('kw%d' % i):
            b.add_middleware(wrap, str(i), suffix='s')
        else:
            b.add_middleware(wrap, name=str(i))
    application = b('')
    env = environ('/x/a')
    status, headers, body, error = run(sx, application, env)
    sx.check(error is None and body == b'x', 'the request gets through')
    trace = [t[0] for t in env.get('trace', [])]
    sx.check(trace == [str(i) for i in reversed(range(n))],
             'the last one added is the outermost')


def h_builder(sx):
    """mixins, converters and configuration reach the application; requests
    are of the application's own class"""
    b = ApplicationBuilder(default_request_mixins=sx.bool('mixins'))

    class A(object):
        extra = 1

    class R(object):
        more = 2
    for i in range(sx.choice('times', [1, 2])):
        b.add_application_mixins(A)
        b.add_request_mixins(R)
    b.config['key'] = 'value'
    b.add_routes(Route('/<int:n>', endpoint='n'))
    seen = []

    @b.expose('n', methods=['GET', 'PUT'])
    def n(app, req, n):
        seen.append((req.more, app.extra, app.config['key'], n))
        sx.check(isinstance(req, app.request_class), "the app's requests")
        return Response('x')

    @b.expose(route='/named')
    def named(app, req):
        return Response('named')
    app = b('')
    number = sx.int('number', 0, 150)
    method = sx.choice('method', ['GET', 'PUT', 'HEAD'])
    status, headers, body, error = run(
        sx, app, environ('/' + str(number), method))
    sx.check(seen == [(2, 1, 'value', number)], 'everything is there')
    status, headers, body, error = run(sx, app, environ('/named'))
    sx.check(body == b'named', 'routes can be given with the view')


def h_built(sx):
    """an application that is built does not change with its builder; mixins
    which are repeated in any order of 3"""
    class A(object):
        a = 1

    class B(object):
        b = 2

    class C(object):
        c = 3
    b = builder()
    mixins = {'A': A, 'B': B, 'C': C}
    order = [sx.choice('m%d' % i, 'ABC') for i in range(3)]
    for m in order:
        b.add_application_mixins(mixins[m])
        b.add_request_mixins(mixins[m])
    if sx.bool('again'):
        b.add_application_mixins(*[mixins[m] for m in order])
        b.add_request_mixins(*[mixins[m] for m in order])
    b.config['k'] = 1
    b.expose('x')(lambda app, req, v: Response('first'))
    app = b('')
    for m in 'ABC':
        sx.check(hasattr(app, m.lower()) == (m in order), 'the mixins')
        sx.check(hasattr(app.request_class, m.lower()) == (m in order),
                 'the mixins of requests')
    what = sx.choice('what', ['config', 'binding', 'handler', 'middleware',
                              'mixin', 'route', 'delete'])
    if what == 'config':
        b.config['k'] = 2
    elif what == 'delete':
        b.config.clear()
    elif what == 'binding':
        b.expose('x')(lambda app, req, v: Response('second'))
    elif what == 'handler':
        b.exception_handler(NotFound)(
            lambda app, req, t, e, tb: Response('handled'))
    elif what == 'middleware':
        b.add_middleware(lambda app: None)
    elif what == 'route':
        b.add_routes(Route('/late', endpoint='late'))
    else:
        b.add_application_mixins(type('Late', (), {'late': 1}))
    sx.check(app.config['k'] == 1 and len(app.config) == 1, 'the settings')
    sx.check(not hasattr(app, 'late'), 'no new mixins')
    status, headers, body, error = run(sx, app, environ('/x/a'))
    sx.check(body == b'first' and error is None, 'the same views')
    status, headers, body, error = run(sx, app, environ('/late'))
    sx.check(type(error) is NotFound, 'the same routes and handlers')
    try:
        app.config['k'] = 3
    except TypeError:
        pass
    sx.check(app.config['k'] == 1, 'settings are fixed')


def h_json(sx):
    """views which return data, nothing, a response or fail; bound in any
    way"""
    kind = sx.choice('kind', ['data', 'none', 'response', 'fail', 'falsy'])
    data = sx.choice('data', [{'a': [1, None]}, [], 0, '', False,
                              {'x': '\xe4"'}])
    method = sx.choice('method', ['GET', 'POST', 'PUT'])
    accept = sx.choice('accept', [None, 'application/json', 'text/html',
                                  '*/*;q=0.1'])
    b = ApplicationBuilder()
    b.add_routes(Route('/j/<v>', endpoint='j'))
    log = []

    def view(app, req, v):
        log.append(v)
        if kind == 'fail':
            raise Oops('view')
        return {'data': data, 'falsy': False, 'none': None,
                'response': Response('text', status=418)}[kind]
    how = sx.choice('how', ['view', 'decorator'])
    if how == 'view':
        b.add_bindings(JsonView('j', view, methods=['GET', 'POST']))
    else:
        sx.check(expose_json(b, 'j', methods=('GET', 'POST'))(view) is view,
                 'the function is returned')
    if sx.bool('debug'):
        b.add_application_mixins(type('Debug', (), {'debug': True}))
    env = environ('/j/x', method)
    if accept is not None:
        env['HTTP_ACCEPT'] = accept
    status, headers, body, error = run(sx, b('http://example.com'), env)
    if method == 'PUT':
        sx.check(type(error) is MethodNotAllowed and not log, 'other methods')
        return
    if accept == 'text/html':
        sx.check(type(error) is NotAcceptable and not log, 'other types')
        return
    sx.check(log == ['x'], 'called once')
    if kind == 'fail':
        sx.check(type(error) is Oops, 'errors are passed on')
        return
    sx.check(error is None, 'no error')
    if kind == 'none':
        sx.check(status.startswith('204') and body == b'', 'no content')
    elif kind == 'response':
        sx.check(status.startswith('418') and body == b'text', 'untouched')
    else:
        sx.check(status.startswith('200'), 'success')
        sx.check(json.loads(body.decode('utf-8')) ==
                 (data if kind == 'data' else False), 'the data')
        sx.check(dict(headers)['Content-Type'] == 'application/json',
                 'the type')


def h_class_view(sx):
    """views which are classes: the method of the name of the request's, up
    to 3 characters"""
    have = sx.choice('have', [['GET'], ['GET', 'POST'], ['DELETE', 'PUT'],
                              []])
    name = sx.choice('m', ['GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'name',
                           'get'])
    log = []

    def method(n):
        def call(self, app, req, v):
            log.append((n, v))
            return Response(n)
        return call
    cls = type('V', (ClassView,), {n: method(n) for n in have})
    view = cls()
    view.name = 'x'
    b = builder()
    b.add_bindings(view)
    status, headers, body, error = run(sx, b(''), environ('/x/q', name))
    if name in have:
        sx.check(log == [(name, 'q')] and body == name.encode('ascii'),
                 'the method of this name')
    elif name == 'HEAD' and 'GET' in have:
        sx.check(log == [('GET', 'q')] and body == b'', 'HEAD like GET')
    else:
        sx.check(log == [] and isinstance(error, HTTPException) and
                 error.code in (404, 405, 501), 'no method, no call')


def h_converters(sx):
    """converters that are added reach the routes; values of up to 3
    characters"""
    class Twice(BaseConverter):
        regex = '[ab]+'

        def to_python(self, value):
            return value + value
    v = sx.text('v', 3, 'abc', 1)
    b = ApplicationBuilder()
    b.add_converters(twice=Twice)
    b.add_routes(Route('/<twice:v>', endpoint='t'))
    log = []

    @b.expose('t')
    def view(app, req, v):
        log.append(v)
        return Response('x')
    status, headers, body, error = run(sx, b(''), environ('/' + v))
    if 'c' in v:
        sx.check(type(error) is NotFound, 'not matched')
    else:
        sx.check(log == [v + v], 'the converted value')


def h_negotiation(sx):
    """two views, and two handlers of an error, which differ in type,
    language or charset, in any order; what the request prefers is used"""
    dim, header, a, b_ = sx.choice('dim', [
        ('content_type', 'HTTP_ACCEPT', 'text/html', 'text/plain'),
        ('language', 'HTTP_ACCEPT_LANGUAGE', 'en', 'fr'),
        ('charset', 'HTTP_ACCEPT_CHARSET', 'utf-8', 'ascii')])
    values = [a, b_] if sx.bool('order') else [b_, a]
    b = ApplicationBuilder()
    b.add_routes(Route('/x', endpoint='x'))
    bound = []

    def make(value):
        def view(app, req):
            bound.append(req.binding)
            return Response(value)

        def handler(app, req, exc_type, exc_value, tb):
            return Response('error ' + value)
        b.expose('x', methods=['GET', 'POST'], **{dim: value})(view)
        b.exception_handler(NotFound, **{dim: value})(handler)
    for v in values:
        make(v)
    fail = sx.bool('fail')
    q = sx.str('q', 2, '0123456789')
    env = environ('/none' if fail else '/x',
                  sx.choice('method', ['GET', 'POST']))
    env[header] = '%s;q=0.%s,%s;q=0.%s' % (a, q[0], b_, q[1])
    status, headers, body, error = run(sx, b(''), env)
    if q[0] == '0' and q[1] == '0':
        sx.check(type(error) is (NotFound if fail else NotAcceptable),
                 'nothing is acceptable')
        return
    if q[0] == q[1]:
        want = values[1]
    else:
        want = a if q[0] > q[1] else b_
    text = ('error ' + want) if fail else want
    sx.check(error is None and body == text.encode('ascii'),
             'the one which is preferred')


def h_two(sx):
    """two requests at the same time, whose bodies are read in any order,
    and a third afterwards; segments of up to 2 characters"""
    log = []
    b = builder()

    @b.expose('x')
    def view(app, req, v):
        def close():
            log.append(('closed', v))
        req.call_on_close(close)

        def parts():
            yield req.path
            yield v
        return Response(parts())
    app = b('http://example.com')
    values = [sx.text('v0', 2, list('ab%'), 1), 'c', 'd']
    its, out = [], []
    for i in range(2):
        its.append(iter(app(environ('/x/' + values[i]),
                            lambda status, headers: None)))
        out.append([])
    for i in range(4):
        k = sx.choice('k%d' % i, [0, 1])
        try:
            out[k].append(next(its[k]))
        except StopIteration:
            pass
    stay = sx.bool('stay')
    for k in (0, 1):
        if stay:
            out[k].extend(its[k])
        its[k].close()
    status, headers, body, error = run(sx, app, environ('/x/d'))
    sx.check(body == b'/x/dd' and error is None, 'the third')
    for k in (0, 1):
        want = [('/x/' + values[k]).encode('ascii'),
                values[k].encode('ascii')]
        sx.check(out[k] == want[:len(out[k])], 'only its own')
        if stay:
            sx.check(out[k] == want, 'all of it')
        sx.check(log.count(('closed', values[k])) == (1 if out[k] else 0),
                 'closed once if it was started')
    sx.check(app.url_for('x', v=values[0]) ==
             '/x/' + values[0].replace('%', '%25'), 'urls')


def h_closing_iterator(sx):
    """iterators with clean up functions: none, one or several, of iterables
    with or without a close method, stopped after any item or by a failure"""
    log = []

    class Parts(object):
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            if self.n == fail:
                raise KeyError('broken')
            if self.n > 2:
                raise StopIteration()
            return b'abc'[self.n - 1:self.n]

    class Closable(Parts):
        def close(self):
            log.append('close')
    fail = sx.choice('fail', [None, 1, 2])
    cls = sx.choice('cls', [Parts, Closable])
    kind = sx.choice('kind', ['none', 'one', 'list', 'tuple', 'iter'])
    funcs = [lambda: log.append('f'), lambda: log.append('g')]
    arg = {'none': None, 'one': funcs[0], 'list': funcs,
           'tuple': tuple(funcs), 'iter': iter(funcs)}[kind]
    it = ClosingIterator(cls(), arg)
    sx.check(iter(it) is it, 'an iterator')
    got = []
    stop = sx.choice('stop', [0, 1, 5])
    failed = False
    try:
        for part in it:
            if len(got) == stop:
                break
            got.append(part)
    except KeyError:
        failed = True
    if stop == 5:
        sx.check(failed == (fail is not None), 'failures are passed on')
        sx.check(got == [b'a', b'b'][:(fail or 3) - 1], 'every item')
    sx.check(log == [], 'not before the end')
    it.close()
    want = {'none': [], 'one': ['f']}.get(kind, ['f', 'g'])
    sx.check(log == (['close'] if cls is Closable else []) + want,
             'everything is closed once, the iterable first')
    sx.check(len(funcs) == 2, 'the list of functions is left alone')


def h_again(sx):
    """handlers which fail, with errors of the class they handle or others:
    these are passed on and not handled again; the binding is known to the
    view and to the handler"""
    log = []
    b = builder()
    method = sx.choice('method', ['GET', 'POST'])
    kind = sx.choice('kind', ['same', 'base', 'other', 'raise', 'fine'])
    first = Worse('view')

    def view(app, req, v):
        log.append('view')
        sx.check(req.binding.name == 'x' and req.binding.method == method,
                 'the binding')
        raise first

    def handle(app, req, exc_type, exc_value, tb):
        log.append('handler')
        sx.check(exc_value is first and exc_type is Worse, 'the error')
        sx.check(req.binding.name == 'x', 'the binding is still known')
        if kind == 'raise':
            raise exc_value
        if kind == 'fine':
            return Response('fine')
        raise {'same': Worse, 'base': Oops, 'other': KeyError}[kind]('again')
    b.expose('x', methods=['GET', 'POST'])(view)
    b.exception_handler(sx.choice('cls', [Worse, Oops, Exception]))(handle)
    status, headers, body, error = run(sx, b(''), environ('/x/a', method))
    sx.check(log == ['view', 'handler'], 'each is called once')
    if kind == 'fine':
        sx.check(error is None and body == b'fine', 'answered')
    elif kind == 'raise':
        sx.check(error is first and status is None, 'the first error')
    else:
        sx.check(error is not first and error.args == ('again',) and
                 status is None, 'the error of the handler')


def h_builders(sx):
    """two builders have nothing in common, whatever is added to one"""
    one, two = builder(), builder()
    two.expose('x')(lambda app, req, v: Response(v))
    what = sx.choice('what', ['converter', 'config', 'route', 'binding',
                              'handler', 'middleware', 'mixin'])
    if what == 'converter':
        class Two(BaseConverter):
            regex = '2'
        one.add_converters(default=Two, string=Two)
    elif what == 'config':
        one.config['k'] = 1
    elif what == 'route':
        one.add_routes(Route('/late', endpoint='x'))
    elif what == 'binding':
        one.expose('x')(lambda app, req, v: Response('one'))
    elif what == 'handler':
        one.exception_handler(NotFound)(
            lambda app, req, t, e, tb: Response('handled'))
    elif what == 'middleware':
        one.add_middleware(lambda app: None)
    else:
        one.add_application_mixins(type('Late', (), {'late': 1}))
        one.add_request_mixins(type('Late', (), {'late': 1}))
    if sx.bool('built'):
        one('')
    app = two('')
    sx.check(len(app.config) == 0, 'no settings')
    sx.check(not hasattr(app, 'late') and
             not hasattr(app.request_class, 'late'), 'no mixins')
    status, headers, body, error = run(sx, app, environ('/x/a'))
    sx.check(body == b'a' and error is None, 'its own view')
    status, headers, body, error = run(sx, app, environ('/late'))
    sx.check(type(error) is NotFound, 'its own routes and handlers')


def h_threads(sx):
    """one application serving two threads, the second at any line of the
    first: views and handlers that see their own request and values"""
    b = builder()

    @b.expose('x')
    def x(app, request, v):
        if v == 'bad':
            raise Oops()
        return Response('x ' + v + ' ' + request.path)

    @b.exception_handler(Oops)
    def oops(app, request, *exc):
        return Response('oops ' + request.path, status=500)

    @b.exception_handler(HTTPException)
    def http(app, request, *exc):
        return Response('no ' + request.path, status=404)
    app = b()
    todo = ['/x/a', '/x/bad', '/y']
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def serve(path):
        calls = []
        it = app(environ(path), lambda status, headers, exc_info=None:
                 calls.append((status, list(headers))))
        body = b''.join(it)
        if hasattr(it, 'close'):
            it.close()
        return calls, body

    def both():
        return (lambda: serve(one)), (lambda: serve(two))
    sx.interleave('at', both, 'both threads get their own response')


def h_inner(sx):
    """a view that asks its own application for another page, before it
    returns or raises"""
    b = builder()
    ends = sx.choice('ends', ['return', 'raise', 'nothing'])
    inner = sx.choice('inner', ['/x/in', '/x/bad', '/y'])
    log = []

    @b.expose('x')
    def x(app, request, v):
        if v == 'bad':
            raise Oops()
        if v == 'in':
            return Response('in')
        s, h, body, error = run(sx, app, environ(inner))
        log.append((s[:3], body))
        if ends == 'raise':
            raise Oops()
        return Response('out ' + v + request.path)

    @b.exception_handler(Oops)
    def oops(app, request, *exc):
        return Response('oops ' + request.path, status=500)

    @b.exception_handler(HTTPException)
    def http(app, request, *exc):
        return Response('no ' + request.path, status=404)
    s, h, body, error = run(sx, b(), environ('/x/o'))
    sx.check(error is None, 'no error')
    sx.check(log == [{'/x/in': ('200', b'in'),
                      '/x/bad': ('500', b'oops /x/bad'),
                      '/y': ('404', b'no /y')}[inner]],
             'the inner request is served')
    sx.check((s[:3], body) == (
        ('500', b'oops /x/o') if ends == 'raise'
        else ('200', b'out o/x/o')), 'and so is the outer')
