"""A request is dispatched to a binding with its name and method.

Outside the bounds: more than four bindings, content negotiation (C08).
"""
import json
from verktyg.dispatch import Dispatcher, Binding
from verktyg.views import View, ClassView, JsonView, expose, expose_json
from verktyg.exceptions import (
    NotImplemented, MethodNotAllowed, NotAcceptable,
)
from verktyg.responses import Response

METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'OPTIONS']


def pick(sx, name, opts):
    return sx.choice(name, opts)


def lookup(d, name, method):
    try:
        return d.lookup(name, method)
    except NotImplemented:
        return 'not implemented'
    except MethodNotAllowed as e:
        works = set()
        for b in d.get_bindings():
            if b.name == name:
                works.add(b.method)
                if b.method == 'GET':
                    works.add('HEAD')
        if list(e.valid_methods) != sorted(works):
            return 'wrong methods listed'
        return 'method not allowed'


def expected(bindings, name, method):
    """independent reading of the rules"""
    named = [b for b in bindings if b.name == name]
    if not named:
        return 'not implemented'
    found = [b for b in named if b.method == method]
    if not found and method == 'HEAD':
        found = [b for b in named if b.method == 'GET']
    if not found:
        return 'method not allowed'
    return found[-1]


def h_lookup(sx):
    """up to 3 bindings with any of 2 names and 4 methods, any lookup"""
    bs = []
    for i in range(sx.choice('n', range(4))):
        bs.append(Binding(sx.choice('name%d' % i, ['a', 'b']),
                          lambda app, req: None,
                          method=sx.choice('method%d' % i, METHODS[:3])))
    name = sx.choice('name', ['a', 'b', 'c'])
    method = sx.choice('method', METHODS)
    nested = sx.choice('nested', [0, 1])
    d = Dispatcher(bs)
    if nested:
        d = Dispatcher([d])
    got = lookup(d, name, method)
    want = expected(bs, name, method)
    sx.check(got is want or got == want,
             'name and method decide; HEAD falls back to GET; last wins')
    sx.check(list(d.get_bindings()) == bs, 'every binding is listed')


def h_names(sx):
    """names and methods are compared exactly: texts of up to 2 characters"""
    n1 = sx.text('n1', 2, sx.UNI)
    n2 = sx.text('n2', 2, sx.UNI)
    m1 = sx.choice('m1', ['GET', 'POST'])
    m2 = sx.text('m2', 3, list('GETHAD'))
    b = Binding(n1, lambda app, req: None, method=m1)
    got = lookup(Dispatcher([b]), n2, m2)
    if n1 != n2:
        sx.check(got == 'not implemented', 'unknown name')
    elif m1 == m2:
        sx.check(got is b, 'found')
    else:
        sx.check(got == 'method not allowed', 'wrong method')


def h_head(sx):
    """a HEAD binding is preferred to GET; GET is used without one"""
    has_head = sx.bool('head')
    has_get = sx.bool('get')
    d = Dispatcher()
    d.add_bindings(Binding('x', lambda a, r: 'post', method='POST'))
    if has_get:
        d.add_bindings(Binding('x', lambda a, r: 'get', method='GET'))
    if has_head:
        d.add_bindings(Binding('x', lambda a, r: 'head', method='HEAD'))
    got = lookup(d, 'x', 'HEAD')
    if has_head:
        sx.check(got(None, None) == 'head', 'head binding')
    elif has_get:
        sx.check(got(None, None) == 'get', 'get binding for head')
    else:
        sx.check(got == 'method not allowed', 'never another method')


def h_views(sx):
    """views answer exactly the methods they list; arguments are passed"""
    form = sx.choice('form', ['default', 'str', 'list', 'class'])
    method = sx.choice('method', METHODS)
    calls = []

    def action(app, req, **kw):
        calls.append((app, req, kw))
        return 'r'
    if form == 'class':
        class V(ClassView):
            name = 'v'

            def GET(self, app, req, **kw):
                return action(app, req, **kw)

            def PUT(self, app, req, **kw):
                return action(app, req, **kw)
        view = V()
        allowed = {'GET', 'PUT'}
    else:
        kw = {'default': {}, 'str': {'methods': 'POST'},
              'list': {'methods': ['PUT', 'HEAD']}}[form]
        allowed = {'default': {'GET'}, 'str': {'POST'},
                   'list': {'PUT', 'HEAD'}}[form]
        view = View('v', action, **kw)
    d = Dispatcher([view])
    got = lookup(d, 'v', method)
    ok = method in allowed or (method == 'HEAD' and 'GET' in allowed)
    if ok:
        arg = sx.text('arg', 2, sx.UNI)
        sx.check(got('app', 'req', x=arg) == 'r', 'result is passed back')
        sx.check(calls == [('app', 'req', {'x': arg})],
                 'called once with its arguments')
    else:
        sx.check(got == 'method not allowed', 'other methods are refused')


def h_quality(sx):
    """views of any quality, zero included, created in any way compete with
    these"""
    made = []
    d = Dispatcher()
    for i in range(2):
        qs = sx.choice('qs%d' % i, [None, 0, 0.0, 0.5, 1, 1.0])
        how = sx.choice('how%d' % i, ['binding', 'view', 'json', 'expose',
                                      'exposejson', 'nested'])
        made.append(1.0 if qs is None else float(qs))

        def action(app, req, i=i):
            return Response(str(i))
        kw = {} if qs is None else {'qs': qs}
        if how == 'binding':
            d.add_bindings(Binding('n', action,
                                   content_type='application/json', **kw))
        elif how == 'view':
            d.add_bindings(View('n', action, content_type='application/json',
                                **kw))
        elif how == 'json':
            d.add_bindings(JsonView('n', action, **kw))
        elif how == 'expose':
            expose(d, 'n', content_type='application/json', **kw)(action)
        elif how == 'exposejson':
            expose_json(d, 'n', **kw)(action)
        else:
            d.add_bindings(Dispatcher([View(
                'n', action, content_type='application/json', **kw)]))
    got = d.lookup('n')(None, None).get_data()
    sx.check(got == (b'0' if made[0] > made[1] else b'1'),
             'the best, or the last')


class Parent(ClassView):
    name = 'n'

    def GET(self, app, req):
        return 'parent get'

    def PUT(self, app, req):
        return 'parent put'


class Child(Parent):
    def PUT(self, app, req):
        return 'child put'

    def DELETE(self, app, req):
        return 'child delete'


class Other(object):
    def POST(self, app, req):
        return 'other post'


class Mixed(Other, Child):
    name = 'm'


def h_inherited(sx):
    """class based views with methods of base classes, mixins and instances"""
    view = sx.choice('view', [Parent, Child, Mixed])()
    name = 'm' if isinstance(view, Mixed) else 'n'
    works = {'GET': 'parent get', 'PUT': 'parent put'}
    if isinstance(view, Child):
        works['PUT'] = 'child put'
        works['DELETE'] = 'child delete'
    if isinstance(view, Mixed):
        works['POST'] = 'other post'
    if sx.bool('own'):
        view.HEAD = lambda app, req: 'own head'
        works['HEAD'] = 'own head'
    else:
        works['HEAD'] = works['GET']
    for m in METHODS + ['DELETE', 'name', 'get_bindings']:
        got = lookup(Dispatcher([view]), name, m)
        if m in works:
            sx.check(got(None, None) == works[m], 'the method')
        else:
            sx.check(got == 'method not allowed', 'no others')
    sx.check(lookup(Dispatcher([view]), 'x' + name, 'GET') ==
             'not implemented', 'other names')


def h_expose(sx):
    """expose registers the function and returns it"""
    d = Dispatcher()
    name = sx.text('name', 2, sx.UNI)

    def f(app, req):
        return 7
    sx.check(expose(d, name, methods='PUT')(f) is f, 'decorator returns f')
    sx.check(lookup(d, name, 'PUT')(None, None) == 7, 'bound to the name')
    sx.check(lookup(d, name, 'GET') == 'method not allowed', 'method kept')


def h_texts(sx):
    """up to 3 bindings of one name; methods are any of 9 texts, types and
    nesting as well"""
    names = ['GET', 'M-SEARCH', 'get', 'Head', '', 'PATCH', 'TRACE', 'X1',
             'GE']
    bs, types = [], []
    for i in range(sx.choice('n', [1, 2, 3])):
        types.append(sx.choice('t%d' % i, ['a/a', 'b/b']))
        bs.append(Binding('n', lambda app, req: None,
                          method=sx.choice('m%d' % i, names[:sx.t(6, 9)]),
                          content_type=types[i]))
    d = Dispatcher()
    cut = sx.choice('cut', [0, 1, 2])
    d.add_bindings(Dispatcher(bs[:cut]), *bs[cut:])
    sx.check(list(d.get_bindings()) == bs, 'every binding is listed')
    method = sx.choice('method', names[:6])
    accept = sx.choice('accept', ['a/a', 'b/b'])
    found = [b for b in bs if b.method == method]
    works = {b.method for b in bs}
    if 'GET' in works:
        works.add('HEAD')
    good = [b for b, t in zip(bs, types) if b in found and t == accept]
    try:
        got = d.lookup('n', method, accept=accept)
    except MethodNotAllowed as e:
        sx.check(not found, 'the method is known')
        sx.check(list(e.valid_methods) == sorted(works), 'methods that work')
    except NotAcceptable:
        sx.check(found and not good, 'nothing acceptable')
    else:
        sx.check(good and got is good[-1], 'the last that is acceptable')


def h_containers(sx):
    """methods of views in any container; bindings can be listed again and
    do not change afterwards"""
    methods = sx.choice('methods', [['GET'], ['PUT', 'HEAD'], ['M-SEARCH'],
                                    [], ['POST', 'POST'], ['X']])
    kind = sx.choice('kind', ['list', 'tuple', 'set', 'generator', 'str',
                              'iter'])
    given = list(methods)
    if kind == 'str':
        sx.assume(len(methods) == 1)
        arg = methods[0]
    else:
        arg = {'list': given, 'tuple': tuple(methods), 'set': set(methods),
               'generator': (m for m in methods),
               'iter': iter(methods)}[kind]
    cls = sx.choice('cls', [View, JsonView])
    view = cls('v', lambda app, req: Response('r'), methods=arg)
    if kind == 'list':
        given.append('LATER')
    want = sorted(set(methods))
    for _ in range(2):
        got = list(view.get_bindings())
        sx.check(sorted(b.method for b in got) == want, 'these methods')
        for b in got:
            sx.check(b.name == 'v', 'the name')
            sx.check(b(None, None).get_data() == b'r', 'the action')
    d = Dispatcher([view])
    d2 = Dispatcher([view, d])
    for m in want:
        sx.check(d.lookup('v', m)(None, None).get_data() == b'r', 'bound')
        sx.check(d2.lookup('v', m)(None, None).get_data() == b'r', 'again')


def h_json(sx):
    """data that views return, falsy values included"""
    data = sx.choice('data', [
        None, [], {}, 0, 0.0, '', False, True, 'x', [None], {'a': ''}, '\xe4',
        'response', 'empty response'])
    seen = []

    def action(app, req, *args, **kw):
        seen.append((app, req, args, kw))
        if data == 'response':
            return Response('text', status=299)
        if data == 'empty response':
            return Response('', status=200)
        return data
    view = JsonView('v', action)
    r = view('app', 'req', 1, k=2)
    sx.check(seen == [('app', 'req', (1,), {'k': 2})], 'the arguments')
    sx.check(isinstance(r, Response), 'a response')
    if data is None:
        sx.check(r.status_code == 204 and r.get_data() == b'', 'no content')
    elif data == 'response':
        sx.check(r.status_code == 299 and r.get_data() == b'text', 'as it is')
    elif data == 'empty response':
        sx.check(r.status_code == 200 and r.get_data() == b'', 'as it is')
    else:
        sx.check(r.status_code == 200, 'success')
        back = json.loads(r.get_data().decode('utf-8'))
        sx.check(back == data and type(back) is type(data), 'the data')
        sx.check(r.content_type == 'application/json', 'the type')


def h_keys(sx):
    """names are any values: numbers, texts, pairs, None; which are different
    unless equal"""
    names = [1, '1', None, 'None', '', 0, ('a',), 'a', b'a', frozenset('a')]
    n1, n2 = sx.choice('n1', names), sx.choice('n2', names)
    b1 = Binding(n1, lambda app, req: 1)
    b2 = Binding(n2, lambda app, req: 2)
    first, method = Dispatcher([b1]), sx.choice('method', ['GET', 'POST'])
    got = lookup(first, n2, method)
    if n1 != n2:
        sx.check(got == 'not implemented', 'another name')
    elif method == 'GET':
        sx.check(got is b1, 'the name')
    else:
        sx.check(got == 'method not allowed', 'only the method')
    both = Dispatcher([b1, b2])
    sx.check(both.lookup(n1) is (b2 if n1 == n2 else b1), 'the first name')
    sx.check(both.lookup(n2) is b2, 'the second name')


class Special(Response):
    pass


def h_results(sx):
    """views of data pass on responses of any class as they are; methods of
    views are kept as they are, up to 3 characters"""
    cls = sx.choice('cls', [Response, Special])
    r = cls('x', status=sx.choice('status', [200, 204, 404]))
    m = sx.text('m', 3, 'aGx', 1)
    view = JsonView('n', lambda app, req: r, methods=sx.choice(
        'form', [m, [m], (m, m), {m}, iter([m])]))
    b, = view.get_bindings()
    sx.check(b.method == m, 'the method')
    d = Dispatcher([view])
    sx.check(d.lookup('n', m)(None, None) is r, 'the response')
    if m != 'xx':
        sx.check(lookup(d, 'n', 'xx') == 'method not allowed', 'no others')


def h_history(sx):
    """bindings added and looked up in turns are found like those of a new
    dispatcher: 3 bindings of 2 names and 3 methods"""
    d = Dispatcher()
    bs = []
    for i in range(3):
        bs.append(Binding(sx.choice('name%d' % i, 'ab'), str(i),
                          method=sx.choice('method%d' % i,
                                           ['GET', 'POST', 'HEAD'])))
        d.add_bindings(bs[-1])
        for name in 'ab':
            for method in ('GET', 'HEAD', 'POST'):
                sx.check(lookup(d, name, method) ==
                         lookup(Dispatcher(bs), name, method),
                         'whatever was looked up before')


def h_threads(sx):
    """two threads looking up bindings, the second at any line of the
    first"""
    todo = [('a', 'GET'), ('a', 'POST'), ('a', 'PUT'), ('b', 'HEAD'),
            ('c', 'GET')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def both():
        return (lambda: lookup(d, *one)), (lambda: lookup(d, *two))
    d = Dispatcher([
        Binding('a', 0, method='GET'), Binding('a', 1, method='POST'),
        Binding('b', 2, method='GET'), Binding('b', 3, method='POST'),
        Binding('c', 4, method='POST'),
    ])
    sx.interleave('at', both, 'both threads get their own binding')


def h_factories(sx):
    """factories whose bindings can be had once only, or which fail after 0
    to 2 of them: what is listed can be looked up"""
    n = sx.choice('bindings', [1, 2, 3])
    fails = sx.choice('fails', [None, 0, 1, 2])
    methods = ['GET', 'POST', 'PUT'][:n]
    calls = []

    class Factory(object):
        def get_bindings(self):
            calls.append(1)
            for i, m in enumerate(methods):
                if i == fails:
                    raise KeyError('factory')
                if len(calls) == 1:
                    yield Binding('a', i, method=m)
    d = Dispatcher([Binding('b', 9)])
    try:
        d.add_bindings(Factory())
        sx.check(fails is None or fails >= n, 'errors are passed on')
    except KeyError:
        sx.check(fails is not None and fails < n, 'no other errors')
    listed = [(b.name, b.method, b.action) for b in d.get_bindings()]
    if fails is None or fails >= n:
        sx.check(len(listed) == n + 1, 'all are listed')
    for i, m in enumerate(['GET', 'POST', 'PUT']):
        got = lookup(d, 'a', m)
        if ('a', m, i) in listed:
            sx.check(got.action == i, 'what is listed can be found')
        else:
            sx.check(isinstance(got, (str, tuple)), 'and nothing else')
    sx.check(lookup(d, 'b', 'GET').action == 9, 'others are not touched')
