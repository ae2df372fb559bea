"""Building a URL uses every value that was given, and fails exactly when no
route of the endpoint can take the values.

Outside the bounds: longer values, more than two extra values, other rules.
"""
from urllib.parse import parse_qsl

from verktyg.routing import (
    URLMap, Route, BuildError, Submount, Subdomain, EndpointPrefix,
    RouteTemplate,
)
from verktyg.datastructures import MultiDict
from verktyg.exceptions import NotFound


def make(**kw):
    return URLMap([
        Route('/', endpoint='index'),
        Route('/e/<a>', endpoint='e'),
        Route('/e/<a>/<b>', endpoint='e'),
        Route('/d/', endpoint='d', defaults={'page': 1}),
        Route('/d/<int:page>', endpoint='d'),
        Route('/o', endpoint='o', build_only=True),
    ], **kw)


def split(url):
    path, mark, query = url.partition('?')
    return path, parse_qsl(query, keep_blank_values=True)


def h_query(sx):
    """up to two unknown values with keys of 1 and values of 0..2
    characters"""
    vals = {}
    for i in range(sx.choice('n', range(3))):
        key = sx.str('key%d' % i, 1, sx.UNI)
        vals[key] = sx.text('val%d' % i, sx.t(1, 2), sx.UNI)
    sx.assume('a' not in vals and 'b' not in vals)
    ep = sx.choice('endpoint', ['index', 'e'])
    given = dict(vals)
    if ep == 'e':
        given['a'] = 'x'
    url = make().bind('h', '/').build(ep, given)
    path, query = split(url)
    sx.check(path == {'index': '/', 'e': '/e/x'}[ep], 'the path is right')
    sx.check(len(query) == len(vals) and
             all(vals.get(k) == v for k, v in query),
             'every unknown value is in the query, and nothing else')
    sx.check(make().bind('h', '/').build(ep, given, append_unknown=False)
             == path, 'append_unknown=False leaves them out')


def h_lists(sx):
    """list values and multi dicts: all values in order; None left out"""
    n = sx.choice('n', range(4))
    items = [sx.str('v%d' % i, 1, sx.UNI) for i in range(n)]
    form = sx.choice('form', ['list', 'multi', 'none'])
    if form == 'list':
        vals = {'q': items, 'a': 'x'}
    elif form == 'multi':
        vals = MultiDict([('a', 'x')] + [('q', v) for v in items])
    else:
        vals = {'q': None, 'a': 'x'}
        items = []
    path, query = split(make().bind('h', '/').build('e', vals))
    sx.check(path == '/e/x', 'the path is right')
    sx.check(query == [('q', v) for v in items],
             'all values of a list appear in order')


def h_types(sx):
    """extra values that are integers"""
    n = sx.int('n', -99, 999)
    path, query = split(make().bind('h', '/').build('index', {'n': n}))
    sx.check(path == '/' and query == [('n', str(n))], 'integers are text')


def h_builderror(sx):
    """endpoints e, d, o and an unknown one with any subset of values"""
    ep = sx.choice('endpoint', ['e', 'd', 'o', 'missing', 'index'])
    vals = {}
    if sx.bool('a'):
        vals['a'] = 'x'
    if sx.bool('b'):
        vals['b'] = 'y'
    if sx.bool('page'):
        vals['page'] = sx.int('p', 0, 99)
    bound = make(redirect_defaults=sx.bool('rd')).bind('h', '/')
    try:
        url = bound.build(ep, vals, append_unknown=False)
    except BuildError as e:
        sx.check(e.endpoint == ep, 'the error names the endpoint')
        url = None
    if ep == 'missing' or (ep == 'e' and 'a' not in vals):
        want = None
    elif ep == 'e':
        want = '/e/x/y' if 'b' in vals else '/e/x'
    elif ep == 'd':
        p = vals.get('page', 1)
        want = '/d/' if p == 1 else '/d/%d' % p
    elif ep == 'o':
        want = '/o'
    else:
        want = '/'
    sx.check(url == want, 'the best suitable route or a build error')


def h_factories(sx):
    """route factories keep every option of the routes they wrap"""
    inner = Route('/{n}/x/<v>/', endpoint='{n}.ep', defaults={'d': '{n}'},
                  strict_slashes=sx.choice('strict', [True, False]),
                  build_only=sx.bool('build_only') and True,
                  alias=sx.bool('alias') and True,
                  redirect_to=sx.choice('redirect', [None, 'y/<v>']),
                  host=sx.choice('host', [None, 'h.com']),
                  subdomain=sx.choice('sub', [None, 's']))
    kind = sx.choice('kind', ['template', 'submount', 'subdomain', 'prefix'])
    name = 'n'
    rule, ep, sub, d = '/{n}/x/<v>/', '{n}.ep', inner.subdomain, '{n}'
    if kind == 'template':
        fac = RouteTemplate([inner])(n=name)
        rule, ep, d = '/n/x/<v>/', 'n.ep', 'n'
    elif kind == 'submount':
        fac = Submount('/pre/', [inner])
        rule = '/pre' + rule
    elif kind == 'subdomain':
        fac = Subdomain('dom', [inner])
        sub = 'dom'
    else:
        fac = EndpointPrefix('p/', [inner])
        ep = 'p/' + ep
    out = list(fac.get_routes(None))
    sx.check(len(out) == 1, 'one route')
    r = out[0]
    sx.check(r is not inner, 'factories copy routes')
    sx.check(r.route == rule and r.endpoint == ep and r.subdomain == sub and
             r.defaults == {'d': d}, 'rule, endpoint, subdomain, defaults')
    sx.check(r.strict_slashes is inner.strict_slashes, 'strict_slashes')
    sx.check(bool(r.build_only) == bool(inner.build_only), 'build_only')
    sx.check(bool(r.alias) == bool(inner.alias), 'alias')
    sx.check(r.redirect_to == inner.redirect_to, 'redirect_to')
    sx.check(r.host == inner.host, 'host')
    sx.check(not r.is_leaf, 'is_leaf')


def h_template(sx):
    """template values of 1..2 characters end up in rule and endpoint"""
    n = sx.text('n', 2, sx.LOWER, 1)
    m = URLMap([RouteTemplate([
        Route('/{n}/<v>', endpoint='{n}.show'),
        Submount('/s', [EndpointPrefix('p', [
            Route('/{n}', endpoint='{n}')])]),
    ])(n=n)])
    a = m.bind('h', '/')
    sx.check(a.build(n + '.show', {'v': 'q'}) == '/' + n + '/q', 'built')
    sx.check(a.match('/' + n + '/q') == (n + '.show', {'v': 'q'}), 'matched')
    sx.check(a.build('p' + n) == '/s/' + n, 'nested built')


def h_expecting(sx):
    """is_endpoint_expecting names exactly the arguments of the routes"""
    ep = sx.choice('endpoint', ['e', 'd', 'index', 'f'])
    args = [x for x in ('a', 'b', 'page') if sx.bool(x)]
    sets = {'e': [{'a'}, {'a', 'b'}], 'd': [{'page'}, {'page'}],
            'index': [set()], 'f': [{'a', 'b'}, {'page'}, {'b'}]}[ep]
    want = any(set(args) <= s for s in sets)
    m = make()
    m.add_routes(Route('/f/<a>/<b>', endpoint='f'),
                 Route('/f/<int:page>', endpoint='f'),
                 Route('/f2/', endpoint='f', defaults={'b': 1}))
    sx.check(m.is_endpoint_expecting(ep, *args) == want, 'expected')
    if sx.bool('built'):
        m.bind('h').match('/')
        sx.check(m.is_endpoint_expecting(ep, *args) == want, 'expected')


def h_best(sx):
    """routes of one endpoint with zero to two variables, two aliases and
    defaults, in six orders: the route with the most values that fits"""
    routes = [Route('/n', endpoint='x'), Route('/a/<a>', endpoint='x'),
              Route('/ab/<a>/<b>', endpoint='x'),
              Route('/old/<a>', endpoint='x', alias=True),
              Route('/older/<a>/<c>', endpoint='x', alias=True),
              Route('/d', endpoint='x', defaults={'a': ''})]
    i = sx.choice('rotate', range(6))
    routes = routes[i:] + routes[:i]
    if sx.bool('reversed'):
        routes = routes[::-1]
    a = URLMap(routes).bind('h')
    vals = {}
    if sx.bool('a'):
        vals['a'] = sx.choice('av', ['', '0', 'q'])
    if sx.bool('b'):
        vals['b'] = sx.choice('bv', ['', 'r'])
    if sx.bool('c'):
        vals['c'] = 'z'
    sx.assume(not (vals.get('a') == '' and 'b' in vals))
    url = a.build('x', vals)
    path, query = split(url)
    rest = dict(query)
    if 'a' in vals and 'b' in vals:
        want, used = '/ab/%s/%s' % (vals['a'], vals['b']), 'ab'
    elif vals.get('a', '') == '':
        want, used = '/d', 'a'
    else:
        want, used = '/a/' + vals['a'], 'a'
    sx.check(path == want, 'the route that takes the most values')
    sx.check(rest == {k: v for k, v in vals.items() if k not in used},
             'other values are in the query')


def h_nothing(sx):
    """None among values of dicts and multi dicts; the values given are not
    changed"""
    pairs = []
    for i in range(sx.choice('n', range(4))):
        pairs.append((sx.choice('k%d' % i, ['a', 'q']),
                      sx.choice('v%d' % i, [None, '', 'x', 0])))
    multi = sx.bool('multi')
    vals = MultiDict(pairs) if multi else dict(pairs)
    before = (list(vals.items(multi=True)) if multi else dict(vals))
    if not multi:
        pairs = list(vals.items())
    url = make().bind('h').build('index', vals)
    path, query = split(url)
    sx.check(path == '/' and query == sorted(
        [(k, str(v)) for k, v in pairs if v is not None],
        key=lambda p: p[0]), 'every value other than None')
    sx.check((list(vals.items(multi=True)) if multi else vals) == before,
             'the values given are left alone')


def h_charset(sx):
    """queries in utf-8, latin-1 and cp1251: key of 1, value of 0..2
    characters"""
    charset, alphabet = sx.choice('charset', [
        ('utf-8', '\xfc\u20acx &='), ('latin-1', '\xfc\xffx &='),
        ('cp1251', '\u0436\u044fx &=')])
    k = sx.text('k', 1, alphabet, 1)
    v = sx.text('v', 2, alphabet)
    url = make(charset=charset).bind('h').build('index', {k: v})
    sx.check(all('!' <= c <= '~' for c in url), 'plain ascii')
    path, mark, query = url.partition('?')
    sx.check(path == '/' and parse_qsl(query, keep_blank_values=True,
                                       encoding=charset) == [(k, v)],
             'the value in the charset of the map')


def h_reuse(sx):
    """templates and factories used twice, with a list, tuple or generator
    of routes, string and other defaults, and an empty subdomain"""
    inner = [Route('/{n}/', endpoint='{n}', subdomain='',
                   defaults={'p': sx.choice('d', [0, 1, None, 2.5, True]),
                             't': '{n}'})]
    d = inner[0].defaults['p']
    kind = sx.choice('kind', ['list', 'tuple', 'generator'])
    if kind == 'tuple':
        inner = tuple(inner)
    elif kind == 'generator':
        inner = iter(inner)
    t = RouteTemplate(inner)
    m = URLMap([t(n='a'), Submount('/s', [t(n='b')]),
                EndpointPrefix('p/', [t({'n': 'c'})]),
                Subdomain('', [t({'n': 'e'}, x=1)])],
               default_subdomain='www')
    path, ep, n = sx.choice('which', [
        ('/a/', 'a', 'a'), ('/s/b/', 'b', 'b'), ('/c/', 'p/c', 'c'),
        ('/e/', 'e', 'e')])
    a = m.bind('h', subdomain='')
    got = a.match(path)
    sx.check(got == (ep, {'p': d, 't': n}) and
             type(got[1]['p']) is type(d), 'matched with its defaults')
    sx.check(a.build(ep) == path, 'built')
    try:
        m.bind('h').match(path)
    except NotFound:
        return
    sx.fail('only on its own subdomain')


def h_submount(sx):
    """submounts at any path of up to 4 characters, with and without slashes
    at its end, also within another one"""
    rest = sx.text('rest', 3, 'a/')
    sx.assume('//a' not in '/' + rest)
    inner = sx.choice('inner', ['/', '/b', '/b/'])
    fac = Submount('/' + rest, [Route(inner, endpoint='e')])
    want = ('/' + rest).rstrip('/') + inner
    if sx.bool('nested'):
        fac = Submount('/o/', [fac])
        want = '/o' + want
    out = list(fac.get_routes(None))
    sx.check(len(out) == 1 and out[0].route == want, 'the rule')
    a = URLMap([fac]).bind('h', '/')
    sx.check(a.build('e') == want and a.match(want) == ('e', {}), 'its url')


def h_sorted(sx):
    """the order of the query: by name, or by the key of the map"""
    a, b = sx.text('a', 1, '12', 1), sx.text('b', 1, '12', 1)
    how = sx.choice('how', [None, 'value', 'name'])
    key = {None: None, 'value': lambda i: (i[1], i[0]),
           'name': lambda i: [-ord(c) for c in i[0]]}[how]
    kw = {'sort_key': key} if how or sx.bool('given') else {}
    m = make(sort_parameters=sx.bool('sort'), **kw)
    pairs = [('b', b), ('a', a)]
    if sx.bool('swap'):
        pairs.reverse()
    path, query = split(m.bind('h', '/').build('index', dict(pairs)))
    if how == 'value' and b < a or how == 'name':
        want = [('b', b), ('a', a)]
    else:
        want = [('a', a), ('b', b)]
    sx.check(query == want, 'in order')


def h_accepts(sx):
    """numbers of -3..120 and text of up to 2 characters for rules that only
    take some values, with or without a rule that takes any text"""
    rule = sx.choice('rule', ['int', 'int(min=2,max=5)', 'int(max=0)',
                              'int(fixed_digits=2)', 'float(max=1.5)',
                              'any(a,b1)'])
    if sx.bool('number'):
        v = sx.int('n', -3, 120)
        number = v
    else:
        v = sx.text('v', 2, 'ab1-', 1)
        try:
            number = int(v)
        except ValueError:
            number = None
    routes = [Route('/p/<' + rule + ':x>', endpoint='e')]
    if sx.bool('other'):
        routes.append(Route('/z/<x>', endpoint='e'))
    a = URLMap(routes).bind('h')
    if rule == 'any(a,b1)':
        want = '/p/' + v if v in ('a', 'b1') else None
        back = v
    elif number is None or number < 0:
        want = None
    else:
        low, high = {'int(min=2,max=5)': (2, 5), 'int(max=0)': (0, 0),
                     'int(fixed_digits=2)': (0, 99),
                     'float(max=1.5)': (0, 1)}.get(rule, (0, 120))
        want = None
        if low <= number and number <= high:
            want = '/p/' + str(number)
            if rule == 'int(fixed_digits=2)' and number < 10:
                want = '/p/0' + str(number)
            elif rule[0] == 'f':
                want += '.0'
            back = number
    if want is None and len(routes) == 2:
        want = '/z/' + str(v)
        back = str(v)
    try:
        url = a.build('e', {'x': v})
    except BuildError:
        url = None
    sx.check(url == want, 'the first rule that takes the value')
    if url is not None:
        sx.check(a.match(url) == ('e', {'x': back}), 'routed back')


def h_history(sx):
    """2 (thorough 3) urls built in a row by one adapter are those that new
    adapters build: 3 endpoints, values of several types that may be equal"""
    a = make().bind('h', '/')
    values = [{}, {'a': 'x'}, {'a': 'x', 'b': 'y'}, {'a': 'z', 'b': 'y'},
              {'page': 1}, {'page': 2}, {'page': True}, {'page': '1'},
              {'a': '1'}, {'a': 1}, {'a': 1.0}]
    for i in range(sx.t(2, 3)):
        ep = sx.choice('ep%d' % i, ['index', 'e', 'd'])
        given = sx.choice('v%d' % i, values)
        kw = sx.choice('kw%d' % i, [{}, {'append_unknown': False}]
                       if i else [{}])
        try:
            want = make().bind('h', '/').build(ep, dict(given), **kw)
        except BuildError:
            want = None
        try:
            got = a.build(ep, dict(given), **kw)
        except BuildError:
            got = None
        sx.check(got == want, 'whatever was built before')


def h_threads(sx):
    """two threads building urls on one map, the second at any line of the
    first"""
    todo = [('e', {'a': 'x'}), ('e', {'a': 'y'}), ('e', {'a': 'x', 'b': 'z'}),
            ('d', {'page': 2}), ('d', {'page': 1}), ('e', {'a': 'q', 'c': 1}),
            ('e', {})]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def build(a, ep, given):
        try:
            return a.build(ep, dict(given))
        except BuildError:
            return None

    def both():
        a = m.bind('h', '/')
        return (lambda: build(a, *one)), (lambda: build(a, *two))
    m = make()
    sx.interleave('at', both, 'both threads get their own url')


class Building(object):
    """builds another url while it is inserted into one"""
    def __init__(self, adapter, text):
        self.adapter = adapter
        self.text = text

    def __str__(self):
        return self.text + self.adapter.build('e', {'a': 'i', 'b': 'j'})[3:]


def h_reentrant(sx):
    """values whose text needs another url of the same endpoint"""
    a = make().bind('h', '/')
    first = sx.choice('first', ['p', 'q'])
    second = sx.bool('second')
    got = a.build('e', {'a': Building(a, first),
                        'b': Building(a, 's') if second else 't'})
    want = '/e/%si%%2Fj/%s' % (first, 'si%2Fj' if second else 't')
    sx.check(got == want or got == want.replace('%2F', '/'),
             'all parts are its own')
