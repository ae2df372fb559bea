"""URLs built by the router lead back to the endpoint and values they were
built from.

Stubs: none.  The web server's part (percent-decoding the path into
PATH_INFO) is the harness's `serve`, which uses the standard library.
Outside the bounds: longer values, routes other than the ones listed here,
custom converters, values a converter could never have produced.
"""
import uuid
from urllib.parse import unquote_to_bytes

from verktyg.routing import (
    URLMap, Route, Submount, Subdomain, EndpointPrefix, RouteTemplate,
)

URLSAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
              "-._~:/?#[]@!$&'()*+,;=%|")
HOSTCH = list('abcxyz019-')


def make(**kw):
    return URLMap([
        Route('/', endpoint='index'),
        Route('/s/<v>', endpoint='string'),
        Route('/br/<v>/', endpoint='branch'),
        Route('/l2/<string(length=2):v>', endpoint='len2'),
        Route('/mm/<string(minlength=2,maxlength=3):v>', endpoint='minmax'),
        Route('/any/<any(about, help, "foo,bar", "a.b"):v>', endpoint='any'),
        Route('/p/<path:v>', endpoint='path'),
        Route('/p/<path:v>/edit', endpoint='pathedit'),
        Route('/i/<int:v>', endpoint='int'),
        Route('/f3/<int(fixed_digits=3):v>', endpoint='fixed'),
        Route('/f7/<int(fixed_digits=7):v>', endpoint='fixed7'),
        Route('/r/<int(min=5,max=120):v>', endpoint='range'),
        Route('/u/<uuid:v>', endpoint='uuid'),
        Route('/two/<a>/<b>', endpoint='two'),
        Route('/two/<a>/x/<int:b>', endpoint='twoint'),
        Route('/mix-<a>-x/<path:b>', endpoint='mix'),
        Route('/a.b+c (d)/<v>', endpoint='special'),
        Route('/\xfc%41|[x]/<v>', endpoint='unicode'),
        Submount('/sub', [
            Route('/', endpoint='subindex'),
            EndpointPrefix('pre/', [Route('/<v>', endpoint='leaf')]),
        ]),
        RouteTemplate([
            Route('/t-{name}/<v>', endpoint='{name}.show'),
        ])(name='user'),
    ], **kw)


def serve(url, script, host='example.com', server_name=None, scheme='http'):
    """the environ a server makes for a request to this url"""
    path = url.split('?', 1)[0]
    script_len = len(script)
    return {
        'wsgi.url_scheme': scheme, 'HTTP_HOST': host,
        'SERVER_NAME': 'example.com', 'SERVER_PORT': '80',
        'SCRIPT_NAME': script,
        'PATH_INFO': unquote_to_bytes(path[script_len:]).decode('latin1'),
        'QUERY_STRING': '',
    }


def round_trip(sx, m, endpoint, values, script='/app', external=False):
    a = m.bind('example.com', script or '/')
    url = a.build(endpoint, values, force_external=external)
    sx.check(all(c in URLSAFE for c in url), 'a built url is plain ascii')
    if external:
        base = 'http://example.com'
        sx.check(url[:len(base)] == base, 'external urls name the host')
        url = url[len(base):]
    sx.check(url[:len(script) + 1] == script + '/',
             'a built url is below the script root')
    sx.check('?' not in url and '#' not in url,
             'no value leaks into the query or fragment')
    got = m.bind_to_environ(serve(url, script)).match()
    sx.check(got == (endpoint, values),
             'match(build(endpoint, values)) == endpoint, values')
    if not external:
        sx.check(m.bind('example.com', script or '/').build(*got)
                 == url, 'building again gives the same url')


def nosl(sx):
    return [c for c in sx.UNI if c != '/']


def h_string(sx):
    """one string value of 1..3 (thorough 4) characters other than '/', in
    five kinds of rule; script root /app or none; relative or external"""
    m = make()
    ep = sx.choice('endpoint', ['string', 'branch', 'pre/leaf', 'user.show',
                                'special'])
    v = sx.text('v', sx.t(3, 4), nosl(sx), 1)
    script = sx.choice('script', ['/app', ''])
    round_trip(sx, m, ep, {'v': v}, script, sx.bool('external'))


def h_string_len(sx):
    """length-limited string values, static text with non-ascii and regex
    syntax, lengths 1..3"""
    m = make()
    ep = sx.choice('endpoint', ['len2', 'minmax', 'unicode'])
    n = {'len2': (2, 2), 'minmax': (2, 3), 'unicode': (1, 2)}[ep]
    v = sx.text('v', n[1], nosl(sx), n[0])
    round_trip(sx, m, ep, {'v': v})


def h_path(sx):
    """path values of 1..4 (thorough 5) characters, not starting with a
    slash, alone and followed by static text"""
    m = make()
    ep = sx.choice('endpoint', ['path', 'pathedit'])
    v = sx.text('v', sx.t(4, 5), sx.UNI, 1)
    sx.assume(v[0] != '/')
    if ep == 'path':
        sx.assume(v[-5:] != '/edit')
    round_trip(sx, m, ep, {'v': v}, '/app', sx.bool('external'))


def h_int(sx):
    """integers 0..10**12, 3 or 7 fixed digits, range 5..120"""
    m = make()
    ep = sx.choice('endpoint', ['int', 'fixed', 'fixed7', 'range'])
    hi = {'int': 10 ** 12, 'fixed': 999, 'fixed7': 9999999,
          'range': 120}[ep]
    v = sx.int('v', {'range': 5}.get(ep, 0), hi)
    round_trip(sx, m, ep, {'v': v})


def h_any(sx):
    """every alternative of an any() rule"""
    m = make()
    v = sx.choice('v', ['about', 'help', 'foo,bar', 'a.b'])
    round_trip(sx, m, 'any', {'v': v}, sx.choice('script', ['/app', '']))


def h_uuid(sx):
    """uuids with five free hex digits"""
    m = make()
    h = sx.str('h', 5, '0123456789abcdef')
    text = ('%s2345678-9abc-%sef0-8123-%s5678%s5d2e0%s'
            % (h[0], h[1], h[2], h[3], h[4]))
    v = uuid.UUID(text)
    a = m.bind('example.com', '/')
    url = a.build('uuid', {'v': v})
    sx.check(url == '/u/' + text, 'uuids are written in canonical form')
    ep, args = m.bind_to_environ(serve(url, '')).match()
    sx.check(ep == 'uuid' and str(args['v']) == text, 'uuid round trip')


def h_two(sx):
    """two values of 1..2 characters in one rule"""
    m = make()
    ep = sx.choice('endpoint', ['two', 'twoint', 'mix'])
    a = sx.text('a', 2, nosl(sx), 1)
    if ep == 'twoint':
        b = sx.int('b', 0, 99)
    else:
        b = sx.text('b', 2, nosl(sx), 1)
    round_trip(sx, m, ep, {'a': a, 'b': b})


def h_match_build(sx):
    """any path of up to 4 (thorough 5) characters below one of five rules:
    whatever it matches can be built and matched again"""
    m = make()
    pre = sx.choice('prefix', ['/s/', '/p/', '/i/', '/f3/', '/mix-'])
    rest = sx.text('rest', sx.t(3, 4), sx.UNI)
    tail = sx.choice('tail', ['', '/edit', '-x/y'])
    a = m.bind('example.com', '/')
    try:
        ep, values = a.match(pre + rest + tail)
    except Exception as e:
        sx.check(getattr(e, 'code', None) in (404, 301),
                 'matching only raises http errors')
        return
    url = a.build(ep, values)
    again = m.bind_to_environ(serve(url, '')).match()
    sx.check(again == (ep, values), 'match(build(match(p))) == match(p)')


def h_float(sx):
    """floats made of up to 2 digits before and 5 after the point"""
    m = URLMap([Route('/f/<float:v>', endpoint='float')])
    i = sx.text('i', 2, '0159', 1)
    f = sx.choice('f', ['0', '5', '00001', '50', '0000000000001',
                        '25000000000000000000'])
    big = sx.choice('big', ['', '00000000000000000000'])
    a = m.bind('example.com', '/')
    ep, values = a.match('/f/' + i + big + '.' + f)
    sx.check(values['v'] == float(i + big + '.' + f), 'value is the float')
    url = a.build(ep, values)
    again = m.bind_to_environ(serve(url, '')).match()
    sx.check(again == (ep, values), 'match(build(v)) == v for floats')


def h_subdomain(sx):
    """a subdomain value and a path value of 1..2 characters; and the same
    with host matching"""
    user = sx.text('user', 2, HOSTCH, 1)
    sx.assume(user[0] != '-' and user[-1] != '-')
    v = sx.text('v', 2, nosl(sx), 1)
    if sx.bool('host_matching'):
        m = URLMap([
            Route('/<v>', endpoint='x', host='<user>.example.com'),
            Route('/<v>', endpoint='y', host='example.com'),
        ], host_matching=True)
        a = m.bind('example.com')
    else:
        m = URLMap([
            Route('/<v>', endpoint='y'),
            Subdomain('<user>', [Route('/<v>', endpoint='x')]),
        ])
        a = m.bind('example.com')
    url = a.build('x', {'user': user, 'v': v})
    host = user + '.example.com'
    base = 'http://' + host
    sx.check(url[:len(base) + 1] == base + '/', 'url is on the right host')
    env = serve(url[len(base):], '', host)
    if m.host_matching:
        got = m.bind_to_environ(env).match()
    else:
        got = m.bind_to_environ(env, server_name='example.com').match()
    sx.check(got == ('x', {'user': user, 'v': v}), 'subdomain round trip')
    # from the subdomain itself, the same rule is built relative
    if not m.host_matching:
        b = m.bind('example.com', subdomain=user)
        sx.check(b.build('x', {'user': user, 'v': v})
                 == url[len(base):], 'relative on the same subdomain')
        u2 = b.build('y', {'v': v})
        base2 = 'http://example.com'
        sx.check(u2[:len(base2) + 1] == base2 + '/',
                 'external from another subdomain')


def h_hosts(sx):
    """four hosts of which two differ only in their port and one is below
    another, from each to each; a value of 1..2 characters"""
    hosts = ['a.org', 'a.org:81', 'b.a.org', 'a.org:8100']
    m = URLMap([Route('/' + h[:1] + '/<v>', endpoint=h, host=h)
                for h in hosts], host_matching=True)
    here = sx.choice('here', hosts)
    there = sx.choice('there', hosts)
    v = sx.text('v', 2, nosl(sx), 1)
    scheme = sx.choice('scheme', ['http', 'https'])
    a = m.bind(here, '/app', url_scheme=scheme)
    url = a.build(there, {'v': v})
    base = scheme + '://' + there
    if here == there:
        sx.check(url[:5] == '/app/', 'relative on the same host')
    else:
        sx.check(url[:len(base) + 5] == base + '/app/',
                 'absolute on another host')
        url = url[len(base):]
    got = m.bind_to_environ(serve(url, '/app', there)).match()
    sx.check(got == (there, {'v': v}), 'the same endpoint and values')


def h_subdomains(sx):
    """three subdomains, the default one and a nested one, from each to each;
    default subdomain '' or 'www'"""
    default = sx.choice('default', ['', 'www'])
    subs = ['', 'www', 'x', 'y.x']
    m = URLMap([Route('/%d' % i, endpoint=s, subdomain=s)
                for i, s in enumerate(subs)] +
               [Route('/d', endpoint='default')],
               default_subdomain=default)
    here = sx.choice('here', subs)
    there = sx.choice('there', subs + ['default'])
    a = m.bind('a.org', '/', here)
    url = a.build(there)
    sub = default if there == 'default' else there
    host = sub + '.a.org' if sub else 'a.org'
    if sub == here:
        sx.check(url[:1] == '/', 'relative on the same subdomain')
    else:
        base = 'http://' + host
        sx.check(url[:len(base) + 1] == base + '/',
                 'absolute on another subdomain')
        url = url[len(base):]
    got = m.bind_to_environ(serve(url, '', host), server_name='a.org').match()
    sx.check(got == (there, {}), 'the same endpoint')


def h_charset(sx):
    """url maps in utf-8, latin-1, utf-16 and cp1251; rules with non-ascii
    text, values of 1..2 characters of the charset, extra values"""
    charset, alphabet = sx.choice('charset', [
        ('utf-8', '\xfc\u20acx/%'), ('latin-1', '\xfc\xffx/%'),
        ('cp1251', '\u0436\u044fx/%')])
    static = alphabet[0]
    m = URLMap([Route('/' + static + '/<v>', endpoint='string'),
                Route('/p/<path:v>', endpoint='path'),
                Route('/b/<v>/' + static + '/', endpoint='branch')],
               charset=charset)
    ep = sx.choice('endpoint', ['string', 'path', 'branch'])
    v = sx.text('v', 2, [c for c in alphabet if c != '/'], 1)
    url = m.bind('example.com').build(ep, {'v': v})
    sx.check(all(c in URLSAFE for c in url), 'a built url is plain ascii')
    got = m.bind_to_environ(serve(url, '')).match()
    sx.check(got == (ep, {'v': v}), 'the same endpoint and values')


def h_defaults(sx):
    """endpoints with up to two default values and an alias, in either
    order of registration: pages 0..3, falsy defaults, text of 1 character"""
    routes = [
        Route('/a/', endpoint='a', defaults={'p': 0, 'q': 2}),
        Route('/a/<int:p>', endpoint='a', defaults={'q': 2}),
        Route('/a/<int:p>/<int:q>', endpoint='a'),
        Route('/old/<v>', endpoint='b', alias=True),
        Route('/new/<v>', endpoint='b'),
        Route('/c/<v>/', endpoint='c', defaults={'tab': ''}),
        Route('/c/<v>/<tab>', endpoint='c'),
        Route('/o/<v>', endpoint='c', build_only=True),
    ]
    if sx.bool('reversed'):
        routes = routes[::-1]
    m = URLMap(routes)
    ep = sx.choice('endpoint', ['a', 'b', 'c'])
    if ep == 'a':
        values = {'p': sx.int('p', 0, 3), 'q': sx.int('q', 0, 3)}
    else:
        values = {'v': sx.text('v', 1, nosl(sx), 1)}
        if ep == 'c':
            values['tab'] = sx.choice('tab', ['', 'x'])
    url = m.bind('example.com').build(ep, dict(values))
    got = m.bind_to_environ(serve(url, '')).match()
    sx.check(got == (ep, values), 'the same endpoint and values')


def h_twice(sx):
    """two urls built and matched with one map, alternately, values of 1
    character, with and without extra values"""
    m = make()
    a = m.bind('example.com')
    seen = []
    for i in range(2):
        ep = sx.choice('endpoint%d' % i, ['string', 'branch', 'path'])
        v = sx.text('v%d' % i, 1, nosl(sx), 1)
        given = {'v': v}
        if sx.bool('extra%d' % i):
            given['x%d' % i] = 'y'
        url = a.build(ep, given)
        sx.check(('?' in url) == (len(given) == 2), 'only its own values')
        sx.check('v' in given and given['v'] == v, 'the values are left alone')
        seen.append((ep, {'v': v}, m.bind_to_environ(serve(url, '')).match()))
    for ep, values, got in seen:
        sx.check(got == (ep, values), 'the same endpoint and values')


def h_static(sx):
    """rules with any special character in their static text, before and
    after a variable of 1 character"""
    c = sx.choice('c', list('?#%[]@!$&\';=,|+~ "\\.*(){}^`-:\xe4\n'))
    d = sx.choice('d', ['', '?', '%', '//', '+'])
    rule = '/x' + c + '<v>' + d + c
    m = URLMap([Route(rule, endpoint='static'),
                Route('/y' + c + 'y/', endpoint='plain')])
    script = sx.choice('script', ['/app', ''])
    v = sx.text('v', 1, nosl(sx), 1)
    round_trip(sx, m, 'static', {'v': v}, script)
    round_trip(sx, m, 'plain', {}, script)


def h_history(sx):
    """one map, any 2 of 12 values that are partly equal to one another built
    one after the other, and matched"""
    m = make()
    a = m.bind('example.com')
    todo = [('string', 1, '1'), ('string', True, 'True'),
            ('string', 1.0, '1.0'), ('string', '1', '1'),
            ('path', 1, '1'), ('path', '1/x', '1/x'), ('int', 7, '7'),
            ('fixed', 7, '007'), ('fixed7', 7, '0000007'),
            ('string', 'a b', 'a%20b'), ('path', 'a b', 'a%20b'),
            ('string', 'A b', 'A%20b')]
    where = {'string': '/s/', 'path': '/p/', 'int': '/i/', 'fixed': '/f3/',
             'fixed7': '/f7/'}
    for i in range(2):
        endpoint, v, text = sx.choice('value%d' % i, todo)
        url = a.build(endpoint, {'v': v})
        sx.check(url == where[endpoint] + text, 'the url of this value')
        got, args = a.match(unquote_to_bytes(url).decode('utf-8'))
        sx.check(got == endpoint, 'leads back to the endpoint')
        if endpoint in ('string', 'path'):
            sx.check(args == {'v': str(v)}, 'and to the value')
        else:
            sx.check(args == {'v': v}, 'and to the value')
        args['v'] = args['w'] = 'changed'


def h_threads(sx):
    """two threads at once, the second at any line of the first: urls built and matched"""
    m = URLMap([Route('/<int:a>/<b>', endpoint='e'),
                Route('/p/<path:c>', endpoint='p')])

    def trip(endpoint, values):
        a = m.bind('h', '/')
        return a.match(a.build(endpoint, values))
    todo = [lambda: trip('e', {'a': 1, 'b': 'x y'}),
            lambda: trip('e', {'a': 2, 'b': 'z'}),
            lambda: trip('p', {'c': 'a/b'})]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
