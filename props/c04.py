"""Redirects raised by the router stay on the application's own host and
script root, keep the query string and lead to the page that was asked for.

Outside the bounds: longer paths, rules that redirect to absolute URLs on
purpose, host names with non-ascii characters.
"""
from urllib.parse import unquote_to_bytes

from verktyg.routing import URLMap, Route, RequestRedirect
from verktyg.exceptions import NotFound

QUERY = [c for c in map(chr, range(33, 127)) if c != '#']


def make(**kw):
    return URLMap([
        Route('/', endpoint='index'),
        Route('/b/<v>/', endpoint='branch'),
        Route('/w/<path:v>/', endpoint='wiki'),
        Route('/all/', endpoint='all', defaults={'page': 1}),
        Route('/all/page/<int:page>', endpoint='all'),
        Route('/u/<v>/', endpoint='user', defaults={'tab': 'home'}),
        Route('/u/<v>/tab/<tab>', endpoint='user'),
        Route('/new/<v>', endpoint='thing'),
        Route('/old/<v>', endpoint='thing', alias=True),
        Route('/moved/<v>', redirect_to='s/<v>'),
        Route('/movedi/<int:v>', redirect_to='s/<v>'),
        Route('/s/<v>', endpoint='s'),
    ], **kw)


def bind(sx, m, path, vary=True):
    script = sx.choice('script', ['/app', '/', '/a/bc/'])
    scheme = sx.choice('scheme', ['http', 'https']) if vary else 'https'
    query = sx.choice('query', [None, '', 'q', 'qd']) if vary else 'x=%20'
    if query == 'q':
        query = sx.text('q', 2, QUERY, 1)
        text = query
    elif query == 'qd':
        query = {'a': 'b c', 'd': 'e'}
        text = 'a=b+c&d=e'
    else:
        text = query or ''
    a = m.bind('example.com', script, url_scheme=scheme, path_info=path,
               query_args=query)
    return a, script, scheme, text


def follow(sx, m, e, script, scheme, text):
    """check a redirect and return what it leads to"""
    url = e.new_url
    base = scheme + '://example.com' + script.rstrip('/') + '/'
    sx.check(url[:len(base)] == base, 'the target is on the same host and '
             'below the script root')
    sx.check(all('!' <= c <= '~' for c in url), 'the target is a plain url')
    rest = url[len(base) - 1:]
    path, mark, query = rest.partition('?')
    sx.check(query == text, 'the query string is kept')
    sx.check('#' not in path, 'no fragment appears')
    sx.check(path[:2] != '//', 'the target does not start with slashes')
    info = unquote_to_bytes(path).decode('utf-8')
    try:
        return m.bind('example.com', script, url_scheme=scheme).match(info)
    except RequestRedirect:
        sx.fail('the target redirects again')


def h_slash(sx):
    """branch rules asked for without their slash; variable text of 1..3
    (thorough 4) characters; query strings of up to 2 characters"""
    m = make()
    rule = sx.choice('rule', ['b', 'w'])
    lead = sx.choice('lead', ['/', '//', ''])
    v = sx.text('v', sx.t(3, 4), sx.UNI, 1)
    sx.assume(v[0] != '/' and v[-1] != '/')
    if rule == 'b':
        sx.assume('/' not in v)
    a, script, scheme, text = bind(sx, m, lead + rule + '/' + v,
                                     len(v) == 1)
    try:
        a.match()
    except RequestRedirect as e:
        got = follow(sx, m, e, script, scheme, text)
        sx.check(got == ({'b': 'branch', 'w': 'wiki'}[rule], {'v': v}),
                 'the target is the page that was asked for')
        return
    sx.fail('a missing slash is redirected')


def h_host_confusion(sx):
    """paths that begin with host-like text, extra slashes and backslashes
    never produce a target on another host"""
    m = URLMap([Route('/<x>/<v>/<z>/', endpoint='deep')])
    lead = sx.text('lead', 3, ['/', '\\', '.', '\t', '\n', '@', ':'], 0)
    host = sx.choice('host', ['evil.com', 'x:80', '%2f%2fe'])
    path = lead + host + '/a/b'
    server = sx.choice('server', ['example.com', ''])
    a = m.bind(server, '/', path_info=path)
    try:
        a.match()
    except RequestRedirect as e:
        base = 'http://' + server + '/'
        sx.check(e.new_url[:len(base)] == base,
                 'the target stays on the bound host')
        sx.check(e.new_url[len(base):len(base) + 1] not in ('/', '\\'),
                 'the path does not begin with a second slash')
        return
    except NotFound:
        sx.reach('notfound')
        return
    sx.reach('matched')


def h_defaults(sx):
    """default values given explicitly: any page number 0..99, any tab of
    up to 4 characters"""
    m = make()
    which = sx.choice('which', ['page', 'tab'])
    if which == 'page':
        n = sx.int('n', 0, 99)
        path, dflt = '/all/page/%d' % n, n == 1
        want = ('all', {'page': n})
    else:
        v = sx.text('v', 1, sx.UNI, 1)
        sx.assume(v != '/')
        if sx.bool('home'):
            tab = 'home'
        else:
            tab = sx.text('tab', 4, sx.LOWER, 1)
        path, dflt = '/u/' + v + '/tab/' + tab, tab == 'home'
        want = ('user', {'v': v, 'tab': tab})
    a, script, scheme, text = bind(sx, m, path)
    try:
        got = a.match()
    except RequestRedirect as e:
        sx.check(dflt, 'only the default value is redirected')
        got = follow(sx, m, e, script, scheme, text)
    else:
        sx.check(not dflt, 'the default value is redirected')
    sx.check(got == want, 'values survive')


def h_alias(sx):
    """alias rule, variable text of 1..2 (thorough 3) characters"""
    m = make()
    v = sx.text('v', sx.t(2, 3), sx.UNI, 1)
    sx.assume('/' not in v)
    a, script, scheme, text = bind(sx, m, '/old/' + v)
    try:
        a.match()
    except RequestRedirect as e:
        got = follow(sx, m, e, script, scheme, text)
        sx.check(got == ('thing', {'v': v}), 'alias leads to the real page')
        return
    sx.fail('an alias is redirected')


def h_redirect_to(sx):
    """redirect_to templates: text of 1..2 (thorough 3) characters and
    integers up to 99"""
    m = make()
    if sx.bool('int'):
        v = sx.int('n', 0, 99)
        path = '/movedi/%d' % v
        v = str(v)
    else:
        v = sx.text('v', sx.t(2, 3), sx.UNI, 1)
        sx.assume('/' not in v and v not in ('.', '..'))
        path = '/moved/' + v
    script = sx.choice('script', ['/app', '/'])
    a = m.bind('example.com', script, path_info=path)
    try:
        a.match()
    except RequestRedirect as e:
        got = follow(sx, m, e, script, 'http', '')
        sx.check(got == ('s', {'v': v}), 'redirect_to leads to its target')
        return
    sx.fail('redirect_to redirects')


def h_subdomain(sx):
    """a branch rule on a subdomain of 1..2 characters"""
    m = URLMap([Route('/b/<v>/', endpoint='x', subdomain='<user>')])
    user = sx.text('user', 2, list('abz09'), 1)
    v = sx.text('v', 1, sx.UNI, 1)
    sx.assume(v != '/')
    a = m.bind('example.com', '/', subdomain=user)
    try:
        a.match('/b/' + v)
    except RequestRedirect as e:
        base = 'http://' + user + '.example.com/b/'
        sx.check(e.new_url[:len(base)] == base, 'stays on the subdomain')
        info = unquote_to_bytes(e.new_url[len(base) - 3:]).decode('utf-8')
        sx.check(a.match(info) == ('x', {'user': user, 'v': v}),
                 'leads to the page')
        return
    sx.fail('redirected')


def h_off(sx):
    """without strict slashes or default redirects nothing is redirected"""
    m = make(strict_slashes=False, redirect_defaults=False)
    path = sx.choice('rule', ['/b/', '/all/page/', '/old/'])
    v = sx.text('v', 2, '0123456789', 1)
    got = m.bind('example.com', '/').match(path + v)
    sx.check(got == {
        '/b/': ('branch', {'v': v}),
        '/all/page/': ('all', {'page': int(v)}),
        '/old/': ('thing', {'v': v})}[path], 'matched directly')


def location(sx, a, path, **kw):
    try:
        a.match(path, **kw)
    except RequestRedirect as e:
        return e.new_url
    return None


def h_charset(sx):
    """maps in utf-8, latin-1 and cp1251: missing slash, default, alias and
    explicit redirect with a variable of 1..2 characters; query as a dict"""
    charset, alphabet = sx.choice('charset', [
        ('utf-8', '\xfc\u20acx%'), ('latin-1', '\xfc\xffx%'),
        ('cp1251', '\u0436\u044fx%')])
    m = make(charset=charset)
    v = sx.text('v', 2, alphabet, 1)
    rule, want = sx.choice('rule', [
        ('/b/%s', 'branch'), ('/old/%s', 'thing'), ('/moved/%s', 's'),
        ('/u/%s/tab/home', 'user')])
    q = alphabet[0]
    given = {'a': q, 'b': [q, 'x']} if rule != '/moved/%s' and \
        sx.bool('query') else None
    url = location(sx, m.bind('example.com'), rule % v, query_args=given)
    sx.check(url is not None, 'redirected')
    base = 'http://example.com'
    sx.check(url[:len(base) + 1] == base + '/', 'the same site')
    path, mark, query = url[len(base):].partition('?')
    got = m.bind('example.com').match(
        unquote_to_bytes(path).decode(charset))
    args = {'v': v, 'tab': 'home'} if want == 'user' else {'v': v}
    sx.check(got == (want, args), 'the page that was asked for')
    if given:
        got = [(k, unquote_to_bytes(x).decode(charset)) for k, x in
               [p.split('=') for p in query.split('&')]]
        sx.check(got == [('a', q), ('b', q), ('b', 'x')],
                 'the query is kept')
    else:
        sx.check(query == '', 'no query')


def h_domains(sx):
    """redirects within and across four subdomains or hosts with a port:
    missing slash, default, alias and explicit redirects"""
    hosts = sx.bool('host_matching')
    here = sx.choice('here', ['', 'a', 'b.a'])
    there = sx.choice('there', ['', 'a', 'b.a'])
    kind = sx.choice('kind', ['slash', 'default', 'alias', 'to', 'call'])
    script = sx.choice('script', ['', '/app'])
    scheme = sx.choice('scheme', ['http', 'https'])

    def call(adapter, v, d):
        return 's/' + v + d
    routes = {
        'slash': [('/b/<v>/', here, dict(endpoint='x'))],
        'default': [('/d/<v>', there, dict(endpoint='x',
                                           defaults={'d': 1})),
                    ('/e/<v>/<int:d>', here, dict(endpoint='x'))],
        'alias': [('/n/<v>', there, dict(endpoint='x')),
                  ('/o/<v>', here, dict(endpoint='x', alias=True))],
        'to': [('/t/<v>', here, dict(redirect_to='s/<v>'))],
        'call': [('/t/<v>', here, dict(redirect_to=call,
                                       defaults={'d': 'q'}))],
    }[kind]
    port = sx.choice('port', ['', ':81'])

    def host(sub):
        return (sub + '.' if sub else '') + 'h.com' + port
    if hosts:
        m = URLMap([Route(r, host=host(s), **kw) for r, s, kw in routes],
                   host_matching=True)
        a = m.bind(host(here), script or '/', url_scheme=scheme)
    else:
        m = URLMap([Route(r, subdomain=s, **kw) for r, s, kw in routes])
        a = m.bind('h.com' + port, script or '/', here, scheme)
    path = {'slash': '/b/z', 'default': '/e/z/1', 'alias': '/o/z',
            'to': '/t/z', 'call': '/t/z'}[kind]
    end = {'slash': '/b/z/', 'default': '/d/z', 'alias': '/n/z',
           'to': '/s/z', 'call': '/s/zq'}[kind]
    target = there if kind in ('default', 'alias') else here
    sx.check(location(sx, a, path) == scheme + '://' + host(target) +
             script + end, 'to the host of the target')


def h_chain(sx):
    """three routes with two, one and no defaults, in all six orders; values
    0..3; pages of defaults that are zero"""
    routes = [('/a/', {'p': 0, 'q': 2}), ('/a/<int:p>', {'q': 2}),
              ('/a/<int:p>/<int:q>', None)]
    i, j, k = sx.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2),
                                  (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    m = URLMap([Route(routes[n][0], endpoint='x', defaults=routes[n][1])
                for n in (i, j, k)])
    p, q = sx.int('p', 0, 3), sx.int('q', 0, 3)
    form = sx.choice('form', [0, 1, 2])
    a = m.bind('h')
    if form == 0:
        p, q, path = 0, 2, '/a/'
    elif form == 1:
        q, path = 2, '/a/%d' % p
    else:
        path = '/a/%d/%d' % (p, q)
    best = '/a/' if (p, q) == (0, 2) else (
        '/a/%d' % p if q == 2 else '/a/%d/%d' % (p, q))
    url = location(sx, a, path)
    if path == best:
        sx.check(url is None, 'the canonical url is not redirected')
        sx.check(a.match(path) == ('x', {'p': p, 'q': q}), 'its values')
    else:
        sx.check(url == 'http://h' + best, 'to the canonical url')


def h_query_args(sx):
    """the query of a redirect is the one given to match(), which may be
    empty, or that of the request"""
    own = sx.choice('own', [None, '', 'o=1', {}, {'o': '1'}])
    given = sx.choice('given', [None, '', 'g=2', {}, {'g': ['2', '3']},
                                'g=%2B%41+%20%C3&g=;/?%25'])
    kind = sx.choice('kind', ['/b/v', '/all/page/1', '/old/v', '/older/v/w'])
    m = make()
    m.add_routes(Route('/older/<v>/<w>', endpoint='thing', alias=True))
    a = m.bind('h', query_args=own)
    try:
        a.match(kind, query_args=given)
        sx.fail('redirected')
    except RequestRedirect as e:
        url = e.new_url
    query = own if given is None else given
    if isinstance(query, dict):
        query = {'o': 'o=1', 'g': 'g=2&g=3'}.get(''.join(query), '')
    want = {'/b/v': '/b/v/', '/all/page/1': '/all/', '/old/v': '/new/v',
            '/older/v/w': '/new/v'}[kind]
    sx.check(url == 'http://h' + want + ('?' + query if query else ''),
             'with this query')


def h_history(sx):
    """one adapter or map asked for redirects again and again: any 3 of 8
    requests"""
    todo = [('/b/1', 'x=1'), ('/b/1', 'x=2'), ('/b/1', None), ('/b/2', 'x=1'),
            ('/b/1/', 'x=1'), ('/old/1', 'x=1'), ('/all/page/1', 'x=2'),
            ('/all/page/1', '')]
    to = {'/b/1': 'b/1/', '/b/2': 'b/2/', '/old/1': 'new/1',
          '/all/page/1': 'all/'}
    m = make()
    fresh = sx.bool('fresh')
    a = m.bind('example.com', '/app')
    for i in range(3):
        path, query = sx.choice('request%d' % i, todo)
        host = 'example.com'
        if fresh:
            host = 'h%d.com' % i
            a = m.bind(host, '/app', url_scheme='http')
        try:
            a.match(path, query_args=query)
        except RequestRedirect as e:
            want = 'http://' + host + '/app/' + to[path]
            if query:
                want += '?' + query
            sx.check(e.new_url == want, 'where this request leads')
        else:
            sx.check(path == '/b/1/', 'redirected every time')


def h_threads(sx):
    """two threads matching paths that redirect, the second at any line of
    the first"""
    todo = ['/slash', '/old/v', '/moved/w', '/s/x', '/movedi/1']
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def target(m, path, script):
        try:
            return m.bind('h', script).match(path)
        except RequestRedirect as e:
            return e.new_url
        except NotFound:
            return None

    def both():
        return (lambda: target(m, one, '/')), (lambda: target(m, two, '/p'))
    m = make()
    sx.interleave('at', both, 'both threads get their own target')
