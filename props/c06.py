"""Binding to a request environment finds the right subdomain, path and
script root.

Outside the bounds: host names longer than the given text, non-ascii hosts.
"""
from verktyg.routing import URLMap, Route, RequestRedirect
from verktyg.exceptions import NotFound

HOST = list('aexXm.-:08o')


def environ(**kw):
    env = {'wsgi.url_scheme': 'http', 'SERVER_NAME': 'example.com',
           'SERVER_PORT': '80', 'SCRIPT_NAME': '', 'PATH_INFO': '/',
           'QUERY_STRING': ''}
    env.update(kw)
    return env


def m():
    return URLMap([
        Route('/', endpoint='root'),
        Route('/', endpoint='www', subdomain='www'),
        Route('/', endpoint='xa', subdomain='x.a'),
    ])


def h_subdomain(sx):
    """Host header of up to 4 (thorough 5) free characters before, or in
    the middle of, the server name, with and without port"""
    pre = sx.text('pre', sx.t(4, 5), HOST)
    sep = sx.choice('sep', ['.', '', '..'])
    port = sx.choice('port', ['', ':8080'])
    name = sx.choice('name', ['example.com', 'Example.COM', 'ample.com'])
    host = pre + sep + 'example.com' + port
    sx.assume(len(pre + sep) > 0)
    cfg = name + port
    try:
        a = m().bind_to_environ(environ(HTTP_HOST=host), server_name=cfg)
    except UnicodeError:
        sx.reach('not a host name')
        return
    low = host.lower()
    cl = cfg.lower()
    if low == cl:
        want = ''
    elif low[-len(cl) - 1:] == '.' + cl:
        want = '.'.join(p for p in low[:-len(cl) - 1].split('.') if p)
    else:
        want = None
    sx.check(a.server_name == cl, 'the configured name is kept')
    if want is None:
        sx.check(a.subdomain not in ('', 'www', 'x.a', None),
                 'foreign hosts are not given a subdomain')
        try:
            a.match()
        except NotFound:
            return
        sx.fail('foreign hosts match nothing')
    sx.check(a.subdomain == want, 'the subdomain is what precedes the name')


def h_match_subdomain(sx):
    """the subdomain computed selects the route"""
    sub = sx.text('sub', sx.t(4, 5), list('wxa.'))
    host = (sub + '.' if sub else '') + 'example.com'
    try:
        a = m().bind_to_environ(environ(HTTP_HOST=host),
                                server_name='example.com')
    except UnicodeError:
        return
    norm = '.'.join(p for p in sub.split('.') if p)
    want = {'': 'root', 'www': 'www', 'x.a': 'xa'}.get(norm)
    try:
        got = a.match()[0]
    except NotFound:
        got = None
    sx.check(got == want, 'route of the subdomain')


def h_server_name(sx):
    """no configured name: Host header, or server name and port; both
    schemes and any port of 1..3 digits"""
    scheme = sx.choice('scheme', ['http', 'https'])
    port = sx.text('port', 3, '0123458', 1)
    env = environ(**{'wsgi.url_scheme': scheme, 'SERVER_PORT': port})
    if sx.bool('host'):
        env['HTTP_HOST'] = sx.text('h', 3, list('aB0-'), 1) + '.org:81'
        want = env['HTTP_HOST'].lower()
    elif (scheme, port) in (('http', '80'), ('https', '443')):
        want = 'example.com'
    else:
        want = 'example.com:' + port
    a = m().bind_to_environ(env)
    sx.check(a.server_name == want, 'server name and port of the request')
    sx.check(a.url_scheme == scheme, 'scheme of the request')
    url = a.build('root', force_external=True)
    sx.check(url == scheme + '://' + want + '/', 'absolute urls name it')
    sub = m().bind_to_environ(env, server_name='other.com', subdomain='www')
    sx.check((sub.server_name, sub.subdomain) == ('other.com', 'www'),
             'explicit names win')


def h_no_host_header(sx):
    """subdomains are computed from SERVER_NAME and SERVER_PORT too"""
    port = sx.text('port', 3, '08143', 1)
    scheme = sx.choice('scheme', ['http', 'https'])
    cfg_port = sx.choice('cfg', ['', ':81'])
    env = environ(SERVER_NAME='www.example.com', SERVER_PORT=port,
                  **{'wsgi.url_scheme': scheme})
    a = m().bind_to_environ(env, server_name='example.com' + cfg_port)
    default = {'http': '80', 'https': '443'}[scheme]
    real = '' if port == default else ':' + port
    if real == cfg_port:
        sx.check(a.subdomain == 'www', 'same port, subdomain found')
    else:
        sx.check(a.subdomain not in ('', 'www'), 'another port is foreign')


def h_path(sx):
    """any text path of up to 3 (thorough 4) characters sent as utf-8 or
    any bytes, script names likewise"""
    r = URLMap([Route('/<path:v>', endpoint='p'),
                Route('/', endpoint='root')])
    text = sx.text('path', sx.t(3, 4), sx.UNI, 1)
    sx.assume(text[0] != '/')
    wire = text.encode('utf-8').decode('latin1')
    script = sx.choice('script', ['', '/app', '/\xc3\xbc'])
    query = sx.text('query', 1, sx.PRINT)
    a = r.bind_to_environ(environ(PATH_INFO='/' + wire, SCRIPT_NAME=script,
                                  QUERY_STRING=query))
    sx.check(a.match() == ('p', {'v': text}), 'the decoded path is matched')
    sx.check(a.script_name == script.replace('\xc3\xbc', '\xfc') + '/',
             'the script root is decoded and ends in a slash')
    sx.check(a.query_args == query, 'the query string is kept')


def h_bytes(sx):
    """arbitrary bytes in the path never break matching"""
    r = URLMap([Route('/<path:v>', endpoint='p')])
    raw = sx.data('raw', sx.t(2, 3), None, 1)
    sx.assume(raw[:1] != b'/')
    a = r.bind_to_environ(environ(PATH_INFO='/' + raw.decode('latin1')))
    sx.check(a.match() == ('p', {'v': raw.decode('utf-8', 'replace')}),
             'undecodable bytes are replaced')


def h_request(sx):
    """objects with an environ attribute are accepted"""
    class Req(object):
        environ = environ(HTTP_HOST='www.example.com')
    a = m().bind_to_environ(Req(), server_name=sx.choice(
        'name', ['example.com', 'com']))
    sx.check(a.subdomain in ('www', 'www.example'), 'environ is used')


def h_stateless(sx):
    """what was matched or built before makes no difference; bound path
    empty, the root or a page"""
    r = URLMap([Route('/', endpoint='root'), Route('/a', endpoint='a'),
                Route('/b/', endpoint='b'), Route('/c/<v>', endpoint='c')])
    bound = sx.choice('bound', ['', '/', '/a', None])
    env = environ(QUERY_STRING=sx.choice('q', ['', 'x=1']))
    if bound is None:
        del env['PATH_INFO']
    else:
        env['PATH_INFO'] = bound
    a = r.bind_to_environ(env)
    for i in range(2):
        op = sx.choice('op%d' % i, ['match', 'slash', 'none', 'build'])
        if op == 'match':
            sx.check(a.match('/c/d') == ('c', {'v': 'd'}), 'the path given')
        elif op == 'slash':
            try:
                a.match('/b', query_args='y=2')
                sx.fail('redirects')
            except RequestRedirect as e:
                sx.check(e.new_url == 'http://example.com/b/?y=2',
                         'the query given')
        elif op == 'none':
            try:
                a.match('/none')
                sx.fail('not found')
            except NotFound:
                pass
        else:
            sx.check(a.build('c', {'v': 'e'}) == '/c/e', 'built')
        sx.check(a.match() == ('a' if bound == '/a' else 'root', {}),
                 'the path of the request is matched')
    try:
        a.match('/b')
        sx.fail('redirects')
    except RequestRedirect as e:
        q = env['QUERY_STRING']
        sx.check(e.new_url == 'http://example.com/b/' + (q and '?' + q),
                 'the query of the request is kept')


def h_explicit(sx):
    """an explicit subdomain (also the empty one) wins over the one of the
    request; hosts with capitals; host matching keeps the name given"""
    host = sx.choice('host', ['www.example.com', 'WWW.Example.COM',
                              'example.com', 'x.A.eXample.com', 'other.org'])
    sub = sx.choice('sub', [None, '', 'www', 'X.a'])
    if sx.bool('header'):
        env = environ(HTTP_HOST=host)
    else:
        env = environ(SERVER_NAME=host)
    if sub is None and sx.bool('host_matching'):
        r = URLMap([Route('/', endpoint='e', host='example.com')],
                   host_matching=True)
        a = r.bind_to_environ(env, server_name='Example.com')
        sx.check(a.match() == ('e', {}), 'the name given is matched')
        b = r.bind_to_environ(env)
        try:
            ok = b.match() == ('e', {})
        except NotFound:
            ok = False
        sx.check(ok == (host.lower() == 'example.com'),
                 'the name of the request is matched')
        return
    a = m().bind_to_environ(env, server_name='example.com', subdomain=sub)
    low = host.lower()
    if sub is not None:
        want = {'': 'root', 'www': 'www', 'X.a': 'xa'}[sub]
    else:
        want = {'www.example.com': 'www', 'example.com': 'root',
                'x.a.example.com': 'xa'}.get(low)
    try:
        got = a.match()[0]
    except NotFound:
        got = None
    sx.check(got == want, 'the route of the subdomain')


def h_charset(sx):
    """paths, script names and queries in latin-1 and cp1251; undecodable
    bytes by the error method of the map"""
    charset = sx.choice('charset', ['latin-1', 'cp1251', 'utf-8', 'ascii'])
    errors = sx.choice('errors', [None, 'replace', 'ignore'])
    kw = {} if errors is None else {'encoding_errors': errors}
    r = URLMap([Route('/<path:v>', endpoint='p'),
                Route('/', endpoint='root')], charset=charset, **kw)
    raw = sx.data('raw', 2, b'a\xe6\xff\xc3\xbc', 1)
    text = raw.decode(charset, errors or 'replace')
    wire = raw.decode('latin1')
    a = r.bind_to_environ(environ(PATH_INFO='/' + wire, QUERY_STRING=wire,
                                  SCRIPT_NAME='/' + wire))
    sx.check(a.match() == (('p', {'v': text}) if text else ('root', {})),
             'the path in the charset of the map')
    sx.check(a.query_args == text, 'the query in the charset')
    sx.check(a.script_name == '/' + text + ('/' if text else ''),
             'the script root in the charset')


def h_bind(sx):
    """subdomains given to bind, the empty one too, with and without a
    default; paths given to match, the empty one too"""
    default = sx.choice('default', ['', 'www'])
    r = URLMap([
        Route('/', endpoint='root', subdomain=''),
        Route('/a', endpoint='roota', subdomain=''),
        Route('/', endpoint='www', subdomain='www'),
        Route('/a', endpoint='wwwa', subdomain='www'),
    ], default_subdomain=default)
    sub = sx.choice('sub', [None, '', 'www', 'WWW', 'other'])
    bound = sx.choice('bound', [None, '', '/', '/a'])
    given = sx.choice('given', [None, '', '/', '/a'])
    kw = {}
    if sub is not None or sx.bool('explicit'):
        kw['subdomain'] = sub
    if sx.bool('environ'):
        env = environ(PATH_INFO=bound)
        if bound is None:
            del env['PATH_INFO']
        a = r.bind_to_environ(env, 'example.com', **kw)
        if sub is None:
            sub = ''
    else:
        a = r.bind('example.com', path_info=bound, **kw)
        if sub is None:
            sub = default
    path = given if given is not None else bound
    want = {'': 'root', 'www': 'www', 'other': None}[sub.lower()]
    if want and path == '/a':
        want += 'a'
    try:
        got = a.match(given)[0]
    except NotFound:
        got = None
    sx.check(got == want, 'the page of the subdomain')
    sx.check(a.test(given) == (want is not None), 'test')


def h_history(sx):
    """one map bound to any 2 (thorough 3) requests of 3 hosts, with or
    without a Host header, is bound as a new map would be"""
    r = m()
    for i in range(sx.t(2, 3)):
        host, port = sx.choice('host%d' % i, [
            ('a.com', '80'), ('b.com', '8080'), ('www.a.com', '80')])
        env = environ(SERVER_NAME=host, SERVER_PORT=port,
                      SCRIPT_NAME=sx.choice('script%d' % i, ['', '/s']))
        if sx.bool('header%d' % i):
            env['HTTP_HOST'] = 'c.com'
        kw = sx.choice('kw%d' % i, [{}, {'server_name': 'a.com'}])
        a = r.bind_to_environ(dict(env), **kw)
        b = m().bind_to_environ(dict(env), **kw)
        for ep in ('root', 'www'):
            sx.check(a.build(ep, force_external=True) ==
                     b.build(ep, force_external=True),
                     'only this request matters')
        sx.check(a.subdomain == b.subdomain, 'only this request matters')
