"""Only trusted hosts are accepted, whatever the client claims to be.

The oracle takes the host apart like a client takes apart the authority of
an URL (RFC 3986), and compares the labels of the name.
Outside the bounds: longer hosts, hosts in mixed case (which may be refused),
the internationalized names besides those with a few characters.
"""
from verktyg.exceptions import SecurityError
from verktyg.requests import Request
from verktyg.wsgi import host_is_trusted, get_host, get_current_url

CHARS = ['a', 'b', '.', ':', '8', '@', '/', '?', '#', '\\', '[', ']', '-',
         '%', ' ', '\t', '\n', '\x00', ',', '\xe4']


def client(host):
    """host name which a client would connect to"""
    if '\\' in host:
        host = host.replace('\\', '/')
    for c in '/?#':
        if c in host:
            host = host.split(c)[0]
    if '@' in host:
        host = host.split('@')[-1]
    if host[:1] == '[':
        if ']' in host:
            return host.split(']')[0] + ']'
        return host
    return host.split(':')[0]


def plain(name):
    for c in name:
        if c in '\t\n\x00 /?#@\\[]:%,\xe4':
            return False
    return True


def expected(name, refs):
    for ref in refs:
        if ref[:1] == '.':
            ref = ref[1:]
            if name[-len(ref) - 1:] == '.' + ref:
                return True
        if name == ref:
            return True
    return False


def agree(sx, host, refs, portless=None):
    got = host_is_trusted(host, refs)
    sx.check(isinstance(got, bool), 'an answer')
    if host == '':
        sx.check(not got, 'no host is not trusted')
    name = client(host)
    if got:
        sx.check(expected(name, refs), 'leads to a trusted host')
    return got


def h_any(sx):
    """any host of up to 5 (thorough 6) characters, exact and subdomain
    rules"""
    host = sx.text('host', sx.t(4, 5), CHARS)
    refs = sx.choice('refs', [['a'], ['.a'], ['b', '.a.b'], ['.b.a', 'b'],
                              ['.'], [''], []])
    got = agree(sx, host, refs)
    if refs not in (['.'], ['']) and plain(host) and expected(host, refs):
        sx.check(got, 'trusted hosts are accepted')


def h_tricks(sx):
    """text of up to 2 (thorough 3) characters before and after a trusted
    host"""
    a = sx.text('pre', sx.t(2, 3), CHARS)
    b = sx.text('post', 2, CHARS)
    ref = sx.choice('ref', ['a.b', '.a.b'])
    name = sx.choice('name', ['a.b', 'x.a.b'])
    evil = sx.choice('evil', ['', 'evil'])
    agree(sx, evil + a + name + b + evil, [ref])


def h_ports(sx):
    """ports of up to 5 digits on hosts and rules make no difference"""
    port = sx.text('port', 5, sx.DIGITS)
    name = sx.choice('name', ['a.b', 'x.a.b', 'a.bb', 'xa.b', '[::1]',
                              '[::2]', '127.0.0.1'])
    ref = sx.choice('ref', ['a.b', '.a.b', '[::1]', '127.0.0.1', 'a.b:80',
                            '.a.b:80', '[::1]:80'])
    got = host_is_trusted(name + ':' + port, [ref])
    sx.check(got == host_is_trusted(name, ref), 'port or not')
    sx.check(got == expected(name, [ref.replace(':80', '')]), 'by name')


def h_labels(sx):
    """names of up to 6 (thorough 7) letters and dots: whole labels match"""
    name = sx.text('name', sx.t(6, 7), ['a', 'b', '.', '-'], 1)
    refs = sx.choice('refs', [['a.b'], ['.a.b'], ['.b'], ['-.a', '.a.a'],
                              ['a', 'b', '.ab'], ['.ab', 'b', 'a.a']])
    got = host_is_trusted(name, refs)
    sx.check(got == expected(name, refs), 'trusted exactly then')


def h_idna(sx):
    """names with non-ascii characters never fail, and are equal to their
    encoding"""
    name = sx.text('name', 3, ['a', '.', '\xe4', '\xdf', '\u3002', '\uff0f',
                               '\u2100', '\xad', '\ud800', '\uff20', ':'])
    end = sx.choice('end', ['.a.b', 'evil.a.b', '.\xe4.b', '', '/.a.b'])
    host = name + end
    got = host_is_trusted(host, ['.a.b', '.\xe4.b'])
    sx.check(isinstance(got, bool), 'an answer')
    if got:
        sx.check(host[-4:] in ('.a.b', '.\xe4.b', 'a.b', '\xe4.b') or
                 end == '', 'the right end')
        sx.check('/' not in host and '\uff0f' not in host and
                 '\uff20' not in host and '\u2100' not in host,
                 'nothing that looks like the end of a host')


def h_precedence(sx):
    """forwarded host, host, and server name"""
    env = {'SERVER_NAME': 'server', 'wsgi.url_scheme': sx.choice(
        'scheme', ['http', 'https']),
        'SERVER_PORT': sx.choice('port', ['80', '443', '8080'])}
    host = None
    fwd = None
    if sx.bool('has_host'):
        host = env['HTTP_HOST'] = sx.text('host', 3, ['a', '.', ':', '8'], 1)
    if sx.bool('has_fwd'):
        fwd = sx.text('fwd', 3, ['a', '.', ':', '8', 'x'], 1)
        rest = sx.choice('rest', ['', ',b', ' , b,c', ', '])
        env['HTTP_X_FORWARDED_HOST'] = fwd + rest
    if fwd is not None:
        want = fwd
    elif host is not None:
        want = host
    else:
        want = 'server'
        if (env['wsgi.url_scheme'], env['SERVER_PORT']) not in (
                ('http', '80'), ('https', '443')):
            want = 'server:' + env['SERVER_PORT']
    sx.check(get_host(env) == want, 'the first of them')
    trusted = sx.choice('trusted', [['a'], ['.a', 'server'], []])
    try:
        got = get_host(env, trusted)
    except SecurityError as e:
        sx.check(e.code == 400, 'a bad request')
        sx.check(not host_is_trusted(want, trusted), 'only for others')
    else:
        sx.check(got == want, 'the same host')
        sx.check(host_is_trusted(want, trusted), 'only trusted ones')


def h_collections(sx):
    """trusted hosts as any kind of collection, or a single one"""
    host = sx.text('host', 3, ['a', 'b', '.'], 1)
    refs = sx.choice('refs', [['a.b', 'b'], ['.b', 'a'], ['a'], ['.a']])
    want = expected(host, refs)
    sx.check(host_is_trusted(host, refs) == want, 'a list')
    sx.check(host_is_trusted(host, tuple(refs)) == want, 'a tuple')
    sx.check(host_is_trusted(host, frozenset(refs)) == want, 'a set')
    if len(refs) == 1:
        sx.check(host_is_trusted(host, refs[0]) == want, 'one')


def h_urls(sx):
    """the urls of a request and its host are given for trusted hosts of up
    to 3 characters only"""
    host = sx.text('host', 3, ['a', 'b', '.'], 1)
    port = sx.choice('port', ['', ':8080'])
    header = sx.choice('header', ['HTTP_HOST', 'HTTP_X_FORWARDED_HOST'])
    refs = sx.choice('refs', [['a.b', 'b'], ('.b', 'a'), [], None])
    env = {'SERVER_NAME': 'a', 'SERVER_PORT': '80', 'SCRIPT_NAME': '/s',
           'wsgi.url_scheme': 'http', 'HTTP_HOST': 'a', 'PATH_INFO': '/p',
           'QUERY_STRING': 'q=1', 'REQUEST_METHOD': 'GET'}
    env[header] = host + port

    class Req(Request):
        trusted_hosts = refs
    req = Req(env)
    base = 'http://' + host + port
    ways = [
        (lambda: req.url, base + '/s/p?q=1'),
        (lambda: req.base_url, base + '/s/p'),
        (lambda: req.url_root, base + '/s/'),
        (lambda: req.host_url, base + '/'),
        (lambda: req.host, host + port),
        (lambda: get_current_url(env, trusted_hosts=refs), base + '/s/p?q=1'),
        (lambda: get_current_url(env, True, trusted_hosts=refs),
         base + '/s/'),
        (lambda: get_current_url(env, strip_querystring=True,
                                 trusted_hosts=refs), base + '/s/p'),
        (lambda: get_current_url(env, host_only=True, trusted_hosts=refs),
         base + '/'),
        (lambda: get_host(env, refs), host + port)]
    way, want = ways[sx.choice('way', range(len(ways)))]
    trusted = refs is None or expected(host, list(refs))
    for again in range(2):
        try:
            got = way()
        except SecurityError:
            sx.check(not trusted, 'refused only if not trusted')
        else:
            sx.check(trusted, 'given for trusted hosts only')
            sx.check(got == want, 'of that host')


def h_history(sx):
    """any 3 of 8 hosts and lists one after the other"""
    for i in range(3):
        host, refs, want = sx.choice('host%d' % i, [
            ('x.a.com', ['.a.com'], True), ('x.a.com', ['a.com'], False),
            ('a.com', ['a.com'], True), ('a.com', ['.b.com'], False),
            ('x.a.com', [], False), ('x.a.com', 'x.a.com', True),
            ('xa.com', ['.a.com'], False), ('a.com:80', ['a.com'], True)])
        sx.check(host_is_trusted(host, refs) is want, 'for this list')
        env = {'HTTP_HOST': host, 'wsgi.url_scheme': 'https'}
        try:
            sx.check(get_host(env, refs) == host and want, 'the host')
        except SecurityError:
            sx.check(not want, 'for this list')


def h_threads(sx):
    """two threads at once, the second at any line of the first: hosts"""
    def trusted(host, refs):
        try:
            return get_host({'HTTP_HOST': host, 'wsgi.url_scheme': 'http'},
                            refs)
        except SecurityError:
            return None
    todo = [lambda: trusted('x.a.com', ['.a.com']),
            lambda: trusted('x.b.com', ['c.com', '.a.com']),
            lambda: trusted('a.com:80', ['.b.com', 'a.com'])]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
