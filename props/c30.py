"""Conversions between URIs, IRIs and environments keep the meaning of urls.

Two components mean the same if they consist of the same sequence of literal
delimiters and bytes; this is compared token by token.
Outside the bounds: longer components, percent signs that do not start an
escape (uri_to_iri), escapes that are not UTF-8, host names beyond the
listed ones, relative references without a leading slash.
"""
from urllib.parse import urlsplit
from verktyg.urls import (
    uri_to_iri, iri_to_uri, url_fix, encode_idna, decode_idna,
)
from verktyg.requests import Request
from verktyg.wsgi import (
    get_current_url, get_query_string, get_path_info, get_script_name,
    wsgi_decoding_dance, wsgi_encoding_dance, wsgi_get_bytes,
)

HEX = '0123456789ABCDEFabcdef'
PATH = '/;?%#'
QUERY = '%;/?:@&=+,$#'
HOSTS = [('h', 'h'), ('a.b:8080', 'a.b:8080'), ('xn--n3h.net', '\u2603.net'),
         ('xn--f-1gaa.com:1', 'f\xf6\xf6.com:1'), ('[::1]:8', '[::1]:8'),
         ('[::1]', '[::1]'), ('[2001:db8::a]:443', '[2001:db8::a]:443'),
         ('h:65535', 'h:65535'), ('h:1', 'h:1'), ('127.0.0.1', '127.0.0.1'),
         ('a_b.c-d.', 'a_b.c-d.'), ('a' * 64 + '.net', 'a' * 64 + '.net'),
         ('xn--n3h.a.xn--n3h', '\u2603.a.\u2603'),
         ('a.xn--n3h.net:80', 'a.\u2603.net:80'),
         ('xn--n3h.xn--0', '\u2603.xn--0'), ('xn--0.xn--n3h', 'xn--0.\u2603')]


def tokens(text, reserved):
    """literal delimiters as texts, everything else as byte values"""
    rv = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == '%' and len(text) >= i + 3 and text[i + 1] in HEX and (
                text[i + 2] in HEX):
            rv.append(int(text[i + 1:i + 3], 16))
            i += 3
            continue
        if c in reserved:
            rv.append(c)
        else:
            for b in c.encode('utf-8'):
                rv.append(b)
        i += 1
    return rv


def escaped(sx, name, n, chars, bytes_):
    """text of up to n literals and escapes"""
    rv = ''
    for i in range(n):
        kind = sx.choice('%s%d.kind' % (name, i),
                         ['end', 'char', 'escape', 'multi'])
        if kind == 'end':
            break
        if kind == 'char':
            rv += sx.text('%s%d' % (name, i), 1, chars, 1)
        elif kind == 'multi':
            rv += sx.choice('%s%d.m' % (name, i),
                            ['%C3%A4', '%e2%82%ac', '%F0%9F%98%80'])
        else:
            b = sx.choice('%s%d.b' % (name, i), bytes_)
            style = sx.choice('%s%d.s' % (name, i), ['%%%02X', '%%%02x'])
            rv += style % b
    return rv


BYTES = [0, 9, 10, 13, 31, 32, 34, 35, 37, 38, 43, 44, 47, 58, 59, 60, 61,
         63, 64, 65, 91, 92, 93, 126, 127]
CHARS = ['a', '/', '.', '~', '&', '=', '+', ';', ':', '@', '?', ',', '!']


def h_iri_part(sx):
    """one component of up to 2 (thorough 3) literals and escapes"""
    part = sx.choice('part', ['path', 'query', 'fragment'])
    chars = [c for c in CHARS if part != 'path' or c != '?']
    text = escaped(sx, 't', sx.t(2, 3), chars, BYTES)
    if part == 'path':
        uri = sx.choice('base', ['http://h/', '/a/']) + text + '?q#f'
    elif part == 'query':
        uri = sx.choice('base', ['http://h/?', '/?']) + text + '#f'
    else:
        uri = 'http://h/?q#' + text
    iri = uri_to_iri(uri)
    a = urlsplit(uri)
    b = urlsplit(iri)
    sx.check(a.scheme == b.scheme and a.netloc == b.netloc, 'the same site')
    sx.check(tokens(a.path, PATH) == tokens(b.path, PATH), 'the same path')
    sx.check(tokens(a.query, QUERY) == tokens(b.query, QUERY),
             'the same query')
    sx.check(tokens(a.fragment, QUERY) == tokens(b.fragment, QUERY),
             'the same fragment')
    for c in iri:
        sx.check(c > '\x1f' and c != '\x7f', 'no control characters')
    if '%C3%A4' in uri:
        sx.check('\xe4' in iri and '%C3' not in iri, 'other text is decoded')
    sx.check(uri_to_iri(iri) == iri, 'done once')
    back = urlsplit(iri_to_uri(iri))
    sx.check(back.scheme == a.scheme and back.netloc == a.netloc,
             'back to the same site')
    sx.check(tokens(back.path, '/%') == tokens(a.path, '/%'),
             'back to the same path')
    sx.check(tokens(back.query, '&=+;%') == tokens(a.query, '&=+;%'),
             'back to the same query')


def h_user(sx):
    """user names and passwords with up to 2 literals and escapes"""
    user = escaped(sx, 'u', 2, ['a', '+', '.'], BYTES)
    both = sx.choice('both', [True, False])
    auth = user + ':p%23' if both else user
    uri = 'http://' + auth + '@h:8/x'
    if not both and user == '':
        return
    iri = uri_to_iri(uri)
    b = urlsplit(iri)
    sx.check(b.hostname == 'h' and b.port == 8, 'the same host')
    sx.check(b.path == '/x' and b.query == '' and b.fragment == '',
             'the same path')
    want = tokens(user, '/:%?#@[]')
    sx.check(tokens(b.username or '', '/:%?#@[]') == want, 'the same user')
    sx.check((b.password or '') == ('p%23' if both else ''),
             'the same password')
    c = urlsplit(iri_to_uri(iri))
    sx.check(c.hostname == 'h' and c.port == 8, 'the same host')
    sx.check(tokens(c.username or '', '/:%?#@[]') == want, 'the same user')


def h_hosts(sx):
    """hosts in both forms, with and without users, and one character of a
    path"""
    uri, iri = sx.choice('host', HOSTS)
    scheme = sx.choice('scheme', ['http', 'https', 'ftp'])
    user = sx.choice('user', ['', 'u@', 'u:p@', ':p@'])
    uri = user + uri
    iri = user + iri
    p = sx.str('p', 1, sx.TOKEN)
    for c in p:
        sx.assume(c != '%' and c != '#')
    got = uri_to_iri('%s://%s/%s' % (scheme, uri, p))
    sx.check(got == '%s://%s/%s' % (scheme, iri, p), 'to an iri')
    b = urlsplit(iri_to_uri('%s://%s/%s' % (scheme, iri, p)))
    sx.check(b.scheme == scheme and b.netloc == uri, 'and back')
    sx.check(tokens(b.path, '/') == tokens('/' + p, '/'), 'the path')
    same = '%s://%s/%s' % (scheme, uri, 'x')
    sx.check(iri_to_uri(same) == same, 'done already')
    sx.check(url_fix(same) == same, 'nothing to fix')
    sx.check(url_fix('%s://%s/%s' % (scheme, iri, 'x')) == same, 'fixed')


def h_drive(sx):
    """urls of files with drive letters, and urls that look like them"""
    scheme = sx.choice('scheme', ['file', 'http', 'ftp', 'files'])
    letter = sx.str('letter', 1, ['a', 'C', 'z', '1', '_'])
    sx.assume(len(letter) == 1)
    sep = sx.choice('sep', [':/', '|/', ':\\', '/'])
    slashes = sx.choice('slashes', ['//', '///'])
    url = scheme + ':' + slashes + letter + sep + 'x'
    drive = letter not in '1_' and sep != '/'
    got = urlsplit(url_fix(url))
    sx.check(got.scheme == scheme, 'the same scheme')
    path = letter + sep.replace('\\', '/').replace('/', '') + '/x'
    if slashes == '///':
        sx.check(got.netloc == '', 'no host')
        sx.check(raw(got.path) == [ord(c) for c in '/' + path],
                 'the same path')
    elif scheme == 'file' and drive:
        sx.check(got.netloc == '', 'a drive is no host')
        sx.check(raw(got.path) == [ord(c) for c in '/' + path],
                 'the drive is in the path')
    elif sep != '|/':
        sx.check(got.hostname == letter.lower(), 'the same host')
        sx.check(got.path == '/x', 'the same path')


def h_idna(sx):
    """hosts as bytes and as text"""
    uri, iri = sx.choice('host', HOSTS)
    sx.check(decode_idna(uri) == iri, 'from text')
    sx.check(decode_idna(uri.encode('ascii')) == iri, 'from bytes')
    sx.check(decode_idna(iri) == iri, 'done already')
    if not iri.endswith('.'):
        sx.check(encode_idna(iri) == uri.encode('ascii'), 'from text')
    sx.check(encode_idna(uri) == uri.encode('ascii'), 'done already')
    sx.check(encode_idna(uri.encode('ascii')) == uri.encode('ascii'),
             'bytes are kept')
    v = sx.str('v', 3, ['a', '-', '.', '_', '0'])
    sx.check(encode_idna(v) == v.encode('ascii'), 'plain names are kept')
    sx.check(decode_idna(v) == v, 'plain names are kept')


IRI = ['a', '/', '%', '4', 'F', '~', '&', '=', '+', ';', ':', '@', ',', '"',
       '<', ' ', '\xe4', '\u20ac', '\\', '[', '|', '\x7f', "'", '(', '^']


def h_uri_part(sx):
    """components of up to 3 (thorough 4) characters to URIs"""
    part = sx.choice('part', ['path', 'query', 'fragment'])
    text = sx.text('t', sx.t(3, 4), IRI)
    if part == 'path':
        iri = 'http://h/' + text
    elif part == 'query':
        iri = '/x?' + text
    else:
        iri = 'http://h/x#' + text
    uri = iri_to_uri(iri)
    for c in uri:
        sx.check('!' <= c and c <= '~' and c not in '"<>\\^`{|}',
                 'only characters of urls')
    a = urlsplit(iri)
    b = urlsplit(uri)
    sx.check(a.scheme == b.scheme and a.netloc == b.netloc, 'the same site')
    sx.check(tokens(a.path, '/%') == tokens(b.path, '/%'), 'the same path')
    sx.check(tokens(a.query, '&=+;%') == tokens(b.query, '&=+;%'),
             'the same query')
    sx.check(tokens(a.fragment, '&=+;%') == tokens(b.fragment, '&=+;%'),
             'the same fragment')
    sx.check(iri_to_uri(uri) == uri, 'done once')


def h_fix(sx):
    """components of up to 3 (thorough 4) characters fixed"""
    part = sx.choice('part', ['path', 'query', 'fragment'])
    text = sx.text('t', sx.t(3, 4), IRI)
    if part == 'path':
        iri = sx.choice('b', ['http://h/', '/', 'http:\\\\h\\']) + text
        want = '/' + text.replace('\\', '/')
    elif part == 'query':
        iri = '/x?' + text
        want = text.replace('\\', '/').replace(' ', '+')
    else:
        iri = 'http://h/x#' + text
        want = text.replace('\\', '/').replace(' ', '+')
    sx.assume(not iri.startswith('//') and '/\\' not in iri)
    uri = url_fix(iri)
    for c in uri:
        sx.check('!' <= c and c <= '~' and c not in '"<>\\^`{|}',
                 'only characters of urls')
    b = urlsplit(uri)
    sx.check(b.netloc == ('h' if iri.startswith('http') else ''),
             'the same site')
    if part == 'path':
        sx.check(tokens(b.path, '/%') == tokens(want, '/%'), 'the same path')
    elif part == 'query':
        sx.check(b.path == '/x', 'the same path')
        sx.check(tokens(b.query, '&=+%') == tokens(want, '&=+%'),
                 'the same query')
    else:
        sx.check(tokens(b.fragment, '&=+%') == tokens(want, '&=+%'),
                 'the same fragment')
    sx.check(url_fix(uri) == uri, 'done once')


def raw(text):
    """percent decoded bytes"""
    return [x if isinstance(x, int) else ord(x) for x in tokens(text, '')]


def valid(b):
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        return False
    return True


def h_current(sx):
    """urls of requests with scripts and paths of up to 2 (thorough 3) bytes
    and queries of up to 2 characters"""
    n = sx.t(2, 3)
    p = b'/' + sx.data('p', n, b'a/?#% ;\n\xc3\xa4')
    s = sx.choice('s', [b'', b'/s', b'/s/', b'/%\xc3\xa4'])
    q = sx.text('q', 2, ['a', '&', '=', '%', '/', '?', '"', ' '])
    sx.assume(valid(p))
    host, iri = sx.choice('host', HOSTS[:3])
    environ = {
        'wsgi.url_scheme': 'http', 'HTTP_HOST': host,
        'SCRIPT_NAME': s.decode('latin1'), 'PATH_INFO': p.decode('latin1'),
        'QUERY_STRING': q, 'REQUEST_METHOD': 'GET',
    }
    r = Request(environ)
    root = s.rstrip(b'/') + b'/'
    full = root + p.lstrip(b'/')
    site = 'http://' + iri
    sx.check(r.host_url == site + '/', 'the site')
    for url, path in [(r.url, full), (r.base_url, full), (r.url_root, root)]:
        sx.check(url.startswith(site + '/'), 'on this site')
        rest = url[len(site):]
        if '?' in rest:
            rest, query = rest.split('?', 1)
        else:
            query = ''
        sx.check('#' not in rest, 'no fragment')
        sx.check(raw(rest) == [x for x in path], 'the path in bytes')
        back = urlsplit(iri_to_uri(url))
        sx.check(raw(back.path) == [x for x in path], 'the path as uri')
        if url is r.url or q == '':
            sx.check(tokens(query, '&=+%') == tokens(q, '&=+%'),
                     'the query')
        else:
            sx.check(query == '', 'no query')


def h_environ(sx):
    """text and bytes of environments, up to 3 (thorough 4) bytes"""
    p = sx.data('p', sx.t(3, 4), b'a/%\xc3\xa4\xff\x00')
    name, f = sx.choice('f', [('PATH_INFO', get_path_info),
                              ('SCRIPT_NAME', get_script_name)])
    environ = {name: p.decode('latin1')}
    sx.check(f(environ, charset=None) == p, 'raw')
    sx.check(f(environ) == p.decode('utf-8', 'replace'), 'decoded')
    sx.check(f(environ, 'latin1') == p.decode('latin1'), 'other charsets')
    sx.check(f({}) == '' and f({}, charset=None) == b'', 'empty if missing')
    try:
        got = f(environ, errors='strict')
        sx.check(got == p.decode('utf-8'), 'strictly decoded')
    except UnicodeDecodeError:
        sx.check(not valid(p), 'only invalid ones are an error')
    sx.check(wsgi_get_bytes(p.decode('latin1')) == p, 'raw')
    sx.check(wsgi_encoding_dance(p) == p.decode('latin1'), 'from bytes')


def h_dance(sx):
    """text of up to 3 characters survives the environment"""
    v = sx.str('v', 3, sx.UNI)
    sx.check(wsgi_decoding_dance(wsgi_encoding_dance(v)) == v, 'unchanged')
    e = wsgi_encoding_dance(v)
    for c in e:
        sx.check(c <= '\xff', 'latin1')
    sx.check(get_path_info({'PATH_INFO': e}) == v, 'unchanged')


def h_query(sx):
    """raw query strings of up to 4 characters"""
    q = sx.text('q', 4, ['a', '&', '=', '%', '+', '\xc3', '"', ' ', '/'])
    got = get_query_string({'QUERY_STRING': q})
    for c in got:
        sx.check('!' <= c and c <= '~' and c not in '"#<>',
                 'only characters of urls')
    sx.check(get_query_string({}) == '', 'empty if missing')
    a = tokens(got, '&=+%')
    b = tokens_raw(q, '&=+%')
    sx.check(a == b, 'the same query')


def tokens_raw(text, reserved):
    """tokens of latin1 text"""
    return tokens(text.replace('\xc3', '%C3'), reserved)


def h_charset(sx):
    """components of up to 2 characters fixed with other charsets"""
    charset = sx.choice('charset', [None, 'utf-8', 'latin-1', 'cp1252'])
    part = sx.choice('part', ['path', 'query', 'fragment'])
    text = sx.text('t', 2, ['a', '\xe4', '\xff', '+', '/'])
    iri = 'http://h/x' + {'path': '', 'query': '?',
                          'fragment': '#'}[part] + text
    uri = url_fix(iri) if charset is None else url_fix(iri, charset)
    want = 'http://h/x' + {'path': '', 'query': '?',
                           'fragment': '#'}[part] if text else 'http://h/x'
    for c in text:
        if c >= '\x80':
            for b in c.encode(charset or 'utf-8'):
                want += '%%%02X' % b
        elif c == '/' and part != 'path':
            want += '%2F'
        else:
            want += c
    sx.check(uri == want, 'quoted in the charset')
    sx.check(url_fix(uri, 'ascii') == uri, 'done once')


def h_errors(sx):
    """escapes of up to 3 bytes that may be no utf-8 in any component"""
    errors = sx.choice('errors', [None, 'replace', 'ignore', 'strict'])
    part = sx.choice('part', ['path', 'query', 'fragment'])
    raw_ = sx.data('t', 3, b'a\xc3\xa4\xff')
    pre = 'http://h/x' + {'path': '', 'query': '?q', 'fragment': '#q'}[part]
    uri = pre + ''.join(['%%%02X' % b for b in raw_])
    try:
        want = raw_.decode('utf-8', errors or 'replace')
    except UnicodeDecodeError:
        want = None
    try:
        got = uri_to_iri(uri) if errors is None else uri_to_iri(uri, errors)
    except UnicodeDecodeError:
        sx.check(want is None, 'only what is not utf-8 is an error')
        return
    sx.check(want is not None and got == pre + want, 'decoded')


def h_history(sx):
    """any 3 of 14 conversions one after the other"""
    todo = [
        (uri_to_iri, 'a%26', 'a&'), (uri_to_iri, '?a%26', '?a%26'),
        (uri_to_iri, '#a%26', '#a%26'), (uri_to_iri, 'a%2F', 'a%2F'),
        (uri_to_iri, '?a%2F', '?a%2F'),
        (uri_to_iri, 'http://a%26:a%2F@h/', 'http://a%26:a%2F@h/'),
        (uri_to_iri, '/%C3%A4', '/\xe4'), (uri_to_iri, '/%c3%a4', '/\xe4'),
        (iri_to_uri, '/\xe4', '/%C3%A4'), (iri_to_uri, '/\xc4', '/%C3%84'),
        (iri_to_uri, '?a b', '?a%20b'), (iri_to_uri, 'a b', 'a%20b'),
        (url_fix, '/a b', '/a%20b'), (url_fix, '/?a b', '/?a+b'),
    ]
    for i in range(3):
        convert, url, want = sx.choice('url%d' % i, todo)
        got = convert(url)
        if convert is uri_to_iri and '%' in want and '@' in want:
            sx.check(urlsplit(got).path == '/', 'the path')
            for c in '/?#':
                sx.check(c not in urlsplit(got).netloc, 'no delimiters')
        else:
            sx.check(tokens(got, QUERY) == tokens(want, QUERY),
                     'the same meaning')


def h_threads(sx):
    """two threads at once, the second at any line of the first: urls converted"""
    todo = [lambda: uri_to_iri('http://h/%C3%A4%26?a%26'),
            lambda: uri_to_iri('http://h/%2F'),
            lambda: iri_to_uri('http://\xe4/\xe4?b c'),
            lambda: url_fix('/a b?c d')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
