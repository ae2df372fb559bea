"""Credentials and challenges survive the trip through the headers.

Outside the bounds: longer values, schemes besides basic and digest (for
which only the absence of failures is shown), several challenges.
"""
import base64
import copy
from verktyg.http import (
    parse_authorization_header, parse_www_authenticate_header,
    WWWAuthenticate,
)
from verktyg.requests import Request
from verktyg.responses import Response

# any header text: everything but control characters (tab is allowed)
TEXT = ['\t'] + [chr(i) for i in range(32, 127)] + [
    chr(i) for i in range(160, 256)]
B64 = ['A', 'Z', 'a', 'z', '0', '9', '+', '/', '=', '-', ' ', ':', '\xe4']
FIELDS = ['username', 'realm', 'nonce', 'uri', 'response']


def quoted(v):
    """RFC 7230 quoted-string"""
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def request(header):
    return Request({'HTTP_AUTHORIZATION': header, 'REQUEST_METHOD': 'GET'})


def h_basic(sx):
    """user names and passwords of up to 3 (thorough 4) bytes"""
    n = sx.t(3, 4)
    user = sx.data('user', n)
    pw = sx.data('pw', n)
    sx.assume(b':' not in user)
    scheme = sx.choice('scheme', ['Basic ', 'basic ', 'BASIC  ', 'bAsIC '])
    header = scheme + base64.b64encode(user + b':' + pw).decode('ascii')
    for a in (parse_authorization_header(header),
              request(header).authorization):
        sx.check(a is not None and a.type == 'basic', 'recognised')
        sx.check(a.username == user.decode('latin-1'), 'user name')
        sx.check(a.password == pw.decode('latin-1'), 'password')
        sx.check(a.realm is None and a.nonce is None, 'nothing else')


def h_nocolon(sx):
    """credentials without a colon are no credentials"""
    user = sx.data('user', sx.t(4, 5))
    sx.assume(b':' not in user)
    header = 'Basic ' + base64.b64encode(user).decode('ascii')
    sx.check(parse_authorization_header(header) is None, 'refused')


def h_garbage(sx):
    """any text of up to 5 (thorough 6) characters in place of encoded
    credentials"""
    text = sx.text('text', sx.t(5, 6), B64)
    a = parse_authorization_header('Basic ' + text)
    try:
        plain = base64.b64decode(text.encode('latin-1'))
    except ValueError:
        plain = b''
    if b':' in plain and text.strip():
        user, pw = plain.split(b':', 1)
        sx.check(a is not None and a.type == 'basic', 'recognised')
        sx.check(a.username == user.decode('latin-1') and
                 a.password == pw.decode('latin-1'), 'as encoded')
    else:
        sx.check(a is None, 'refused')


def h_any(sx):
    """any header of up to 5 (thorough 6) characters is read without
    failing"""
    text = sx.text('text', sx.t(5, 6), ['B', 'd', ' ', '\t', ',', '=', '"',
                                        '\\', 'a', '\xe4', '\xff'])
    sx.check(parse_authorization_header(text) is None, 'no credentials')
    parse_www_authenticate_header(text)
    pre = sx.choice('pre', ['Digest ', 'digest', 'Basic', 'basic realm='])
    a = parse_authorization_header(pre + text)
    sx.check(a is None, 'incomplete')
    w = parse_www_authenticate_header(pre + text)
    if pre == 'Digest ':
        sx.check(w.type == 'digest', 'the scheme')


def h_digest(sx):
    """digest credentials with any two values of up to 2 (thorough 3)
    characters, every field missing in turn"""
    values = {f: 'v' for f in FIELDS}
    f = sx.choice('field', FIELDS + ['opaque'])
    values[f] = sx.text('value', sx.t(2, 3), TEXT)
    g = sx.choice('other', ['cnonce', 'opaque', 'nc'])
    if g != f:
        values[g] = sx.text('second', 2, TEXT)
    if g != 'cnonce' and sx.bool('cnonce'):
        values['cnonce'] = 'c'
    missing = sx.choice('missing', [None] + FIELDS)
    if missing:
        del values[missing]
    qop = sx.choice('qop', [None, 'auth', 'Auth, auth-int'])
    if qop:
        values['qop'] = qop
    reverse = sx.bool('reverse')
    sep = sx.choice('sep', [', ', ',', ' ,  '])
    names = list(values)
    if reverse:
        names.reverse()
    header = 'Digest ' + sep.join([n + '=' + quoted(values[n])
                                   for n in names])
    a = request(header).authorization
    if missing or (qop and not (values.get('nc') and values.get('cnonce'))):
        sx.check(a is None, 'incomplete credentials are refused')
        return
    sx.check(a is not None and a.type == 'digest', 'recognised')
    for n in FIELDS + ['opaque', 'cnonce', 'nc']:
        sx.check(getattr(a, n) == values.get(n), 'the value as sent')
    sx.check(a.password is None, 'no password')
    if qop is None:
        sx.check(len(a.qop) == 0, 'no qop')
    else:
        sx.check('auth' in a.qop and 'AUTH' in a.qop, 'qop')
        sx.check(('auth-int' in a.qop) == (qop != 'auth'), 'qop')


def h_challenge(sx):
    """challenges with values of up to 3 (thorough 4) characters are read
    back, and are quoted strings to any client"""
    realm = sx.text('realm', sx.t(3, 4), TEXT)
    kind = sx.choice('kind', ['basic', 'digest'])
    w = WWWAuthenticate()
    if kind == 'basic':
        w.set_basic(realm)
        sx.check(w.to_header() == 'Basic realm=' + quoted(realm), 'header')
    else:
        nonce = sx.text('nonce', 2, TEXT)
        stale = sx.bool('stale')
        opaque = sx.choice('opaque', [None, '', 'o"\\'])
        w.set_digest(realm, nonce, opaque=opaque, stale=stale,
                     qop=sx.choice('qop', [('auth',), ('auth', 'auth-int')]),
                     algorithm=sx.choice('algorithm', [None, 'MD5']))
        h = w.to_header()
        sx.check(h[:7] == 'Digest ', 'the scheme')
        sx.check('realm=' + quoted(realm) in h, 'realm')
        sx.check('nonce=' + quoted(nonce) in h, 'nonce')
    got = parse_www_authenticate_header(w.to_header())
    sx.check(got.type == kind, 'the scheme')
    sx.check(got.realm == realm, 'realm')
    sx.check(dict(got) == dict(w), 'everything is read back')
    if kind == 'digest':
        sx.check(got.nonce == nonce and got.opaque == opaque, 'nonce, opaque')
        sx.check(bool(got.stale) == bool(stale), 'stale')
        sx.check(got.algorithm == w.algorithm, 'algorithm')
        sx.check('auth' in got.qop, 'qop')
        sx.check(('auth-int' in got.qop) == ('auth-int' in w.qop), 'qop')


def h_response(sx):
    """a response's challenge and its header stay in step"""
    realm = sx.text('realm', 2, TEXT)
    r = Response('x')
    sx.check(not r.www_authenticate, 'none at first')
    kind = sx.choice('kind', ['basic', 'digest', 'set'])
    w = r.www_authenticate
    if kind == 'basic':
        w.set_basic(realm)
    elif kind == 'digest':
        w.set_digest('x', 'y')
        w.realm = realm
    else:
        w.type = 'digest'
        w.realm = realm
    sx.check(r.headers['WWW-Authenticate'] == w.to_header(), 'in step')
    got = r.www_authenticate
    sx.check(got.realm == realm, 'read back')
    sx.check(got.type == ('basic' if kind == 'basic' else 'digest'), 'type')
    what = sx.choice('what', ['opaque', 'stale', 'realm', 'qop', 'clear',
                              'domain'])
    if what == 'opaque':
        got.opaque = realm
        sx.check(r.www_authenticate.opaque == realm, 'set')
        got.opaque = None
        sx.check(r.www_authenticate.opaque is None, 'removed')
        sx.check('opaque' not in r.headers['WWW-Authenticate'], 'removed')
    elif what == 'stale':
        got.stale = True
        sx.check(r.www_authenticate.stale is True, 'set')
        got.stale = False
        sx.check(r.www_authenticate.stale is False, 'set')
        got.stale = None
        sx.check(r.www_authenticate.stale is None, 'removed')
    elif what == 'realm':
        got.realm = None
        sx.check(r.www_authenticate.realm is None, 'removed')
        sx.check(r.www_authenticate.type == got.type, 'type is kept')
    elif what in ('qop', 'domain'):
        getattr(got, what).add('auth-int')
        again = getattr(r.www_authenticate, what)
        sx.check('auth-int' in again, 'added')
        if sx.bool('cleared'):
            again.clear()
        else:
            again.remove('auth-int')
        now = r.www_authenticate
        sx.check('auth-int' not in getattr(now, what), 'removed')
        if not len(getattr(now, what)):
            sx.check(what not in now, 'no empty sets')
            sx.check((what + '=') not in r.headers['WWW-Authenticate'],
                     'no empty sets')
    else:
        sx.check(str(got) == got.to_header(), 'text')
        got.clear()
        sx.check('WWW-Authenticate' not in r.headers, 'removed')
        sx.check(not r.www_authenticate, 'removed')


def h_switch(sx):
    """challenges replaced by others, directly or in a response: nothing of
    the old one stays"""
    where = sx.choice('where', ['object', 'response'])
    r = Response('x')
    w = r.www_authenticate if where == 'response' else WWWAuthenticate()
    first = sx.choice('first', ['none', 'basic', 'digest', 'own'])
    if first == 'basic':
        w.set_basic('old')
    elif first == 'digest':
        w.set_digest('old', 'n', opaque='o', stale=True, algorithm='MD5')
    elif first == 'own':
        w['foo'] = 'bar'
    realm = sx.text('realm', 1, TEXT)
    if sx.choice('then', ['basic', 'digest']) == 'basic':
        w.set_basic(realm)
        want = 'Basic realm=' + quoted(realm)
    else:
        w.set_digest(realm, 'm', qop=['auth'])
        want = ('Digest realm=' + quoted(realm) +
                ', nonce="m", qop="auth"')
    sx.check(w.to_header() == want, 'exactly the new challenge')
    if where == 'response':
        sx.check(r.headers.getlist('www-authenticate') == [want], 'in step')


def h_quoting(sx):
    """the parameters that have to be quoted are quoted, tokens or not; any
    others are read back as well; values of up to 2 characters"""
    name = sx.choice('name', ['realm', 'nonce', 'opaque', 'qop', 'domain',
                              'algorithm', 'foo'])
    v = sx.text('v', 2, TEXT)
    w = WWWAuthenticate('digest', {name: v})
    if name not in ('algorithm', 'foo'):
        sx.check(w.to_header() == 'Digest ' + name + '=' + quoted(v),
                 'quoted')
    got = parse_www_authenticate_header(w.to_header())
    sx.check(dict(got) == dict(w), 'read back')
    set_ = WWWAuthenticate('digest')
    if name in ('qop', 'domain') and v.strip():
        getattr(set_, name).add(v)
        sx.check(list(getattr(set_, name)) == [v], 'the set')
        got = parse_www_authenticate_header(set_.to_header())
        sx.check(list(getattr(got, name)) == [v], 'read back')
    elif name not in ('foo', 'qop', 'domain'):
        setattr(set_, name, v)
        sx.check(getattr(set_, name) == v, 'attribute')
        setattr(set_, name, None)
        sx.check(name not in set_, 'removed')


def h_stale(sx):
    """the stale flag in any case and notation"""
    value = sx.choice('value', [None, 'true', 'false'])
    if value is None:
        w = parse_www_authenticate_header('Digest realm="x"')
        sx.check(w.stale is None, 'unknown')
        return
    text = ''
    for i, c in enumerate(value):
        text += c.upper() if sx.bool('upper%d' % i) else c
    if sx.bool('quoted'):
        text = '"' + text + '"'
    w = parse_www_authenticate_header('Digest realm="x", stale=' + text)
    sx.check(w.stale is (value == 'true'), 'the flag')
    r = Response('x')
    r.headers['WWW-Authenticate'] = 'Digest stale=' + text
    sx.check(r.www_authenticate.stale is (value == 'true'), 'the flag')


def h_history(sx):
    """a challenge written after each of 3 of 9 changes"""
    w = WWWAuthenticate('basic', {'realm': 'a'})
    model = {'realm': 'a'}
    name = 'Basic'
    for i in range(4):
        got = parse_www_authenticate_header(w.to_header())
        sx.check(w.to_header().split(' ')[0] == name, 'the scheme')
        sx.check(str(w) == w.to_header(), 'as text')
        sx.check(got.type == name.lower(), 'the scheme')
        for k in ('realm', 'nonce', 'opaque', 'x'):
            sx.check(got.get(k) == model.get(k), 'what was set last')
        if i == 3:
            break
        op = sx.choice('op%d' % i, [
            'set', 'add', 'pop', 'del', 'update', 'basic', 'digest',
            'property', 'type'])
        if op == 'set':
            w['realm'] = model['realm'] = 'v%d' % i
        elif op == 'add':
            w['x'] = model['x'] = 'x%d' % i
        elif op == 'pop':
            w.pop('realm', None)
            model.pop('realm', None)
            w.setdefault('nonce', 'n')
            model.setdefault('nonce', 'n')
        elif op == 'del':
            if 'x' in w:
                del w['x']
                del model['x']
        elif op == 'update':
            w.update({'realm': 'u%d' % i, 'opaque': 'o%d' % i})
            model.update({'realm': 'u%d' % i, 'opaque': 'o%d' % i})
        elif op == 'basic':
            w.set_basic('b%d' % i)
            name, model = 'Basic', {'realm': 'b%d' % i}
        elif op == 'digest':
            w.set_digest('d%d' % i, 'n%d' % i)
            name, model = 'Digest', {'realm': 'd%d' % i, 'nonce': 'n%d' % i}
        elif op == 'property':
            w.realm = model['realm'] = 'p%d' % i
        else:
            w.type = 'basic' if name == 'Digest' else 'digest'
            name = 'Basic' if name == 'Digest' else 'Digest'
        if not model:
            w['realm'] = model['realm'] = 'again'


def h_threads(sx):
    """two threads at once, the second at any line of the first: credentials and challenges"""
    def auth(text):
        a = parse_authorization_header(text)
        return a and (a.type, sorted(a.items()))

    def challenge(text):
        w = parse_www_authenticate_header(text)
        return w.type, sorted(w.items()), w.to_header()
    todo = [lambda: auth('Basic YTpi'), lambda: auth('Basic Yzpk'),
            lambda: challenge('Basic realm="a"'),
            lambda: challenge('Digest realm="b", nonce="c", qop="auth"')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')


def h_copies(sx):
    """credentials of both types copied and pickled"""
    if sx.bool('basic'):
        a = sx.data('user', 1, b'a\xe4')
        b = sx.data('password', 1, b':b')
        header = 'Basic ' + base64.b64encode(
            bytes(a) + b':' + bytes(b)).decode('ascii')
        kind = 'basic'
    else:
        v = sx.text('v', 1, ['a', '"', ' '])
        header = 'Digest ' + ', '.join(f + '=' + quoted(v) for f in FIELDS)
        kind = 'digest'
    auth = request(header).authorization
    sx.check(auth.type == kind, 'its type')
    how = sx.choice('how', ['copy', 'deepcopy', 0, 2, 4])
    if how == 'copy':
        again = copy.copy(auth)
    elif how == 'deepcopy':
        again = copy.deepcopy(auth)
    else:
        # what unpickling does
        f, args, state, _, items = (
            tuple(auth.__reduce_ex__(how)) + (None, None, None))[:5]
        again = f(*args)
        again.__dict__.update(state or {})
        for k, v in items or ():
            again[k] = v
    sx.check(type(again) is type(auth) and again.type == kind, 'type')
    sx.check(dict(again) == dict(auth), 'values')
    sx.check(again.username == auth.username and again.realm == auth.realm and
             again.password == auth.password, 'attributes')
