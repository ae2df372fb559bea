"""Conditional requests: 304 exactly when the client's copy is current.

The oracle follows the documented precedence: for a response with an entity
tag, If-None-Match decides if it is present; otherwise Last-Modified is
compared with If-Modified-Since.
Outside the bounds: longer tags, dates other than those around the given
one, unparseable Last-Modified headers.
"""
from datetime import datetime

from verktyg.http import is_resource_modified, generate_etag
from verktyg.responses import Response
from verktyg.requests import Request

TAG = [c for c in map(chr, range(33, 127)) if c not in '",*/'] + ['\xe9']
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE']
ENTITY = ['content-encoding', 'content-language', 'content-length',
          'content-md5', 'content-range', 'content-type', 'last-modified']


def digits(sx, name, tens):
    """two digits as text and number"""
    a = sx.str(name + '.tens', 1, tens)
    b = sx.str(name + '.ones', 1, '0123456789')
    return a + b, (ord(a) - 48) * 10 + ord(b) - 48


def h_tags(sx):
    """tags of up to 3 (thorough 4) characters, weak or strong, one or two
    tags in the request, any method"""
    etag = sx.text('etag', sx.t(3, 4), TAG, 1)
    weak = sx.choice('weak', ['', 'w/', 'W/'])
    method = sx.choice('method', METHODS)
    env = {'REQUEST_METHOD': method}
    r = Response('body', headers=[('ETag', weak + '"' + etag + '"'),
                                  ('X-Other', 'kept')])
    kind = sx.choice('kind', ['none', 'one', 'two', 'star'])
    current = False
    if kind == 'star':
        env['HTTP_IF_NONE_MATCH'] = '*'
        current = True
    elif kind != 'none':
        tags = []
        for i in range(1 if kind == 'one' else 2):
            w = sx.bool('w%d' % i)
            t = sx.text('t%d' % i, sx.t(3, 4) if kind == 'one' else 1, TAG, 1)
            tags.append(('W/"' if w else '"') + t + '"')
            if t == etag:
                current = True
        env['HTTP_IF_NONE_MATCH'] = ', '.join(tags)
    if sx.bool('as_request'):
        got = r.make_conditional(Request(env))
    else:
        got = r.make_conditional(env)
    sx.check(got is r, 'the response is returned')
    if method not in ('GET', 'HEAD') or not current:
        sx.check(r.status_code == 200, 'a full response')
        body, status, headers = r.get_wsgi_response(env)
        sx.check(status == '200 OK', 'the status line')
        sx.check(b''.join(body) == (b'' if method == 'HEAD' else b'body'),
                 'the body is sent')
        sx.check(('Content-Length', '4') in headers, 'with its length')
    else:
        sx.check(r.status_code == 304, 'not modified')
        body, status, headers = r.get_wsgi_response(env)
        sx.check(status == '304 NOT MODIFIED', 'the status line')
        sx.check(b''.join(body) == b'', 'without a body')
        for k, v in headers:
            sx.check(k.lower() not in ENTITY, 'without entity headers')
        names = [k.lower() for k, v in headers]
        sx.check('etag' in names and 'x-other' in names and 'date' in names,
                 'with the tag and other headers')


def h_dates(sx):
    """modification and request dates that differ in minute and second, each
    of 0..59, as header or datetime with any microseconds"""
    which = sx.choice('which', ['second', 'minute'])
    ta, a = digits(sx, 'a', '012345')
    tb, b = sx.choice('b', [('00', 0), ('31', 31), ('59', 59)])
    if which == 'second':
        lm = datetime(2015, 1, 2, 3, 4, a, sx.choice('us', [0, 999999]))
        ims = 'Fri, 02 Jan 2015 03:04:' + tb + ' GMT'
    else:
        lm = datetime(2015, 1, 2, 3, 30)
        lm = lm.replace(minute=a)
        ims = 'Fri, 02 Jan 2015 03:' + tb + ':00 GMT'
    if sx.bool('tz'):
        ims = ims.replace('03:', '05:', 1).replace('GMT', '+0200')
    env = {'REQUEST_METHOD': 'GET', 'HTTP_IF_MODIFIED_SINCE': ims}
    sx.check(is_resource_modified(env, last_modified=lm) == (a > b),
             'modified exactly if later')
    r = Response('body')
    r.last_modified = lm
    r.make_conditional(env)
    sx.check((r.status_code == 304) == (a <= b), '304 exactly if not later')


def h_precedence(sx):
    """tag, date or both on the response and in the request"""
    env = {'REQUEST_METHOD': sx.choice('method', ['GET', 'HEAD'])}
    r = Response('body')
    inm = sx.choice('inm', [None, 'same', 'weak', 'other', 'empty'])
    ims = sx.choice('ims', [None, 'before', 'same', 'after', 'bad'])
    etag = sx.bool('etag')
    lm = sx.bool('lm')
    if etag:
        r.set_etag('tag')
    if lm:
        r.last_modified = datetime(2015, 1, 2, 3, 4, 5)
    if inm:
        env['HTTP_IF_NONE_MATCH'] = {
            'same': '"tag"', 'weak': 'W/"tag"', 'other': '"x"',
            'empty': ''}[inm]
    if ims:
        env['HTTP_IF_MODIFIED_SINCE'] = {
            'before': 'Fri, 02 Jan 2015 03:04:04 GMT',
            'same': 'Fri, 02 Jan 2015 03:04:05 GMT',
            'after': 'Fri, 02 Jan 2015 03:04:06 GMT',
            'bad': 'yesterday'}[ims]
    r.make_conditional(env)
    if etag and inm and inm != 'empty':
        want = inm in ('same', 'weak')
    else:
        want = bool(lm) and ims in ('same', 'after')
    sx.check((r.status_code == 304) == want, '304 exactly if current')


def h_if_modified_text(sx):
    """any If-Modified-Since text of up to 3 characters is harmless"""
    t = sx.text('t', 3, [chr(i) for i in range(32, 127)])
    env = {'REQUEST_METHOD': 'GET', 'HTTP_IF_MODIFIED_SINCE': t}
    sx.check(is_resource_modified(
        env, last_modified=datetime(2015, 1, 2)), 'not a date: modified')


def h_data(sx):
    """data instead of a tag"""
    data = sx.choice('data', [b'', b'abc'])
    other = sx.choice('other', [b'', b'abc'])
    env = {'REQUEST_METHOD': 'GET',
           'HTTP_IF_NONE_MATCH': '"' + generate_etag(other) + '"'}
    sx.check(is_resource_modified(env, data=data) == (data != other),
             'modified exactly if the data differs')
    try:
        is_resource_modified(env, etag='x', data=data)
    except TypeError:
        pass
    else:
        sx.fail('tag and data are not accepted together')


def h_history(sx):
    """one response made conditional for a client, another one of the same
    kind for the next one: any 2 of 6 requests"""
    todo = [({'HTTP_IF_NONE_MATCH': '"a"'}, True),
            ({'HTTP_IF_NONE_MATCH': '"b"'}, False),
            ({'HTTP_IF_MODIFIED_SINCE': 'Fri, 02 Jan 2015 03:04:05 GMT'},
             True),
            ({'HTTP_IF_MODIFIED_SINCE': 'Fri, 02 Jan 2015 03:04:04 GMT'},
             False), ({}, False), ({'HTTP_IF_NONE_MATCH': '*'}, True)]
    for i in range(3):
        env, current = sx.choice('request%d' % i, todo)
        env = dict(env, REQUEST_METHOD='GET')
        r = Response('body')
        if 'HTTP_IF_MODIFIED_SINCE' in env:
            r.last_modified = datetime(2015, 1, 2, 3, 4, 5)
        else:
            r.set_etag('a')
        sx.check(is_resource_modified(
            env, etag=r.get_etag()[0], last_modified=r.last_modified
        ) == (not current), 'modified')
        sx.check(r.make_conditional(env) is r, 'the response itself')
        sx.check((r.status_code == 304) == current, 'not modified')
        body, status, headers = r.get_wsgi_response(env)
        sx.check((b''.join(body) == b'') == current, 'the body')


def h_threads(sx):
    """two threads at once, the second at any line of the first: responses made conditional"""
    def ask(tag, env):
        r = Response('body ' + tag)
        r.set_etag(tag)
        env = dict(env, REQUEST_METHOD='GET')
        r.make_conditional(env)
        body, status, headers = r.get_wsgi_response(env)
        return b''.join(body), status, r.headers.get('ETag')
    todo = [lambda: ask('a', {'HTTP_IF_NONE_MATCH': '"a"'}),
            lambda: ask('a', {'HTTP_IF_NONE_MATCH': '"b"'}),
            lambda: ask('b', {})]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
