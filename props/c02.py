"""What a route matches is exactly what its rule says.

The oracle is `spec`, an independent reading of the rule language.
Outside the bounds: longer paths, other rules, non-ascii decimal digits in
numeric converters.
"""
from verktyg.routing import URLMap, Route, Subdomain
from verktyg.exceptions import NotFound
from verktyg.routing import RequestRedirect
from verktyg.routing import BaseConverter, IntegerConverter, FloatConverter
from verktyg.routing import ValidationError

DIG = '0123456789'


def make(strict=True):
    return URLMap([
        Route('/', endpoint='index'),
        Route('/s/<v>', endpoint='string'),
        Route('/l2/<string(length=2):v>', endpoint='len2'),
        Route('/mm/<string(minlength=2,maxlength=3):v>', endpoint='minmax'),
        Route('/any/<any(ab, c, "x.y"):v>', endpoint='any'),
        Route('/p/<path:v>', endpoint='path'),
        Route('/q/<path:v>/e', endpoint='pathe'),
        Route('/i/<int:v>', endpoint='int'),
        Route('/f3/<int(fixed_digits=2):v>', endpoint='fixed'),
        Route('/r/<int(min=5,max=20):v>', endpoint='range'),
        Route('/f/<float(max=2.5):v>', endpoint='float'),
        Route('/b/<v>/', endpoint='branch'),
        Route('/n/<v>/', endpoint='loose', strict_slashes=False),
        Route('/m/<v>', endpoint='looseleaf', strict_slashes=False),
        Route('/a.b', endpoint='dot'),
        Route('/c+(d)|\xfc', endpoint='special'),
        Route('/d/<v>', endpoint='defaults', defaults={'page': 1}),
        Route('/never/<v>', endpoint='never', build_only=True),
    ], strict_slashes=strict)


def result(a, path):
    try:
        return a.match(path)
    except NotFound:
        return None
    except RequestRedirect:
        return 'redirect'


def digits(s):
    return len(s) > 0 and all(c in DIG for c in s)


def h_string(sx):
    """any rest of up to 3 (thorough 4) characters after four string rules"""
    pre = sx.choice('rule', ['s', 'l2', 'mm', 'd'])
    rest = sx.text('rest', sx.t(4, 5), sx.UNI)
    got = result(make().bind('h', '/'), '/%s/%s' % (pre, rest))
    lo, hi = {'s': (1, 99), 'l2': (2, 2), 'mm': (2, 3), 'd': (1, 99)}[pre]
    ok = '/' not in rest and lo <= len(rest) <= hi
    ep = {'s': 'string', 'l2': 'len2', 'mm': 'minmax', 'd': 'defaults'}[pre]
    if not ok:
        sx.check(got is None, 'no match for other strings')
    else:
        want = {'v': rest}
        if pre == 'd':
            want['page'] = 1
        sx.check(got == (ep, want), 'match with the very text')


def h_path(sx):
    """any rest of up to 3 (thorough 4) characters after two path rules"""
    pre = sx.choice('rule', ['p', 'q'])
    rest = sx.text('rest', sx.t(4, 5), sx.UNI)
    got = result(make().bind('h', '/'), '/%s/%s' % (pre, rest))
    if pre == 'p':
        want = ('path', {'v': rest}) if rest[:1] not in ('', '/') else None
    else:
        want = (('pathe', {'v': rest[:-2]})
                if len(rest) > 2 and rest[0] != '/' and rest[-2:] == '/e'
                else None)
    sx.check(got == want, 'paths match whole')


def h_number(sx):
    """any rest of up to 3 (thorough 4) characters after four number rules"""
    pre = sx.choice('rule', ['i', 'f3', 'r'])
    rest = sx.text('rest', sx.t(3, 4), [c for c in sx.UNI
                                        if c in DIG or not c.isdigit()])
    got = result(make().bind('h', '/'), '/%s/%s' % (pre, rest))
    want = None
    if digits(rest):
        n = int(rest)
        if pre == 'i':
            want = ('int', {'v': n})
        elif pre == 'f3':
            want = ('fixed', {'v': n}) if len(rest) == 2 else None
        elif 5 <= n <= 20:
            want = ('range', {'v': n})
    sx.check(got == want, 'numbers match by value')


def h_float(sx):
    """d.d, d.dd and two stray characters"""
    rest = sx.choice('form', ['%s.%s', '%s%s', '%s.%s5', '-%s.%s', '%s,%s'])
    a = sx.str('a', 1, [c for c in sx.UNI if c in DIG or not c.isdigit()])
    b = sx.str('b', 1, [c for c in sx.UNI if c in DIG or not c.isdigit()])
    rest = rest % (a, b)
    got = result(make().bind('h', '/'), '/f/' + rest)
    i, dot, f = rest.partition('.')
    if digits(i) and digits(f) and float(rest) <= 2.5:
        sx.check(got is not None and got[0] == 'float' and
                 got[1]['v'] == float(rest), 'floats match by value')
    else:
        sx.check(got is None, 'nothing but floats in range')


def h_literal(sx):
    """any path of up to 4 (thorough 5) characters against rules without
    variables, and any() alternatives"""
    pre = sx.choice('pre', ['', 'any/', 'c+', 'never/'])
    rest = sx.text('rest', sx.t(4, 5), sx.UNI)
    got = result(make().bind('h', '/'), '/' + pre + rest)
    path = (pre + rest).lstrip('/')
    if path == '':
        want = ('index', {})
    elif path == 'a.b':
        want = ('dot', {})
    elif path == 'c+(d)|\xfc':
        want = ('special', {})
    elif pre == 'any/' and rest in ('ab', 'c', 'x.y'):
        want = ('any', {'v': rest})
    elif path[1:2] == '/' and path[:1] in 'spidqrfbnm':
        return      # other rules
    else:
        want = None
    sx.check(got == want, 'literal text matches only itself')


def h_slash(sx):
    """rest of up to 3 (thorough 4) characters after branch rules, with and
    without strict slashes"""
    rule = sx.choice('rule', ['b', 'n', 'm', 's'])
    strict = sx.bool('strict')
    rest = sx.text('rest', sx.t(3, 4), sx.UNI)
    got = result(make(strict).bind('h', '/'), '/%s/%s' % (rule, rest))
    core = rest[:-1] if rest[-1:] == '/' else rest
    tail = rest[-1:] == '/'
    if core == '' or '/' in core:
        want = None
    elif rule == 'b':
        want = ('branch', {'v': core})
        if strict and not tail:
            want = 'redirect'
    elif rule == 'n':
        want = ('loose', {'v': core})
    elif rule == 'm':
        want = ('looseleaf', {'v': core})
    else:
        want = ('string', {'v': core}) if not tail or not strict else None
    sx.check(got == want, 'trailing slashes')


def h_uuid(sx):
    """a uuid with one arbitrary character at five positions"""
    good = '12345678-9abc-4ef0-8123-056780ddE00f'
    pos = sx.choice('pos', [0, 8, 14, 23, 35])
    c = sx.str('c', 1, sx.UNI)
    text = good[:pos] + c + good[pos + 1:]
    m = URLMap([Route('/u/<uuid:v>', endpoint='uuid')])
    got = result(m.bind('h', '/'), '/u/' + text)
    hexd = '0123456789abcdefABCDEF'
    if (c == '-') if pos in (8, 23) else (c in hexd):
        sx.check(got is not None and str(got[1]['v']) == text.lower(),
                 'uuids match by value')
    else:
        sx.check(got is None, 'only uuids match')


def h_host(sx):
    """subdomain of up to 3 characters against fixed and variable
    subdomains, and host matching"""
    sub = sx.text('sub', sx.t(3, 4), list('abwxyz01-'))
    matching = sx.bool('host_matching')
    if matching:
        m = URLMap([
            Route('/', endpoint='root', host='h.com'),
            Route('/', endpoint='w', host='www.h.com'),
            Route('/', endpoint='any',
                  host='<string(length=2):sub>.h.com'),
        ], host_matching=True)
        a = m.bind((sub + '.' if sub else '') + 'h.com')
    else:
        m = URLMap([
            Route('/', endpoint='root'),
            Route('/', endpoint='w', subdomain='www'),
            Subdomain('<string(length=2):sub>', [
                Route('/', endpoint='any')]),
        ])
        a = m.bind('h.com', subdomain=sub)
    got = result(a, '/')
    if sub == '':
        want = ('root', {})
    elif sub == 'www':
        want = ('w', {})
    elif len(sub) == 2:
        want = ('any', {'sub': sub})
    else:
        want = None
    sx.check(got == want, 'hosts and subdomains select routes')


def h_noheader(sx):
    """a map bound without a path matches its root"""
    m = make()
    n = sx.choice('slashes', range(3))
    sx.check(result(m.bind('h', '/'), '/' * n) == ('index', {}),
             'any number of leading slashes')
    sx.check(m.bind('h', '/').match() == ('index', {}),
             'the root is the default')
    sx.check(m.bind('h', '/', path_info='/a.b').match() == ('dot', {}),
             'the bound path is used')


def h_limits(sx):
    """minimum and maximum of 0..12 or none, fixed digits 0..3, against any
    number of 1..3 digits"""
    kw = {}
    lo = sx.int('min', 0, 12) if sx.bool('has_min') else None
    hi = sx.int('max', 0, 12) if sx.bool('has_max') else None
    digs = sx.choice('digits', [None, 0, 1, 2, 3])
    if digs is not None:
        kw['fixed_digits'] = digs
    c = IntegerConverter(URLMap(), min=lo, max=hi, **kw)
    text = sx.text('v', 3, '0129', 1)
    n = int(text)
    ok = ((lo is None or n >= lo) and (hi is None or n <= hi) and
          (not digs or len(text) == digs))
    try:
        got = c.to_python(text)
    except ValidationError:
        sx.check(not ok, 'only numbers outside the limits are refused')
        return
    sx.check(ok and got == n, 'only numbers within the limits are accepted')


def h_rule_limits(sx):
    """limits of zero and one in rules"""
    m = URLMap([Route('/a/<int(max=0):v>', endpoint='a'),
                Route('/b/<int(min=1, max=1):v>', endpoint='b'),
                Route('/c/<float(max=0):v>', endpoint='c'),
                Route('/d/<float(min=0.5, max=1.5):v>', endpoint='d'),
                Route('/e/<string(maxlength=1):v>', endpoint='e'),
                Route('/f/<string(minlength=2):v>', endpoint='f'),
                Route('/g/<int(2, 5, 20):v>', endpoint='g'),
                ])
    rule = sx.choice('rule', list('abcdefg'))
    v = sx.text('v', 2, '0156', 1)
    if rule in 'cd':
        v = v + '.' + sx.text('w', 1, '0159', 1)
    got = result(m.bind('h'), '/' + rule + '/' + v)
    n = float(v)
    ok = {'a': n == 0, 'b': n == 1, 'c': n == 0, 'd': 0.5 <= n <= 1.5,
          'e': len(v) == 1, 'f': len(v) == 2,
          'g': len(v) == 2 and 5 <= n <= 20}[rule]
    if not ok:
        sx.check(got is None, 'outside the limits')
    else:
        sx.check(got is not None and got[0] == rule and
                 got[1]['v'] == (v if rule in 'ef' else n),
                 'within the limits')


class Recorder(BaseConverter):
    last = None

    def __init__(self, router, *args, **kwargs):
        BaseConverter.__init__(self, router)
        self.args = (args, kwargs)
        Recorder.last = self.args


def h_arguments(sx):
    """arguments of a converter: up to two, positional or by name, numbers,
    words, constants or quoted text of up to 2 characters"""
    texts, args, kwargs = [], [], {}
    for name in 'ab'[:sx.choice('n', [1, 2])]:
        kind = sx.choice('kind' + name, ['int', 'word', 'const', 'quoted'])
        if kind == 'int':
            value = sx.choice('i' + name, [0, 7, 42])
            text = str(value)
        elif kind == 'const':
            text, value = sx.choice('c' + name, [
                ('True', True), ('False', False), ('None', None)])
        elif kind == 'word':
            value = text = sx.choice('w' + name, ['ab', 'x_y'])
        else:
            q = sx.choice('q' + name, ['"', "'"])
            value = sx.text('t' + name, 1 if texts else sx.t(1, 2),
                            [c for c in ('a ,=)' if texts else
                                         'az_7 .,;=()[]-+?*|\\\'"\xfc')
                             if c != q])
            sx.assume(not value.isdigit())
            text = q + value + q
        if sx.bool('by' + name):
            kwargs[name] = value
            texts.append(name + sx.choice('eq' + name, ['=', ' = ']) + text)
        else:
            sx.assume(not kwargs)
            args.append(value)
            texts.append(text)
    sep = ', ' if len(texts) > 1 and sx.bool('space') else ','
    rule = '/x/<rec(' + sep.join(texts) + '):v>'
    m = URLMap([Route(rule, endpoint='x')], converters={'rec': Recorder})
    sx.check(result(m.bind('h'), '/x/y') == ('x', {'v': 'y'}), 'it matches')
    sx.check(Recorder.last == (tuple(args), kwargs),
             'the converter gets its arguments')


def h_test(sx):
    """test() agrees with match(): rest of up to 2 characters after six
    kinds of rule, bound or given"""
    m = URLMap([Route('/s/<v>', endpoint='s'),
                Route('/b/<v>/', endpoint='b'),
                Route('/i/<int(max=5):v>', endpoint='i'),
                Route('/a/<v>', endpoint='s', alias=True),
                Route('/r/<v>', redirect_to='s/<v>'),
                Route('/o/<v>', endpoint='s', build_only=True)])
    path = '/' + sx.choice('rule', list('sbiaro')) + '/' + sx.text(
        'rest', 2, list('a7/'))
    if sx.bool('bound'):
        a = m.bind('h', path_info=path)
        path = None
    else:
        a = m.bind('h')
    got = a.test(path)
    sx.check(got is (result(a, path) is not None),
             'true exactly for paths that match or are redirected')


def h_independent(sx):
    """values of one match are not changed by another one or by changing
    what was returned; rules with and without defaults"""
    m = URLMap([Route('/d/<v>', endpoint='d', defaults={'p': 1}),
                Route('/s/<v>', endpoint='s'),
                Route('/e', endpoint='e', defaults={'p': 2}),
                Route('/n', endpoint='n')])
    if sx.bool('bound'):
        a = b = m.bind('h')
    else:
        a, b = m.bind('h'), m.bind('h')
    got = []
    for i, ad in enumerate((a, b)):
        rule = sx.choice('rule%d' % i, list('dsen'))
        path = '/' + rule
        want = {}
        if rule in 'ds':
            v = sx.text('v%d' % i, 1, 'xy', 1)
            path, want = path + '/' + v, {'v': v}
        if rule in 'de':
            want['p'] = 1 if rule == 'd' else 2
        got.append((ad.match(path), (rule, want), path))
    for res, want, path in got:
        sx.check(res == want, 'each match has its own values')
    for res, want, path in got:
        res[1]['p'] = 9
        res[1]['w'] = 9
    for res, want, path in got:
        sx.check(a.match(path) == want, 'changing them changes no route')


class Letters(BaseConverter):
    regex = '[a-z]+'

    def to_python(self, value):
        return value.upper()


def h_own_converters(sx):
    """converters of one map do not matter to another: a new one, a builtin
    one redefined, the default one redefined"""
    name = sx.choice('name', ['letters', 'int', 'default', 'path'])
    rule = sx.choice('rule', ['/<int:v>', '/<v>', '/<path:v>'])
    own = {'letters': '/<letters:v>', 'int': '/<int:v>', 'default': '/<v>',
           'path': '/<path:v>'}[name]
    other = URLMap([Route(own, endpoint='x')], converters={name: Letters})
    m = URLMap([Route(rule, endpoint='x')])
    v = sx.text('v', 1, 'a7/', 1)
    sx.assume(v != '/')
    want = {'v': v}
    if rule == '/<int:v>':
        want = {'v': 7} if v == '7' else None
    sx.check(result(m.bind('h'), '/' + v)
             == (want and ('x', want)), 'builtin converters')
    sx.check(result(other.bind('h'), '/' + v)
             == (('x', {'v': 'A'}) if v == 'a' else None), 'its own converter')
    try:
        URLMap([Route('/<letters:v>', endpoint='x')])
    except LookupError:
        return
    sx.fail('unknown converters are refused')


def h_static_slash(sx):
    """rules without variables with and without a slash, strict or not, by
    their own setting or that of the map; path of up to 4 characters"""
    default = sx.bool('default')
    own = sx.choice('own', [None, True, False])
    strict = default if own is None else own
    leaf = sx.bool('leaf')
    m = URLMap([Route('/ab' if leaf else '/ab/', endpoint='e',
                      strict_slashes=own)], strict_slashes=default)
    path = sx.text('path', 4, 'ab/', 1)
    got = result(m.bind('h', '/'), '/' + path)
    path = path.lstrip('/')
    if path == 'ab':
        want = 'redirect' if strict and not leaf else ('e', {})
    elif path == 'ab/':
        want = None if strict and leaf else ('e', {})
    else:
        want = None
    sx.check(got == want, 'trailing slashes of static rules')


def h_threads(sx):
    """two threads matching 5 (thorough 7) paths on one map, the second at any line of
    the first"""
    todo = ['/i/1', '/s/a', '/s/b', '/d/v', '/n/w', '/i/x', '/b/c']
    todo = todo[:sx.t(5, 7)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def make_both():
        a = shared.bind('h', '/')
        return (lambda: result(a, one)), (lambda: result(a, two))
    shared = make()
    sx.interleave('at', make_both, 'both threads get their own match')


class Reentrant(BaseConverter):
    """looks up another path of the same map while it converts"""
    def to_python(self, value):
        if value[:1] == 'x':
            return value, result(self.map.bind('h', '/'), '/t/y/z')
        return value


def h_reentrant(sx):
    """a converter that uses the map itself"""
    m = URLMap([Route('/t/<r:a>/<r:b>', endpoint='e')],
               converters={'r': Reentrant})
    Reentrant.map = m
    a = sx.choice('a', ['x', 'u', 'xx'])
    b = sx.choice('b', ['x', 'v'])
    inner = 'e', {'a': 'y', 'b': 'z'}
    got = m.bind('h', '/').match('/t/%s/%s' % (a, b))
    sx.check(got == ('e', {
        'a': (a, inner) if a[0] == 'x' else a,
        'b': (b, inner) if b[0] == 'x' else b}), 'all values are its own')


def h_branches(sx):
    """rules of 0 to 4 parts, the variable ones of 3 types, that end with a
    slash; strict by the map or the route or not; with defaults"""
    n = sx.choice('n', range(sx.t(4, 5)))
    rule, path, values = '/r/', '/r', {}
    for i in range(n):
        kind = sx.choice('kind%d' % i, ['static', 'text', 'int'])
        if kind == 'static':
            rule += 'p%d/' % i
            path += '/p%d' % i
        elif kind == 'text':
            v = sx.str('v%d' % i, 1, ['a', '7', '\xe4', '-'])
            sx.assume(len(v) == 1)
            rule += '<a%d>/' % i
            path += '/' + v
            values['a%d' % i] = v
        else:
            v = sx.int('v%d' % i, 0, 9)
            rule += '<int:a%d>/' % i
            path += '/%d' % v
            values['a%d' % i] = v
    defaults = sx.choice('defaults', [None, {'d': 1}])
    own = sx.choice('own', [None, True, False])
    strict = sx.bool('strict')
    m = URLMap([Route(rule, endpoint='e', defaults=defaults,
                      strict_slashes=own)], strict_slashes=strict)
    if own is not None:
        strict = own
    values.update(defaults or {})
    a = m.bind('h', '/')
    sx.check(result(a, path + '/') == ('e', values), 'with its slash')
    sx.check(result(a, path) == ('redirect' if strict else ('e', values)),
             'without its slash')
    sx.check(result(a, path + '/x') is None, 'another page')
