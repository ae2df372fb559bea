"""Which of several matching routes wins depends on how specific they are,
never on the order they were registered in or on earlier matching.

Outside the bounds: more than four competing routes, longer paths, rules of
equal weight (where the documentation promises no order).
"""
from verktyg.routing import URLMap, Route, Submount
from verktyg.exceptions import NotFound

DIG = '0123456789'


def perms(l):
    if not l:
        return [[]]
    return [[x] + p for i, x in enumerate(l)
            for p in perms(l[:i] + l[i + 1:])]


def result(a, path):
    try:
        return a.match(path)
    except NotFound:
        return None


def h_specificity(sx):
    """static, int, string and path rules over the same prefix in all 24
    orders; rest of up to 3 (thorough 4) characters"""
    rules = [('static', '/x/new'), ('int', '/x/<int:v>'),
             ('string', '/x/<v>'), ('path', '/x/<path:v>')]
    order = sx.choice('order', perms(rules))
    rest = sx.text('rest', sx.t(3, 4), [c for c in sx.UNI
                                        if c in DIG or not c.isdigit()], 1)
    sx.assume(rest[0] != '/')
    m = URLMap([Route(r, endpoint=e) for e, r in order])
    got = result(m.bind('h', '/'), '/x/' + rest)
    if rest == 'new':
        want = ('static', {})
    elif all(c in DIG for c in rest):
        want = ('int', {'v': int(rest)})
    elif '/' not in rest:
        want = ('string', {'v': rest})
    else:
        want = ('path', {'v': rest})
    sx.check(got == want, 'the most specific route wins')


def h_segments(sx):
    """rules with static tails against rules with variable tails, in all
    orders; two segments of 1..2 characters"""
    rules = [('edit', '/x/<v>/ed'), ('two', '/x/<v>/<w>'),
             ('path', '/x/<path:v>'), ('pe', '/x/<path:v>/ed')]
    order = sx.choice('order', perms(rules))
    v = sx.text('v', 2, sx.UNI, 1)
    w = sx.text('w', 2, sx.UNI, 1)
    sx.assume('/' not in v and '/' not in w)
    third = sx.choice('third', ['', '/ed', '/q'])
    m = URLMap([Route(r, endpoint=e) for e, r in order])
    got = result(m.bind('h', '/'), '/x/' + v + '/' + w + third)
    if third == '/ed':
        want = ('pe', {'v': v + '/' + w})
    elif third == '/q':
        want = ('path', {'v': v + '/' + w + '/q'})
    elif w == 'ed':
        want = ('edit', {'v': v})
    else:
        want = ('two', {'v': v, 'w': w})
    sx.check(got == want, 'the most specific route wins')


def h_prefix(sx):
    """static prefixes of different lengths before a variable, in all orders;
    rest of 1..3 (thorough 4) characters"""
    rules = [('ab', '/ab<v>'), ('a', '/a<v>'), ('int', '/a<int:v>'),
             ('any', '/<v>')]
    order = sx.choice('order', perms(rules))
    rest = sx.text('rest', sx.t(3, 4), [c for c in sx.UNI
                                        if c in DIG or not c.isdigit()], 1)
    m = URLMap([Route(r, endpoint=e) for e, r in order])
    got = result(m.bind('h', '/'), '/' + rest)
    if '/' in rest:
        want = None
        sx.assume(rest[0] != '/')
    elif len(rest) > 2 and rest[:2] == 'ab':
        want = ('ab', {'v': rest[2:]})
    elif len(rest) > 1 and rest[0] == 'a':
        tail = rest[1:]
        want = ('a', {'v': tail})
        if all(c in DIG for c in tail):
            want = ('int', {'v': int(tail)})
    else:
        want = ('any', {'v': rest})
    sx.check(got == want, 'the longest static prefix wins')


def h_late(sx):
    """routes registered before and after the first match, singly or
    through a factory, in any split of the four rules, with one endpoint
    each or one for all"""
    rules = [('static', '/x/new'), ('int', '/x/<int:v>'),
             ('string', '/x/<v>'), ('path', '/x/<path:v>')]
    order = sx.choice('order', perms(rules)[::sx.t(3, 1)])
    cut = sx.choice('cut', [0, 1, 2, 3])
    rest = sx.choice('rest', ['new', '7', 'old', 'a/b'])
    shared = sx.bool('shared')
    want = {'new': '/x/new', '7': '/x/<int:v>', 'old': '/x/<v>',
            'a/b': '/x/<path:v>'}[rest]

    def make(e, r):
        return Route(r, endpoint='all' if shared else e)

    def look(adapter):
        try:
            return adapter.match('/x/' + rest, return_route=True)[0].route
        except NotFound:
            return None
    m = URLMap([make(e, r) for e, r in order[:cut]])
    a = m.bind('h', '/')
    first = look(a)
    if sx.bool('list'):
        list(m.iter_routes())
    if sx.bool('factory'):
        m.add_routes(Submount('/x', [make(e, r[2:])
                                     for e, r in order[cut:]]))
    else:
        for e, r in order[cut:]:
            m.add_routes(make(e, r))
    for adapter in (a, m.bind('h', '/')):
        sx.check(look(adapter) == want, 'late routes take part in matching')
    if first is not None:
        sx.check(first in [r for _, r in order[:cut]],
                 'only registered routes match')
    if not shared:
        sx.check(a.build('string', {'v': 'z'}) == '/x/z',
                 'late routes can be built')
    else:
        sx.check(a.build('all') == '/x/new', 'late routes can be built')
    sx.check(sorted(r.route for r in m.iter_routes())
             == sorted(r for _, r in rules), 'every route is listed')


def h_default_order(sx):
    """a route with defaults and the general route of the same endpoint in
    both orders, with and without redirects to the default"""
    a = Route('/all/', endpoint='all', defaults={'page': 1})
    b = Route('/all/page/<int:page>', endpoint='all')
    m = URLMap([a, b] if sx.bool('order') else [b, a],
               redirect_defaults=False)
    n = sx.int('n', 0, 99)
    ad = m.bind('h', '/')
    sx.check(ad.match('/all/page/%d' % n) == ('all', {'page': n}),
             'the general route matches')
    sx.check(ad.match('/all/') == ('all', {'page': 1}),
             'the default route matches')
    want = '/all/' if n == 1 else '/all/page/%d' % n
    sx.check(ad.build('all', {'page': n}) == want,
             'the default route is preferred exactly for its default')


POOL = ['/b/bb/<v>', '/b/<u>/<v>', '/<t>/<u>/<v>', '/<u>/<v>', '/b/<v>',
        '/<path:v>', '/b/<path:v>', '/<u>/bb', '/<int:u>/<v>', '/b/<int:v>',
        '/<path:u>/bb', '/b/<u>/bb', '/<t>/bb/<v>', '/bb/<path:v>', '/b/bb']


def kind(seg):
    if seg[:1] != '<':
        return (0, -len(seg))
    return (1, {'int': 50, 'path': 200}.get(seg[1:].split(':')[0], 100))


def specificity(rule):
    weights = [kind(s) for s in rule[1:].split('/')]
    return '<' in rule, -len(weights), weights


def reads(segs, parts):
    """the path can be read as the rule"""
    if not segs:
        return not parts
    if not parts:
        return False
    if segs[0][:6] == '<path:':
        for n in range(1, len(parts) + 1):
            if reads(segs[1:], parts[n:]):
                return True
        return False
    if segs[0][:5] == '<int:':
        for c in parts[0]:
            if c not in DIG:
                return False
    elif segs[0][:1] != '<' and segs[0] != parts[0]:
        return False
    return reads(segs[1:], parts[1:])


def h_pairs(sx):
    """any two of 15 rules in any order; path of 2..3 segments of 1..2
    characters"""
    a = sx.choice('a', POOL)
    b = sx.choice('b', POOL)
    sx.assume(a != b)
    parts = [sx.text('p%d' % i, 2 if i < 2 else 1, 'b7', 1)
             for i in range(sx.choice('n', [2, 3]))]
    ad = URLMap([Route(a, endpoint=a), Route(b, endpoint=b)]).bind('h')
    got = result(ad, '/' + '/'.join(parts))
    want = None
    for r in (a, b):
        if reads(r[1:].split('/'), parts):
            if want is None or specificity(r) < specificity(want):
                want = r
    sx.check((got and got[0]) == want, 'the more specific rule wins')


def h_first(sx):
    """several first requests at once: another thread matches, builds or
    lists while the routes are being put in order, at any of the points
    where that thread can get its turn"""
    state = {'n': 0, 'busy': False, 'got': []}
    at = sx.int('at', 1, 12)
    op = sx.choice('op', ['match', 'build', 'list'])

    def turn():
        state['n'] += 1
        if state['n'] == at and not state['busy']:
            state['busy'] = True
            state['got'].append(work(op))

    class Slow(Route):
        def match_compare_key(self):
            turn()
            return Route.match_compare_key(self)

        def build_compare_key(self):
            turn()
            return Route.build_compare_key(self)
    rules = ['/x/<v>', '/x/new', '/x/<path:v>']
    m = URLMap([Slow(r, endpoint='e') for r in rules])
    a = m.bind('h')

    def work(op):
        if op == 'match':
            return a.match('/x/new', return_route=True)[0].route
        elif op == 'build':
            return a.build('e', {'v': 'q'})
        return sorted(r.route for r in m.iter_routes())
    want = {'match': '/x/new', 'build': '/x/q', 'list': sorted(rules)}
    mine = sx.choice('mine', ['match', 'build', 'list'])
    sx.check(work(mine) == want[mine], 'the first thread is served')
    for got in state['got']:
        sx.check(got == want[op], 'the other thread is served')
    sx.check(work(op) == want[op], 'and so are later ones')


def h_threads(sx):
    """two threads using one map for the first time, the second at any line
    of the first: both match, build or list"""
    rules = ['/x/<v>', '/x/new', '/x/<path:v>', '/<w>/new']
    ops = [sx.choice('one', ['match', 'build', 'list', 'other']),
           sx.choice('two', ['match', 'build', 'list', 'other'])]

    def both():
        m = URLMap([Route(r, endpoint='e') for r in rules])
        a = m.bind('h')

        def work(op):
            if op == 'match':
                return a.match('/x/new', return_route=True)[0].route
            elif op == 'other':
                return a.match('/y/new', return_route=True)[0].route
            elif op == 'build':
                return a.build('e', {'v': 'q'})
            return sorted(r.route for r in m.iter_routes())
        return (lambda: work(ops[0])), (lambda: work(ops[1]))
    sx.interleave('at', both, 'both threads are served')


def h_failed(sx):
    """routes added together with one that cannot be compiled, at any place
    and at any time: the map goes on with routes that are good"""
    good = sx.choice('good', [['/x/<v>', '/x/new'], ['/x/new', '/x/<v>'],
                              ['/x/<path:v>', '/x/<v>'], ['/x/<v>']])
    at = sx.choice('at', range(3))
    early = sx.choice('early', [[], ['/<w>/new']])
    bad = sx.choice('bad', ['/x/<nope:v>', '/x/<v>/<v>', '/x/<any():v', 'x'])
    m = URLMap([Route(r, endpoint='e') for r in early])
    a = m.bind('h')

    def look():
        try:
            return a.match('/x/new', return_route=True)[0].route
        except NotFound:
            return None
    if sx.bool('used'):
        look()
    try:
        routes = [Route(r, endpoint='e') for r in good]
        routes.insert(at, Route(bad, endpoint='e'))
        m.add_routes(*routes)
        sx.check(False, 'refused')
    except (LookupError, ValueError):
        pass
    listed = [r.route for r in m.iter_routes()]
    for r in listed:
        sx.check(r in good or r in early, 'only good routes are listed')
    want = None
    for r in ['/x/new', '/<w>/new', '/x/<v>', '/x/<path:v>']:
        if r in listed:
            want = r
            break
    got = look()
    if want == '/<w>/new':
        sx.check(got in ('/<w>/new', '/x/<v>', '/x/<path:v>'), 'a listed one')
    else:
        sx.check(got == want, 'the most specific of them wins')
