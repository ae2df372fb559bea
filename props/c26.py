"""Immutable structures never change and hash consistently.

Values read from an immutable structure are texts; the dicts below a
CombinedMultiDict and the environment below EnvironHeaders are not changed
themselves.
Outside the bounds: more items, calling __init__ again, access to private
attributes, the methods of dict and list called as functions of these
classes.
"""
import copy
from verktyg.datastructures import (
    MultiDict, OrderedMultiDict, CombinedMultiDict, TypeConversionDict,
    ImmutableDict, ImmutableList, ImmutableTypeConversionDict,
    ImmutableMultiDict, ImmutableOrderedMultiDict,
)
from verktyg.http import Authorization, RequestCacheControl
from verktyg.requests import Request
from verktyg.wsgi import EnvironHeaders

MULTI = [ImmutableMultiDict, ImmutableOrderedMultiDict, CombinedMultiDict]
DICTS = [ImmutableDict, ImmutableTypeConversionDict, Authorization,
         RequestCacheControl]


def pairs(sx, name, n):
    return [(sx.text('%sk%d' % (name, i), 1, 'ab', 1),
             sx.text('%sv%d' % (name, i), 1, 'xy', 1)) for i in range(n)]


def make(cls, items):
    if cls is CombinedMultiDict:
        return cls([MultiDict(items[:1]), OrderedMultiDict(items[1:])])
    if cls is Authorization:
        return cls('digest', dict(items))
    if cls in MULTI:
        return cls(items)
    return cls(dict(items))


def content(d):
    if isinstance(d, MultiDict):
        return list(d.items(multi=True))
    return list(d.items())


def ior(d, other):
    d |= other


def iadd(d, other):
    d += other


def imul(d, n):
    d *= n


def delete(d, k):
    del d[k]


def assign(d, k, v):
    d[k] = v


def refused(sx, f, *args, **kw):
    try:
        f(*args, **kw)
    except TypeError:
        return
    sx.fail('refused')


DICT_OPS = ['set', 'del', 'ior', 'iorpairs', 'setdefault', 'update',
            'updatekw', 'pop', 'popd', 'popitem', 'clear']
MULTI_OPS = DICT_OPS + ['add', 'popitemlist', 'poplist', 'setlist',
                        'setlistdefault', 'iormulti']


def mutate(sx, d, op, k, v):
    if op == 'set':
        refused(sx, assign, d, k, v)
    elif op == 'del':
        refused(sx, delete, d, k)
    elif op == 'ior':
        refused(sx, ior, d, {k: v})
    elif op == 'iorpairs':
        refused(sx, ior, d, [(k, v)])
    elif op == 'iormulti':
        refused(sx, ior, d, MultiDict([(k, v)]))
    elif op == 'setdefault':
        refused(sx, d.setdefault, k, v)
    elif op == 'update':
        refused(sx, d.update, {k: v})
    elif op == 'updatekw':
        refused(sx, d.update, a=v)
    elif op == 'pop':
        refused(sx, d.pop, k)
    elif op == 'popd':
        refused(sx, d.pop, k, v)
    elif op in ('popitem', 'clear', 'popitemlist'):
        refused(sx, getattr(d, op))
    elif op == 'add':
        refused(sx, d.add, k, v)
    elif op == 'poplist':
        refused(sx, d.poplist, k)
    elif op == 'setlist':
        refused(sx, d.setlist, k, [v])
    elif op == 'setlistdefault':
        refused(sx, d.setlistdefault, k, [v])


def h_refuse(sx):
    """any changing method on dicts of up to 2 (thorough 3) items"""
    cls = sx.choice('cls', MULTI + DICTS)
    items = pairs(sx, '', sx.choice('n', list(range(sx.t(3, 4)))))
    d = make(cls, items)
    before = content(d)
    h = hash(d) if sx.choice('hashed', [True, False]) else None
    op = sx.choice('op', MULTI_OPS if cls in MULTI else DICT_OPS)
    mutate(sx, d, op, sx.text('k', 1, 'abc', 1), sx.text('v', 1, 'xz', 1))
    sx.check(content(d) == before, 'unchanged')
    sx.check(d == make(cls, items), 'unchanged')
    if h is not None:
        sx.check(hash(d) == h, 'the hash stays')
    sx.check(hash(d) == hash(make(cls, items)), 'and only depends on content')


def h_properties(sx):
    """accessors of authorization and cache control"""
    d = RequestCacheControl({'max-age': '5', 'no-store': None})
    name = sx.choice('name', [
        'no_cache', 'no_store', 'max_age', 'max_stale', 'min_fresh',
        'no_transform', 'only_if_cached'])
    how = sx.choice('how', ['true', 'value', 'del'])
    before = content(d)
    try:
        if how == 'true':
            setattr(d, name, True)
        elif how == 'value':
            setattr(d, name, 7)
        else:
            delattr(d, name)
    except TypeError:
        pass
    else:
        sx.check(how == 'del' and name not in ('no_store', 'max_age'),
                 'refused')
    sx.check(content(d) == before, 'unchanged')
    a = Authorization('digest', {'qop': 'auth', 'realm': 'r'})
    before = content(a)
    op = sx.choice('op', ['add', 'clear', 'attr'])
    try:
        if op == 'add':
            a.qop.add('auth-int')
        elif op == 'clear':
            a.qop.clear()
        else:
            a.realm = 'x'
    except (TypeError, AttributeError):
        pass
    else:
        sx.fail('refused')
    sx.check(content(a) == before, 'unchanged')


def h_copies(sx):
    """copies of dicts of up to 2 items"""
    cls = sx.choice('cls', MULTI + DICTS)
    items = pairs(sx, '', sx.choice('n', [0, 1, 2]))
    d = make(cls, items)
    if sx.bool('hashed'):
        hash(d)
    before = content(d)
    how = sx.choice('how', ['copy', 'copy.copy', 'deepcopy', 'reduce'])
    if how == 'copy':
        c = d.copy()
        sx.check(c == d, 'copies are equal')
        if cls is not CombinedMultiDict:
            sx.check(isinstance(c, dict), 'a dict')
            c['z'] = 'n'
            sx.check('z' in c and c != d, 'copies can be changed')
            if cls in MULTI:
                sx.check(type(c) is (OrderedMultiDict if cls is
                                     ImmutableOrderedMultiDict else
                                     MultiDict), 'the mutable type')
                c.add('a', 'n')
                sx.check(c.getlist('a') == d.getlist('a') + ['n'],
                         'with all values')
            elif cls is ImmutableTypeConversionDict:
                sx.check(type(c) is TypeConversionDict, 'the mutable type')
        sx.check(content(d) == before, 'unchanged')
        return
    if how == 'copy.copy':
        c = copy.copy(d)
        if cls in (ImmutableDict, ImmutableTypeConversionDict,
                   ImmutableMultiDict, ImmutableOrderedMultiDict):
            sx.check(c is d, 'no copy is needed')
    elif how == 'deepcopy':
        c = copy.deepcopy(d)
    else:
        f, args = d.__reduce_ex__(2)[:2]
        c = f(*args)
    sx.check(type(c) is cls, 'the same type')
    sx.check(c == d and content(c) == before, 'equal')
    sx.check(hash(c) == hash(d), 'the hash is equal')
    if cls is Authorization:
        sx.check(c.type == 'digest', 'the type is kept')
    mutate(sx, c, sx.choice('op', ['set', 'ior', 'clear']), 'a', 'n')


def h_exposed(sx):
    """changing the lists read from multi dicts of up to 2 items"""
    cls = sx.choice('cls', MULTI)
    d = make(cls, pairs(sx, '', sx.choice('n', [1, 2])))
    before = content(d)
    how = sx.choice('how', ['getlist', 'lists', 'to_dict', 'listvalues',
                            'flat', 'source'])
    k = sx.text('k', 1, 'ab', 1)
    if how == 'getlist':
        d.getlist(k).append('n')
    elif how == 'lists':
        for _, v in d.lists():
            v.append('n')
    elif how == 'to_dict':
        e = d.to_dict(flat=False)
        for x in e:
            e[x].append('n')
        e['z'] = ['n']
    elif how == 'listvalues':
        for v in d.listvalues():
            list(v).append('n')
    elif how == 'flat':
        e = d.to_dict()
        e['z'] = 'n'
    else:
        src = MultiDict([(k, 'x')])
        if sx.choice('dict', [True, False]):
            src = {k: ['x']}
        d = make(cls, []) if cls is CombinedMultiDict else cls(src)
        before = content(d)
        src['z'] = 'n'
        if type(src) is dict:
            src[k].append('n')
        else:
            src.add(k, 'n')
    sx.check(content(d) == before, 'unchanged')


def h_hash(sx):
    """two dicts of up to 2 (thorough 3) items"""
    cls = sx.choice('cls', MULTI + DICTS)
    n = sx.t(3, 4)
    x = make(cls, pairs(sx, 'a', sx.choice('n', list(range(n)))))
    y = make(cls, pairs(sx, 'b', sx.choice('m', list(range(n)))))
    if x == y:
        sx.check(y == x and not x != y, 'symmetric')
        sx.check(hash(x) == hash(y), 'equal objects have equal hashes')
        sx.reach('equal')
    else:
        sx.check(x != y and not y == x, 'symmetric')


def h_unions(sx):
    """unions of dicts of up to 2 items"""
    cls = sx.choice('cls', MULTI + DICTS)
    items = pairs(sx, '', sx.choice('n', [0, 1, 2]))
    d = make(cls, items)
    before = content(d)
    k = sx.text('k', 1, 'abc', 1)
    e = d | {k: 'n'}
    sx.check(e is not d, 'a new dict')
    sx.check(content(d) == before, 'unchanged')
    if cls in MULTI:
        sx.check(e.getlist(k) == d.getlist(k) + ['n'], 'all values')
    else:
        sx.check(e[k] == 'n' and len(e) == len(d) + (k not in d), 'a union')
    f = {k: 'n'}
    f |= d
    sx.check(content(d) == before, 'unchanged')
    g = make(cls, items)
    h = g
    refused(sx, ior, h, {k: 'n'})
    sx.check(h is g and content(g) == before, 'unchanged')


LIST_OPS = ['set', 'setslice', 'del', 'delslice', 'iadd', 'imul', 'append',
            'extend', 'insert', 'pop', 'popi', 'remove', 'reverse', 'sort',
            'sortkey', 'clear']


def h_list(sx):
    """any changing method on lists of up to 3 items"""
    items = [sx.text('v%d' % i, 1, 'xyz', 1)
             for i in range(sx.choice('n', [0, 1, 2, 3]))]
    d = ImmutableList(items)
    h = hash(d)
    v = sx.text('v', 1, 'xz', 1)
    i = sx.choice('i', [0, 1, -1])
    op = sx.choice('op', LIST_OPS)
    if op == 'set':
        refused(sx, assign, d, i, v)
    elif op == 'setslice':
        refused(sx, assign, d, slice(i, None), [v])
    elif op == 'del':
        refused(sx, delete, d, i)
    elif op == 'delslice':
        refused(sx, delete, d, slice(i, 2))
    elif op == 'iadd':
        refused(sx, iadd, d, [v])
    elif op == 'imul':
        refused(sx, imul, d, i)
    elif op == 'append':
        refused(sx, d.append, v)
    elif op == 'extend':
        refused(sx, d.extend, [v])
    elif op == 'insert':
        refused(sx, d.insert, i, v)
    elif op == 'pop':
        refused(sx, d.pop)
    elif op == 'popi':
        refused(sx, d.pop, i)
    elif op == 'remove':
        refused(sx, d.remove, v)
    elif op == 'sortkey':
        refused(sx, d.sort, key=len)
    else:
        refused(sx, getattr(d, op))
    sx.check(list(d) == items and len(d) == len(items), 'unchanged')
    sx.check(hash(d) == h, 'the hash stays')
    e = ImmutableList([sx.text('w%d' % j, 1, 'xyz', 1)
                       for j in range(sx.choice('m', [0, 1, 2]))])
    if d == e:
        sx.check(hash(d) == hash(e), 'equal lists have equal hashes')
    f, args = d.__reduce_ex__(2)[:2]
    c = f(*args)
    sx.check(type(c) is ImmutableList and c == d, 'pickled')
    sx.check((d + [v])[-1] == v and list(d) == items, 'sums are new')


def h_headers(sx):
    """any changing method on the headers of an environment"""
    v = sx.text('h', 2, sx.PRINT)
    environ = {'HTTP_X_A': v, 'CONTENT_TYPE': 'text/plain', 'other': 'z',
               'wsgi.version': (1, 0)}
    if sx.choice('req', [True, False]):
        d = Request(environ, populate_request=False).headers
    else:
        d = EnvironHeaders(environ)
    k = sx.choice('k', ['X-A', 'x-b', 'Content-Type'])
    op = sx.choice('op', ['set', 'del', 'add', 'addh', 'setm', 'remove',
                          'extend', 'pop', 'popd', 'popitem', 'setdefault',
                          'clear', 'index', 'slice', 'delindex', 'popi',
                          'insert'])
    if op == 'set':
        refused(sx, assign, d, k, 'n')
    elif op == 'del':
        refused(sx, delete, d, k)
    elif op == 'add':
        refused(sx, d.add, k, 'n')
    elif op == 'addh':
        refused(sx, d.add_header, k, 'n')
    elif op == 'setm':
        refused(sx, d.set, k, 'n')
    elif op == 'remove':
        refused(sx, d.remove, k)
    elif op == 'extend':
        refused(sx, d.extend, [(k, 'n')])
    elif op == 'pop':
        refused(sx, d.pop, k)
    elif op == 'popd':
        refused(sx, d.pop, k, None)
    elif op == 'popi':
        refused(sx, d.pop)
    elif op == 'popitem':
        refused(sx, d.popitem)
    elif op == 'setdefault':
        refused(sx, d.setdefault, k, 'n')
    elif op == 'clear':
        refused(sx, d.clear)
    elif op == 'index':
        refused(sx, assign, d, 0, (k, 'n'))
    elif op == 'slice':
        refused(sx, assign, d, slice(0, 1), [(k, 'n')])
    elif op == 'delindex':
        refused(sx, delete, d, 0)
    else:
        refused(sx, d.insert, 0, (k, 'n'))
    sx.check(len(environ) == 4 and environ['HTTP_X_A'] == v,
             'the environment is unchanged')
    sx.check(list(d) == [('X-A', v), ('Content-Type', 'text/plain')],
             'the headers are unchanged')
    refused(sx, d.copy)
    refused(sx, copy.copy, d)


def h_request(sx):
    """the parsed data of a request with a query of up to 2 items"""
    a = sx.text('a', 1, 'ab', 1)
    b = sx.text('b', 1, 'ab', 1)
    environ = {
        'REQUEST_METHOD': 'GET', 'QUERY_STRING': '%s=x&%s=y' % (a, b),
        'HTTP_COOKIE': '%s=x; %s=y' % (a, b), 'SERVER_NAME': 'h',
        'SERVER_PORT': '80', 'wsgi.url_scheme': 'http',
        'HTTP_X_FORWARDED_FOR': '%s, %s' % (a, b), 'REMOTE_ADDR': a,
    }
    r = Request(environ)
    name = sx.choice('name', ['args', 'cookies', 'access_route'])
    d = getattr(r, name)
    if name == 'access_route':
        before = list(d)
        refused(sx, d.append, 'n')
        refused(sx, iadd, d, ['n'])
        refused(sx, assign, d, 0, 'n')
        sx.check(list(d) == before and before == [a, b], 'unchanged')
        return
    before = content(d)
    mutate(sx, d, sx.choice('op', MULTI_OPS if name != 'cookies'
                            else DICT_OPS), a, 'n')
    sx.check(content(d) == before, 'unchanged')
    sx.check(content(getattr(r, name)) == before, 'unchanged')
    sx.check(content(getattr(Request(environ), name)) == before, 'unchanged')


def h_fromkeys(sx):
    """immutable dicts made from up to 2 keys"""
    keys = [sx.text('k%d' % i, 1, 'ab', 1)
            for i in range(sx.choice('n', range(3)))]
    cls = sx.choice('cls', [ImmutableDict, ImmutableMultiDict,
                            ImmutableTypeConversionDict])
    v = sx.choice('v', ['v', '', 0, None, 'default'])
    if v == 'default':
        d = cls.fromkeys(keys)
        v = None
    else:
        d = cls.fromkeys(keys, v)
    sx.check(type(d) is cls, 'of this class')
    for k in 'ab':
        sx.check((k in d) == (k in keys), 'the keys')
        sx.check(d.get(k, 'q') == (v if k in keys else 'q'), 'the value')
    sx.check(len(d) == len(set(keys)), 'nothing else')
    try:
        CombinedMultiDict.fromkeys()
        sx.fail('combined dicts have no keys of their own')
    except TypeError:
        pass
