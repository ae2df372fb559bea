"""Multi dicts behave like a list of key and value pairs.

The oracle is a plain list of pairs.  The order of the keys is only
compared for ordered dicts.
Outside the bounds: more operations and pairs, values that are lists.
"""
import copy
from collections import OrderedDict
from verktyg.datastructures import (
    MultiDict, OrderedMultiDict, CombinedMultiDict, TypeConversionDict,
    ImmutableDict, iter_multi_items,
)
from verktyg.exceptions import BadRequestKeyError

KEYS = 'ab'
VALUES = ['1', '', 'x']


def values(model, key):
    return [v for k, v in model if k == key]


def without(model, key):
    return [(k, v) for k, v in model if k != key]


def keys(model):
    rv = []
    for k, _ in model:
        if k not in rv:
            rv.append(k)
    return rv


def grouped(model):
    """pairs with the pairs of one key next to each other"""
    return [(k, v) for k in keys(model) for v in values(model, k)]


def number(v):
    if v in ('x', ''):
        raise ValueError(v)
    return int(v)


def numbers(vs):
    return [int(v) for v in vs if v not in ('x', '')]


def reads(sx, d, model, probe, ordered=False):
    """every way of reading"""
    ks = keys(model)
    sx.check(len(d) == len(ks), 'len')
    sx.check(bool(d) == (len(ks) > 0), 'truth')

    def order(pairs):
        return pairs if ordered else sorted(pairs, key=lambda p: p[0])
    sx.check(order([(k, 0) for k in d]) == order([(k, 0) for k in ks]),
             'iteration')
    sx.check(order([(k, 0) for k in d.keys()]) ==
             order([(k, 0) for k in ks]), 'keys')
    multi = list(d.items(multi=True))
    if ordered:
        sx.check(multi == model, 'items(multi)')
    else:
        sx.check(len(multi) == len(model), 'items(multi)')
        for k in ks:
            sx.check(values(multi, k) == values(model, k), 'items(multi)')
    first = [(k, values(model, k)[0]) for k in ks]
    sx.check(order(list(d.items())) == order(first), 'items')
    lists = [(k, values(model, k)) for k in ks]
    sx.check(order([(k, list(v)) for k, v in d.lists()]) == order(lists),
             'lists')
    if ordered:
        sx.check(list(d.values()) == [v for _, v in first], 'values')
        sx.check([list(v) for v in d.listvalues()] == [v for _, v in lists],
                 'listvalues')
    else:
        sx.check(sorted(d.values()) == sorted([v for _, v in first]),
                 'values')
        sx.check(sorted([list(v) for v in d.listvalues()]) ==
                 sorted([v for _, v in lists]), 'listvalues')
    flat = d.to_dict()
    sx.check(type(flat) is dict and flat == dict(first), 'to_dict')
    full = d.to_dict(flat=False)
    sx.check(type(full) is dict and full == dict(lists), 'to_dict(flat)')
    vs = values(model, probe)
    sx.check((probe in d) == bool(vs), 'in')
    sx.check(d.getlist(probe) == vs, 'getlist')
    sx.check(d.getlist(probe, type=number) == numbers(vs), 'getlist(type)')
    sx.check(d.get(probe) == (vs[0] if vs else None), 'get')
    sx.check(d.get(probe, 'q') == (vs[0] if vs else 'q'), 'get(default)')
    try:
        got = d[probe]
        sx.check(len(vs) > 0 and got == vs[0], 'the first value')
    except BadRequestKeyError as e:
        sx.check(not vs, 'only missing keys are an error')
        sx.check(isinstance(e, KeyError) and e.code == 400, 'a bad request')
    # what was returned is no part of the dict
    d.getlist(probe).append('y')
    for _, l in d.lists():
        l.append('y')
    for l in full.values():
        l.append('y')
    flat['y'] = 'y'
    sx.check(d.getlist(probe) == vs and len(d) == len(ks), 'copies')
    for k in ks:
        sx.check(d.getlist(k) == values(model, k), 'copies')


def step(sx, d, model, i, ordered, ops):
    op = sx.choice('op%d' % i, ops)
    if op == 'clear':
        d.clear()
        return []
    if op in ('popitem', 'popitemlist'):
        try:
            k, got = getattr(d, op)()
        except KeyError:
            sx.check(not model, 'only when empty')
            return model
        vs = values(model, k)
        sx.check(len(vs) > 0 and got == (vs[0] if op == 'popitem' else vs),
                 'an item')
        return without(model, k)
    k = sx.text('k%d' % i, 1, KEYS, 1)
    v = sx.choice('v%d' % i, VALUES if i == 0 else VALUES[i % 3:][:1])
    vs = values(model, k)
    if op == 'set':
        d[k] = v
        if ordered or not vs:
            return without(model, k) + [(k, v)]
        return without(model, k) + [(k, v)]
    if op == 'add':
        d.add(k, v)
        return model + [(k, v)]
    if op == 'setlist':
        new = sx.choice('new%d' % i, [('1',), ['x', '22'],
                                      [] if ordered else ['1']])
        d.setlist(k, new)
        return without(model, k) + [(k, x) for x in new]
    if op == 'setdefault':
        sx.check(d.setdefault(k, v) == (vs[0] if vs else v), 'value')
        return model if vs else model + [(k, v)]
    if op == 'del':
        try:
            del d[k]
        except KeyError:
            sx.check(not vs, 'only missing keys are an error')
        else:
            sx.check(len(vs) > 0, 'missing keys are an error')
        return without(model, k)
    if op == 'pop':
        try:
            got = d.pop(k)
        except BadRequestKeyError:
            sx.check(not vs, 'only missing keys are an error')
        else:
            sx.check(len(vs) > 0 and got == vs[0], 'the first value')
        return without(model, k)
    if op == 'popd':
        sx.check(d.pop(k, 'q') == (vs[0] if vs else 'q'), 'or the default')
        return without(model, k)
    if op == 'poplist':
        sx.check(d.poplist(k) == vs, 'all values')
        return without(model, k)
    if op == 'setlistdefault':
        got = d.setlistdefault(k, [v, 'x'])
        if not vs:
            vs = [v, 'x']
        sx.check(got == vs, 'all values')
        got.append('x')
        return without(model, k) + [(k, x) for x in vs + ['x']]
    how = sx.choice('how%d' % i, ['pairs', 'dict', 'multi', 'ordered',
                                  'self', 'ior', 'or'])
    if how == 'pairs':
        d.update([(k, v), ('a', 'x'), (k, 'x')])
        return model + [(k, v), ('a', 'x'), (k, 'x')]
    if how == 'dict':
        d.update({k: v, 'c': ['1', '2'], 'd': ('3',)})
        return model + [(k, v), ('c', '1'), ('c', '2'), ('d', '3')]
    if how == 'multi':
        d.update(MultiDict([(k, v), ('c', 'x'), (k, '1')]))
        return model + [(k, v), (k, '1'), ('c', 'x')]
    if how == 'ordered':
        d.update(OrderedMultiDict([(k, v), ('c', 'x'), (k, '1')]))
        return model + [(k, v), ('c', 'x'), (k, '1')]
    if how == 'self':
        d.update(d)
        return model + (model if ordered else grouped(model))
    if how == 'ior':
        e = d
        e |= {k: v}
        sx.check(e is d, 'in place')
        return model + [(k, v)]
    e = d | {k: v}
    sx.check(e is not d and type(e) is type(d), 'a new dict')
    sx.check(e.getlist(k) == vs + [v], 'both values')
    return model


def run(sx, cls, ops, n, start=None):
    if start is None:
        start = sx.choice('start', [[], [('a', '1'), ('b', 'x'), ('a', '22')]])
    ordered = cls is OrderedMultiDict
    d = cls(start)
    model = list(start)
    for i in range(n):
        model = step(sx, d, model, i, ordered, ops)
    reads(sx, d, model, sx.text('probe', 1, 'abc', 1), ordered)
    c = d.copy()
    sx.check(type(c) is cls and c == d and d == c, 'copies are equal')
    e = copy.deepcopy(d)
    sx.check(type(e) is cls and e == d, 'copies are equal')
    c.add('z', '1')
    e.add('a', '1')
    sx.check(c != d and e != d, 'others are not')
    if ordered:
        sx.check(list(d.items(multi=True)) == model, 'copies are independent')
    else:
        sx.check(d.to_dict(flat=False) ==
                 {k: values(model, k) for k in keys(model)},
                 'copies are independent')


OPS = ['set', 'add', 'setlist', 'setdefault', 'del', 'pop', 'popd',
       'poplist', 'popitem', 'popitemlist', 'update', 'clear']


def h_multi(sx):
    """2 (thorough 3) operations on a multi dict"""
    run(sx, MultiDict, OPS + ['setlistdefault'], sx.t(2, 3))


def h_ordered(sx):
    """2 (thorough 3) operations on an ordered multi dict"""
    try:
        OrderedMultiDict([('a', '1')]).setlistdefault('a')
        sx.fail('lists of ordered dicts can not be changed in place')
    except TypeError:
        pass
    run(sx, OrderedMultiDict, OPS, sx.t(2, 3))


def h_links(sx):
    """3 (thorough 4) removals from or additions to an ordered multi dict of
    5 pairs"""
    run(sx, OrderedMultiDict, ['poplist', 'set', 'add'], sx.t(3, 4),
        [('a', '1'), ('b', 'x'), ('a', '22'), ('c', '1'), ('b', '1')])


def h_create(sx):
    """dicts of up to 3 pairs, from every kind of mapping"""
    pairs = [(sx.text('k%d' % i, 1, KEYS, 1), sx.choice('v%d' % i, VALUES))
             for i in range(sx.choice('n', [0, 1, 2, 3]))]
    cls = sx.choice('cls', [MultiDict, OrderedMultiDict])
    how = sx.choice('how', ['pairs', 'iter', 'lists', 'tuples', 'multi',
                            'ordered', 'combined', 'subclass', 'none'])
    model = pairs
    if how == 'pairs':
        arg = pairs
    elif how == 'iter':
        arg = iter(pairs)
    elif how == 'lists':
        arg = {k: values(pairs, k) for k in keys(pairs)}
        model = grouped(pairs)
    elif how == 'tuples':
        arg = {k: tuple(values(pairs, k)) for k in keys(pairs)}
        model = grouped(pairs)
    elif how == 'multi':
        arg = MultiDict(pairs)
        model = grouped(pairs)
    elif how == 'ordered':
        arg = OrderedMultiDict(pairs)
    elif how == 'subclass':
        kind = sx.choice('kind', [ImmutableDict, OrderedDict,
                                  TypeConversionDict])
        arg = kind({k: values(pairs, k) for k in keys(pairs)})
        model = grouped(pairs)
    elif how == 'combined':
        arg = CombinedMultiDict([MultiDict(pairs)])
        model = grouped(pairs)
    else:
        arg = None
        model = []
    d = cls(arg)
    if how in ('multi', 'combined'):
        reads(sx, d, model, 'a', False)
    else:
        reads(sx, d, model, 'a', cls is OrderedMultiDict)
    if how not in ('iter', 'none'):
        got = list(iter_multi_items(arg))
        for k in 'ab':
            sx.check(values(got, k) == values(pairs, k), 'nothing is lost')
        sx.check(len(got) == len(pairs), 'nothing is added')
        d.add('a', 'new')
        sx.check('new' not in [v for _, v in iter_multi_items(arg)],
                 'independent')
    state = d.__getstate__()
    again = cls.__new__(cls)
    if cls is OrderedMultiDict and sx.bool('state'):
        again = cls()
        again.__setstate__(state)
    elif cls is OrderedMultiDict:
        f, args = d.__reduce_ex__(2)[:2]
        again = f(*args)
    else:
        again.__setstate__(state)
    sx.check(again == d, 'pickled')


def h_equal(sx):
    """equality of two dicts of up to 2 pairs"""
    a = [(sx.text('ka%d' % i, 1, KEYS, 1), sx.choice('va%d' % i, ['1', 'x']))
         for i in range(sx.choice('n', [0, 1, 2]))]
    b = [(sx.text('kb%d' % i, 1, KEYS, 1), sx.choice('vb%d' % i, ['1', 'x']))
         for i in range(sx.choice('m', [0, 1, 2, 3]))]
    k1 = sx.choice('k1', [MultiDict, OrderedMultiDict, CombinedMultiDict])
    k2 = sx.choice('k2', [MultiDict, OrderedMultiDict, CombinedMultiDict])
    x = k1([MultiDict(a)]) if k1 is CombinedMultiDict else k1(a)
    y = k2([MultiDict(b)]) if k2 is CombinedMultiDict else k2(b)
    if k1 is OrderedMultiDict and k2 is OrderedMultiDict:
        want = a == b
    else:
        want = True
        for k in KEYS:
            if values(a, k) != values(b, k):
                want = False
    sx.check((x == y) == want, 'equal exactly then')
    sx.check((y == x) == want, 'symmetric')
    sx.check((x != y) == (not want), 'unequal otherwise')


def h_combined(sx):
    """up to 3 dicts with up to 2 pairs each combined"""
    all = []
    dicts = []
    shape = sx.choice('shape', [[], [2], [1, 1], [2, 1], [1, 2], [1, 0, 1]])
    for j, n in enumerate(shape):
        pairs = [(sx.text('k%d.%d' % (j, i), 1, KEYS, 1),
                  sx.choice('v%d.%d' % (j, i), VALUES)) for i in range(n)]
        dicts.append(MultiDict(pairs) if j != 1 else OrderedMultiDict(pairs))
        all = all + pairs
    d = CombinedMultiDict(dicts)
    model = all
    probe = sx.text('probe', 1, 'abc', 1)
    reads(sx, d, model, probe)
    got = d.get(probe, 'q', type=number)
    want = 'q'
    for x in reversed(dicts):
        vs = x.getlist(probe)
        if vs and vs[0] not in ('x', ''):
            want = int(vs[0])
    sx.check(got == want, 'the first that converts')
    e = copy.deepcopy(d)
    sx.check(isinstance(e, CombinedMultiDict) and e == d, 'copies are equal')
    sx.check(d.copy() == d, 'copies are equal')
    if dicts:
        e.dicts[0].add('a', 'new')
        sx.check('new' not in d.getlist('a'), 'copies are independent')
        dicts[0].add('a', 'later')
        sx.check('later' in d.getlist('a'), 'a view')


def h_convert(sx):
    """values converted with functions that may fail"""
    v = sx.text('v', 3, '01x-', 1)
    d = sx.choice('cls', [TypeConversionDict, MultiDict,
                          OrderedMultiDict])({'k': v})
    try:
        want = int(v)
    except ValueError:
        want = None
    sx.check(d.get('k', type=int) == want, 'converted')
    sx.check(d.get('k', 7, type=int) == (7 if want is None else want),
             'or the default')
    sx.check(d.get('k') == v and d.get('z', 3, type=int) == 3, 'missing')
    for default in ('3', 'q', '', None, 0):
        sx.check(d.get('z', default, type=int) is default,
                 'defaults are not converted')
        if want is None:
            sx.check(d.get('k', default, type=int) is default,
                     'defaults are not converted')


def h_listdefault(sx):
    """lists made with setlistdefault are those of the dict: up to 2 values
    given, more appended, asked for again"""
    d = MultiDict([('b', '1')] if sx.bool('other') else None)
    new = sx.choice('new', [None, [], ['1'], ('1', 'x')])
    l = d.setlistdefault('a', new)
    want = list(new or ())
    sx.check(l == want and l is not new, 'a copy of the list given')
    for i in range(sx.choice('n', [0, 1, 2])):
        v = sx.text('v%d' % i, 1, '1x', 0)
        if sx.bool('again %d' % i):
            l = d.setlistdefault('a', ['y'])
        l.append(v)
        want.append(v)
        sx.check(d.getlist('a') == want, 'appended')
    sx.check(d.setlistdefault('a', ['z']) == want, 'there already')
    sx.check(d.getlist('a') == want and 'a' in d, 'and not changed')


def h_falsy(sx):
    """values that are no texts, like None and 0, are values like any other:
    2 operations on a dict of 2 pairs"""
    cls = sx.choice('cls', [MultiDict, OrderedMultiDict])
    some = [None, 0, '', False, 'x']
    model = [('a', sx.choice('v0', some)), ('b', sx.choice('v1', some))]
    d = cls(model)
    for i in range(2):
        k = sx.choice('k%d' % i, ['a', 'c'])
        v = sx.choice('w%d' % i, [None, 0, 'y'])
        vs = values(model, k)
        op = sx.choice('op%d' % i, ['setdefault', 'default', 'add', 'set',
                                    'pop', 'popd', 'poplist', 'setlist'])
        if op == 'setdefault':
            sx.check(d.setdefault(k, v) is (vs[0] if vs else v), 'value')
            model = model if vs else model + [(k, v)]
        elif op == 'default':
            sx.check(d.setdefault(k) is (vs[0] if vs else None), 'value')
            model = model if vs else model + [(k, None)]
        elif op == 'add':
            d.add(k, v)
            model = model + [(k, v)]
        elif op == 'set':
            d[k] = v
            model = without(model, k) + [(k, v)]
        elif op == 'setlist':
            d.setlist(k, [v, 'z'])
            model = without(model, k) + [(k, v), (k, 'z')]
        elif op == 'poplist':
            sx.check(d.poplist(k) == vs, 'values')
            model = without(model, k)
        elif op == 'pop' and not vs:
            try:
                d.pop(k)
                sx.fail('missing keys are an error')
            except KeyError:
                pass
        else:
            got = d.pop(k) if op == 'pop' else d.pop(k, v)
            sx.check(got is (vs[0] if vs else v), 'the first value')
            model = without(model, k)
    for k in 'abc':
        vs = values(model, k)
        sx.check((k in d) == bool(vs) and d.getlist(k) == vs, 'all values')
        sx.check(d.get(k, 'q') is (vs[0] if vs else 'q'), 'get')
        if vs:
            sx.check(d[k] is vs[0], 'the first value')
    sx.check(len(d) == len(keys(model)), 'len')
    sx.check(sorted([k for k, _ in d.items(multi=True)]) ==
             sorted([k for k, _ in model]), 'items')
    e = cls(d)
    sx.check(e == d and d.copy() == d, 'copies are equal')


def h_empty_list(sx):
    """keys of multi dicts whose list of values is empty, next to up to two
    other pairs: there is nothing to read"""
    rest = [(sx.text('k%d' % i, 1, KEYS[1:], 1), 'x')
            for i in range(sx.choice('n', [0, 1, 2]))]
    d = MultiDict(rest)
    how = sx.choice('how', ['setlist', 'setlistdefault', 'dict'])
    if how == 'setlist':
        d.setlist('a', iter([]))
    elif how == 'setlistdefault':
        sx.check(d.setlistdefault('a') == [], 'no values')
    else:
        start = {k: values(rest, k) for k in keys(rest)}
        start['a'] = sx.choice('empty', [[], ()])
        d = MultiDict(start)
    sx.check('a' in d and d.getlist('a') == [], 'no values')
    sx.check(d.getlist('a', type=int) == [], 'no values')
    sx.check(d.get('a') is None and d.get('a', 'q') == 'q', 'the default')
    sx.check(d.get('a', 3, type=int) == 3, 'the default')
    try:
        d['a']
        sx.fail('no value')
    except BadRequestKeyError:
        pass
    first = [(k, 'x') for k in keys(rest)]
    sx.check(sorted(d.items()) == sorted(first), 'items')
    sx.check(len(list(d.values())) == len(first), 'values')
    sx.check(sorted(d.items(multi=True)) == sorted(rest), 'items(multi)')
    sx.check('a' not in d.to_dict(), 'to_dict')
    sx.check(d.to_dict(flat=False)['a'] == [], 'to_dict(flat)')
    c = d.copy()
    sx.check(c == d and c.getlist('a') == [], 'copies')
    c.add('a', '1')
    sx.check(c['a'] == '1' and d.getlist('a') == [], 'copies')


def h_missing(sx):
    """the lists of missing keys are new ones, those of others copies"""
    cls = sx.choice('cls', [MultiDict, OrderedMultiDict])
    how = sx.choice('how', ['getlist', 'typed', 'pop', 'lists', 'setlist'])
    a, b = cls(), cls([('y', '1')])
    if how == 'getlist':
        a.getlist('x').append('z')
        b.getlist('y').append('z')
    elif how == 'typed':
        a.getlist('x', type=int).append('z')
        b.getlist('y', type=int).append('z')
    elif how == 'pop':
        a.poplist('x').append('z')
        cls([('x', '1')]).poplist('x').append('z')
    elif how == 'lists':
        for _, v in b.lists():
            v.append('z')
    else:
        given = ['1']
        b.setlist('y', given)
        given.append('z')
    for d in a, b, cls([('y', '1')]), MultiDict(), OrderedMultiDict():
        for kw in {}, {'type': str}:
            sx.check(d.getlist('x', **kw) == [], 'nothing in nothing')
            if 'y' in d:
                sx.check(d.getlist('y', **kw) == ['1'], 'as it was')
        sx.check(d.poplist('x') == [], 'nothing in nothing')
