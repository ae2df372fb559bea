"""Headers behave as a list of pairs whose names ignore case.

The oracle is a plain list of pairs; values with a newline are refused
everywhere and change nothing.
Outside the bounds: more operations, longer names, names that are not
ascii, values that are no texts apart from bytes and numbers.
"""
import copy
from verktyg.datastructures import (
    MultiDict, OrderedMultiDict, CombinedMultiDict,
)
from verktyg.exceptions import BadRequestKeyError
from verktyg.http import (
    Headers, remove_entity_headers, remove_hop_by_hop_headers,
    is_entity_header, is_hop_by_hop_header, dump_options_header,
)
from verktyg.responses import Response

NAMES = ['a', 'A', 'b', 'B']


def lower(model):
    return [(k.lower(), v) for k, v in model]


def values(model, key):
    key = key.lower()
    return [v for k, v in model if k.lower() == key]


def without(model, key):
    key = key.lower()
    return [(k, v) for k, v in model if k.lower() != key]


def replaced(model, key, value):
    """the first of these headers replaced, the others removed"""
    rv = []
    done = False
    for k, v in model:
        if k.lower() != key.lower():
            rv.append((k, v))
        elif not done:
            rv.append((key, value))
            done = True
    if not done:
        rv.append((key, value))
    return rv


def number(v):
    if not v.isdigit():
        raise ValueError(v)
    return len(v)


def reads(sx, h, model, probe):
    sx.check(list(h) == model, 'iteration')
    sx.check(len(h) == len(model) and bool(h) == bool(model), 'len')
    sx.check(h.to_wsgi_list() == model, 'list for the server')
    sx.check(type(h.to_wsgi_list()) is list, 'a plain list')
    sx.check(list(h.items()) == model, 'items')
    sx.check(list(h.items(lower=True)) == lower(model), 'items(lower)')
    sx.check(list(h.keys()) == [k for k, _ in model], 'keys')
    sx.check(list(h.keys(lower=True)) == [k for k, _ in lower(model)],
             'keys(lower)')
    sx.check(list(h.values()) == [v for _, v in model], 'values')
    vs = values(model, probe)
    sx.check((probe in h) == (len(vs) > 0), 'in')
    sx.check(h.getlist(probe) == vs, 'getlist')
    sx.check(h.get_all(probe) == vs, 'get_all')
    sx.check(h.get(probe) == (vs[0] if vs else None), 'get')
    sx.check(h.get(probe, 'q') == (vs[0] if vs else 'q'), 'get(default)')
    try:
        got = h[probe]
        sx.check(len(vs) > 0 and got == vs[0], 'the first value')
    except BadRequestKeyError as e:
        sx.check(not vs, 'only missing names are an error')
        sx.check(isinstance(e, KeyError) and e.code == 400, 'a bad request')
    for i, x in enumerate(model):
        sx.check(h[i] == x, 'by position')
    sx.check(str(h) == ''.join(['%s: %s\r\n' % x for x in model]) + '\r\n',
             'as text')


def step(sx, h, model, i, ops):
    op = sx.choice('op%d' % i, ops)
    if op == 'clear':
        h.clear()
        return []
    if op in ('popitem', 'poplast'):
        try:
            got = h.popitem() if op == 'popitem' else h.pop()
        except IndexError:
            sx.check(not model, 'only when empty')
            return model
        sx.check(len(model) > 0 and got == model[-1], 'the last item')
        return model[:-1]
    if op in ('delindex', 'setindex', 'popindex'):
        j = sx.choice('j%d' % i, [0, 1, -1])
        rv = list(model)
        try:
            if op == 'delindex':
                del h[j]
            elif op == 'popindex':
                got = h.pop(j)
            else:
                h[j] = ('A', 'n')
        except IndexError:
            try:
                rv[j]
            except IndexError:
                pass
            else:
                sx.fail('existing positions are no error')
            return model
        if op == 'setindex':
            rv[j] = ('A', 'n')
            return rv
        old = rv[j]
        del rv[j]
        if op == 'popindex':
            sx.check(got == old, 'the item')
        return rv
    if op in ('delslice', 'setslice'):
        a = sx.choice('s%d' % i, [None, 1, -1])
        b = sx.choice('e%d' % i, [None, 1, -1])
        rv = list(model)
        if op == 'delslice':
            del h[a:b]
            del rv[a:b]
        else:
            h[a:b] = [('B', 'n'), ('a', b'\xe4')]
            rv[a:b] = [('B', 'n'), ('a', '\xe4')]
        return rv
    k = sx.text('k%d' % i, 1, NAMES, 1)
    v = 'v%d' % i
    vs = values(model, k)
    if op == 'assign':
        h[k] = v
        return replaced(model, k, v)
    if op == 'set':
        h.set(k, v)
        return replaced(model, k, v)
    if op == 'setopt':
        h.set(k, v, x_y='1')
        return replaced(model, k, v + '; x-y=1')
    if op == 'add':
        h.add(k, v)
        return model + [(k, v)]
    if op == 'addopt':
        h.add_header(k, v, f='a b')
        return model + [(k, v + '; f="a b"')]
    if op == 'setdefault':
        sx.check(h.setdefault(k, v) == (vs[0] if vs else v), 'value')
        return model if vs else model + [(k, v)]
    if op in ('del', 'remove'):
        if op == 'del':
            del h[k]
        else:
            h.remove(k)
        return without(model, k)
    if op == 'pop':
        try:
            got = h.pop(k)
        except BadRequestKeyError:
            sx.check(not vs, 'only missing names are an error')
        else:
            sx.check(len(vs) > 0 and got == vs[0], 'the first value')
        return without(model, k)
    if op == 'popd':
        sx.check(h.pop(k, None) == (vs[0] if vs else None), 'or the default')
        return without(model, k)
    how = sx.choice('how%d' % i, ['pairs', 'dict', 'multi', 'headers',
                                  'self'])
    if how == 'pairs':
        h.extend([(k, v), ('b', 'x')])
        return model + [(k, v), ('b', 'x')]
    if how == 'dict':
        h.extend({k: [v, 'x'], 'z': ('1',), 'y': 'w'})
        return model + [(k, v), (k, 'x'), ('z', '1'), ('y', 'w')]
    if how == 'multi':
        h.extend(MultiDict([(k, v), (k, 'x')]))
        return model + [(k, v), (k, 'x')]
    if how == 'headers':
        h.extend(Headers([(k, v), ('b', 'x')]))
        return model + [(k, v), ('b', 'x')]
    h.extend(h)
    return model + model


OPS = ['assign', 'set', 'add', 'setdefault', 'del', 'pop', 'extend',
       'setslice', 'popitem']
MORE = OPS + ['setopt', 'addopt', 'remove', 'popd', 'poplast', 'delindex',
              'setindex', 'popindex', 'delslice', 'clear']


def h_history(sx):
    """2 (thorough 3) operations on up to 3 headers"""
    model = sx.choice('start', [[], [('a', 'X'), ('B', ''), ('A', '3')],
                                [('b', '1'), ('a', '2')]])
    h = Headers(model)
    model = list(model)
    for i in range(sx.t(2, 3)):
        model = step(sx, h, model, i, MORE if i == 0 else OPS)
    reads(sx, h, model, sx.text('probe', 1, ['a', 'B', 'c'], 1))


def h_pairs(sx):
    """up to 3 headers and one operation"""
    model = [(sx.text('n%d' % i, 1, NAMES, 1), 'w%d' % i if i else '')
             for i in range(sx.choice('n', [0, 1, 2, 3]))]
    h = Headers(model)
    model = step(sx, h, list(model), 0, MORE)
    reads(sx, h, model, 'A')
    c = sx.choice('copy', [h.copy, lambda: copy.copy(h), lambda: Headers(h),
                           lambda: h[:]])()
    sx.check(type(c) is Headers and c == h and list(c) == model,
             'copies are equal')
    sx.check(not c != h, 'copies are equal')
    c.add('copied', '1')
    sx.check(c != h and list(h) == model, 'copies are independent')
    h.to_wsgi_list().append(('z', '1'))
    sx.check(list(h) == model, 'the list is a copy')


def h_newline(sx):
    """values of up to 3 (thorough 5) characters, every way to set them"""
    v = sx.str('v', sx.t(3, 5), sx.LATIN)
    bad = '\r' in v or '\n' in v
    model = [('a', '1'), ('B', '2')]
    h = Headers(model)
    before = model
    data = v.encode('latin1') if sx.choice('bytes', [False, True]) else v
    op = sx.choice('op', ['assign', 'set', 'add', 'addh', 'index', 'slice',
                          'setdefault', 'extend', 'extenddict',
                          'extendmulti', 'create', 'createdict',
                          'createmulti', 'response', 'option', 'setoption',
                          'respdict', 'again', 'setagain', 'setoptagain',
                          'indexes', 'slices'])
    try:
        if op == 'assign':
            h['c'] = data
        elif op == 'set':
            h.set('c', data)
        elif op == 'add':
            h.add('c', data)
        elif op == 'addh':
            h.add_header('c', data)
        elif op in ('again', 'setagain', 'setoptagain'):
            # where the header is set already
            h = Headers(model + [('C', '3'), ('d', '4'), ('c', '5')])
            before = list(h)
            if op == 'again':
                h['c'] = data
            elif op == 'setagain':
                h.set('c', data)
            else:
                h.set('c', 'x', f=v)
                v = dump_options_header('x', {'f': v})
        elif op == 'indexes':
            h[-1] = ('c', data)
        elif op == 'slices':
            h[1:] = [('c', data), ('d', 'x')]
        elif op == 'index':
            h[0] = ('c', data)
        elif op == 'slice':
            h[0:1] = [('d', 'x'), ('c', data)]
        elif op == 'setdefault':
            h.setdefault('c', data)
        elif op == 'extend':
            h.extend([('c', data)])
        elif op == 'extenddict':
            h.extend({'c': [data]})
        elif op == 'extendmulti':
            h.extend(MultiDict([('c', data)]))
        elif op == 'create':
            h = Headers([('c', v)])
        elif op == 'createdict':
            h = Headers({'c': data})
        elif op == 'createmulti':
            h = Headers(OrderedMultiDict([('c', data)]))
        elif op == 'response':
            h = Response(headers=[('c', v)]).headers
        elif op == 'respdict':
            h = Response(headers={'c': data}).headers
        elif op == 'option':
            h.add('c', 'x', f=v)
            v = dump_options_header('x', {'f': v})
        else:
            h.set('c', 'x', f=v)
            v = dump_options_header('x', {'f': v})
    except ValueError:
        sx.check(bad, 'only newlines are refused')
        sx.check(list(h) == before, 'and change nothing')
        return
    sx.check(not bad, 'newlines are refused')
    sx.check(h['C'] == v, 'the value')
    sx.check(h.get('C', as_bytes=True) == v.encode('latin1'), 'as bytes')
    sx.check(h.getlist('C', as_bytes=True) == [v.encode('latin1')],
             'as bytes')


def h_create(sx):
    """headers of up to 3 pairs from every kind of mapping"""
    model = [(sx.text('n%d' % i, 1, NAMES, 1), 'w%d' % i)
             for i in range(sx.choice('n', [0, 1, 2, 3]))]
    cls = sx.choice('cls', [list, iter, tuple, Headers, MultiDict,
                            OrderedMultiDict, CombinedMultiDict])
    if cls is CombinedMultiDict:
        arg = cls([MultiDict(model[:1]), MultiDict(model[1:])])
    else:
        arg = cls(model)
    how = sx.choice('how', ['create', 'extend', 'response'])
    if how == 'create':
        h = Headers(arg)
    elif how == 'extend':
        h = Headers()
        h.extend(arg)
    else:
        h = Response(headers=arg, content_type='x/y').headers
        h.remove('content-type')
        h.remove('content-length')
    if cls in (MultiDict, CombinedMultiDict):
        for k, _ in model:
            sx.check(h.getlist(k) == [v for n, v in h if
                                      n.lower() == k.lower()], 'as listed')
            got = [v for n, v in h if n == k]
            sx.check(got == [v for n, v in model if n == k],
                     'nothing is lost')
        sx.check(len(h) == len(model), 'nothing is added')
    else:
        sx.check(list(h) == model, 'in order')
    if cls in (list, MultiDict) or how != 'response' and cls is Headers:
        h.add('z', '1')
        sx.check(len(list(arg.items(multi=True) if cls is MultiDict
                          else arg)) == len(model), 'independent')


def h_convert(sx):
    """values converted with functions that may fail"""
    v = sx.text('v', 2, '01x', 1)
    w = sx.text('w', 2, '01x', 1)
    h = Headers([('A', v), ('b', '1'), ('a', w)])

    def conv(x):
        return len(x) if x.isdigit() else None
    sx.check(h.get('a', type=number) == conv(v), 'converted')
    sx.check(h.get('a', 7, type=number) == (7 if conv(v) is None
                                            else conv(v)), 'or the default')
    sx.check(h.getlist('a', type=number) ==
             [conv(x) for x in [v, w] if conv(x) is not None], 'converted')
    sx.check(h.get('c', 7, type=number) == 7, 'missing')

    def bnumber(x):
        sx.check(isinstance(x, bytes), 'bytes are converted')
        if not x.isdigit():
            raise ValueError(x)
        return [x]
    want = [[x.encode('latin1')] for x in [v, w] if conv(x) is not None]
    sx.check(h.getlist('a', bnumber, True) == want, 'converted from bytes')
    sx.check(h.get_all('a') == [v, w], 'all')
    sx.check(h.get('a', 7, bnumber, True) == (
        7 if conv(v) is None else [v.encode('latin1')]), 'from bytes')
    sx.check(h.getlist('c', bnumber, True) == [], 'missing')


class Special(Headers):
    pass


def h_equal(sx):
    """two sets of up to 2 headers, which differ in any way"""
    models = []
    for i in 'ab':
        models.append([(sx.choice('n%s%d' % (i, j), ['a', 'b']),
                        sx.text('v%s%d' % (i, j), 1, 'xX'))
                       for j in range(sx.choice('n' + i, [0, 1, 2]))])
    a, b = Headers(models[0]), Headers(models[1])
    sx.check((a == b) == (not a != b), 'either equal or not')
    sx.check((a == b) == (b == a), 'in both directions')
    if models[0] == models[1]:
        sx.check(a == b, 'the same headers are equal')
    same = True
    for x, y in ((0, 1), (1, 0)):
        for pair in models[x]:
            if pair not in models[y]:
                same = False
    if not same:
        sx.check(a != b, 'other headers are not')
    for other in (list(models[0]), dict(models[0]), None, 1, ''):
        sx.check(a != other and not a == other, 'only headers')
    e = Special(models[0])
    sx.check(e == Special(models[0]), 'of the same kind')


ENTITY = ['allow', 'content-encoding', 'content-language', 'content-length',
          'content-location', 'content-md5', 'content-range', 'content-type',
          'expires', 'last-modified']
HOP = ['connection', 'keep-alive', 'proxy-authenticate',
       'proxy-authorization', 'te', 'trailer', 'transfer-encoding',
       'upgrade']


def h_remove(sx):
    """removing entity and hop by hop headers from 2 headers"""
    names = []
    for i in range(2):
        n = sx.choice('n%d' % i, ENTITY + HOP + ['x-a', 'content-typ', 'te2'])
        names.append(n.title() if sx.choice('u%d' % i, [0, 1]) else n)
    model = [(n, str(i)) for i, n in enumerate(names)]
    arg = sx.choice('cls', [Headers, list])(model)
    kind = sx.choice('kind', ['entity', 'allowed', 'hop'])
    if kind == 'entity':
        remove_entity_headers(arg)
        drop = [x for x in ENTITY if x not in ('expires',
                                               'content-location')]
    elif kind == 'allowed':
        remove_entity_headers(arg, ['Allow', 'content-md5'])
        drop = [x for x in ENTITY if x not in ('allow', 'content-md5')]
    else:
        remove_hop_by_hop_headers(arg)
        drop = HOP
    sx.check(list(arg) == [x for x in model if x[0].lower() not in drop],
             'exactly these')
    for n in names:
        sx.check(is_entity_header(n) == (n.lower() in ENTITY), 'entity')
        sx.check(is_hop_by_hop_header(n) == (n.lower() in HOP), 'hop by hop')


def h_lookup(sx):
    """names that are no texts are missing, like any other"""
    h = Headers([('a', '1'), ('1', 'x'), ('None', 'y')])
    name = sx.choice('name', [None, (1, 2), b'a', 1.5, '', 'z'])
    sx.check(name not in h, 'not there')
    sx.check(h.get(name) is None and h.get(name, 'q') == 'q', 'not there')
    try:
        h[name]
        sx.fail('not there')
    except KeyError as e:
        sx.check(isinstance(e, BadRequestKeyError), 'a bad request')


def h_number(sx):
    """numbers become texts, whichever way they are set"""
    n = sx.choice('n', [0, 7, -1, 12, 1.5])
    h = Headers([('a', 'x'), ('b', 'y')])
    op = sx.choice('op', ['assign', 'set', 'add', 'addh', 'setdefault',
                          'extend', 'extenddict', 'extendlist', 'index',
                          'slice', 'multi', 'create'])
    if op == 'assign':
        h['c'] = n
    elif op == 'set':
        h.set('c', n)
    elif op == 'add':
        h.add('c', n)
    elif op == 'addh':
        h.add_header('c', n)
    elif op == 'setdefault':
        sx.check(h.setdefault('c', n) in (n, str(n)), 'the value')
    elif op == 'extend':
        h.extend([('c', n)])
    elif op == 'extenddict':
        h.extend({'c': n})
    elif op == 'extendlist':
        h.extend({'c': [n]})
    elif op == 'index':
        h[1] = ('c', n)
    elif op == 'slice':
        h[1:] = [('c', n)]
    elif op == 'multi':
        h.extend(MultiDict([('c', n)]))
    else:
        h = Headers({'c': n})
    sx.check(h['c'] == str(n) and h.getlist('c') == [str(n)], 'as text')
    for k, v in h.to_wsgi_list():
        sx.check(isinstance(v, str), 'nothing but text')


def h_option_values(sx):
    """options of headers: a value of up to 2 characters, none, a number;
    underscores become dashes"""
    kind = sx.choice('kind', ['text', 'none', 'number'])
    name = sx.choice('name', ['secure', 'max_age'])
    v = {'text': 'a', 'none': None, 'number': 5}[kind]
    if kind == 'text':
        v = sx.text('v', 2, ['a', ' ', '"', '\\', ';', '\xe4', ','])
    h = Headers([('A', 'old')])
    op = sx.choice('op', ['add', 'addh', 'set'])
    getattr(h, {'addh': 'add_header'}.get(op, op))('A', 'x', **{name: v})
    want = 'x; ' + name.replace('_', '-')
    if v is not None:
        text = str(v)
        if text == '' or [c for c in text if c in ' ";,\\\xe4']:
            text = '"' + text.replace('\\', '\\\\').replace(
                '"', '\\"') + '"'
        want += '=' + text
    sx.check(h.getlist('a') == (['old'] if op != 'set' else []) + [want],
             'the header')


def h_copies(sx):
    """headers made from one another by any of 6 ways, each changed by any of
    8 operations"""
    given = [('a', 'X'), ('B', '2')]
    h = Headers(given)
    way = sx.choice('way', ['copy', 'copy.copy', 'class', 'slice', 'deepcopy',
                            'list', 'wsgi', 'extend'])
    if way == 'copy':
        c = h.copy()
    elif way == 'copy.copy':
        c = copy.copy(h)
    elif way == 'class':
        c = Headers(h)
    elif way == 'slice':
        c = h[:]
    elif way == 'deepcopy':
        c = copy.deepcopy(h)
    elif way == 'list':
        h = given
        c = Headers(given)
    elif way == 'wsgi':
        c = Headers(h.to_wsgi_list())
    else:
        c = Headers()
        c.extend(h)
    sx.check(list(c) == given, 'the same headers')
    for i, s in enumerate([c, h] if way != 'list' else [c]):
        before = list(c), list(h)
        op = sx.choice('op%d' % i, ['add', 'set', 'remove', 'clear', 'item',
                                    'pop', 'extend', 'del'])
        if op == 'add':
            s.add('x%d' % i, 'y')
        elif op == 'set':
            s['A'] = 'z%d' % i
        elif op == 'remove':
            s.remove('b')
        elif op == 'clear':
            s.clear()
        elif op == 'item':
            s[0] = ('q%d' % i, 'r')
        elif op == 'pop':
            s.pop()
        elif op == 'extend':
            s.extend([('a', 'again')])
        else:
            del s[0]
        sx.check(list(s) != before[i], 'this one is changed')
        sx.check(list(h if i == 0 else c) == before[1 - i],
                 'but not the other one')


def h_loops(sx):
    """loops over one set of headers inside of each other, and changed
    copies inside of a loop"""
    pairs = [('A', '1'), ('b', '2'), ('a', '3')]
    h = Headers(pairs)
    what = sx.choice('what', ['iter', 'items', 'keys', 'values', 'lower',
                              'list', 'get'])

    def each():
        if what == 'iter':
            return iter(h)
        elif what == 'items':
            return h.items()
        elif what == 'keys':
            return h.keys()
        elif what == 'values':
            return h.values()
        elif what == 'lower':
            return h.items(lower=True)
        elif what == 'list':
            return h.to_wsgi_list()
        return h.get_all('a')
    want = list(each())
    sx.check(len(want) == (2 if what == 'get' else 3), 'all of them')
    got = []
    for x in each():
        sx.check(list(each()) == want, 'the inner loop is complete')
        if sx.bool('stop'):
            for y in each():
                break
        got.append(x)
    sx.check(got == want, 'and so is the outer loop')
