"""Cache directives: the header, the accessors and the callbacks agree.

Outside the bounds: more operations, directives in upper case.
"""
from verktyg.datastructures import CallbackDict
from verktyg.http import (
    parse_cache_control_header, ResponseCacheControl, RequestCacheControl,
)
from verktyg.requests import Request
from verktyg.responses import Response

FLAGS = ['no_store', 'public', 'must_revalidate', 'proxy_revalidate',
         'no_transform']
INTS = ['max_age', 's_maxage']
NAMES = ['no_cache', 'private']
ALL = FLAGS + INTS + NAMES
# value read for a directive without a value
EMPTY = {'max_age': -1, 's_maxage': None, 'no_cache': '*', 'private': '*'}
TEXT = ['a', 'B', '"', '\\', ',', ' ', '=', ';', '\xe4', '\t', '5']


def key(name):
    return name.replace('_', '-')


def expected(model, name):
    if name in FLAGS:
        return name in model
    if name not in model:
        return None
    if model[name] is None:
        return EMPTY[name]
    return model[name]


def same(sx, cc, model):
    for name in ALL:
        got = getattr(cc, name)
        want = expected(model, name)
        if want is None or want is True or want is False:
            sx.check(got is want, 'flags and missing directives')
        else:
            sx.check(got == want, 'values')
    sx.check(len(cc) == len(model), 'nothing else')


def change(sx, cc, model, i):
    """change one directive"""
    name = sx.choice('name%d' % i, ALL)
    model = dict(model)
    op = sx.choice('op%d' % i, ['on', 'off', 'none', 'del', 'value'])
    if op == 'on':
        setattr(cc, name, True)
        model[name] = None
    elif op == 'off' and name in FLAGS:
        setattr(cc, name, False)
        model.pop(name, None)
    elif op in ('none', 'off'):
        setattr(cc, name, None)
        model.pop(name, None)
    elif op == 'del':
        delattr(cc, name)
        model.pop(name, None)
    elif name in INTS:
        v = sx.int('v%d' % i, 0, 99)
        setattr(cc, name, v)
        model[name] = v
    elif name in NAMES:
        v = sx.text('v%d' % i, 2, TEXT)
        setattr(cc, name, v)
        model[name] = v
    else:
        setattr(cc, name, 1)
        model[name] = None
    return model


def h_response(sx):
    """2 (thorough 3) changes to a response's directives"""
    start = sx.choice('start', [
        {}, {'max_age': 10}, {'no_cache': None, 'public': None},
        {'private': 'x', 's_maxage': 0, 'no_transform': None}])
    r = Response('x')
    if start:
        r.headers['Cache-Control'] = ', '.join([
            key(k) + ('' if v is None else '=%s' % v)
            for k, v in start.items()])
    model = start
    keep = sx.bool('keep')
    cc = r.cache_control
    same(sx, cc, model)
    for i in range(sx.t(2, 3)):
        if not keep:
            cc = r.cache_control
        model = change(sx, cc, model, i)
        same(sx, cc, model)
        again = r.cache_control
        same(sx, again, model)
        n = len(r.headers.getlist('cache-control'))
        sx.check(n == (1 if model else 0), 'one header, none when empty')
        if model:
            sx.check(str(cc) == cc.to_header(), 'as text')
            sx.check(r.headers['Cache-Control'] == cc.to_header(), 'in step')


def h_request(sx):
    """directives of a request, the numbers up to 3 digits, spacing and
    order"""
    num = sx.text('num', 3, sx.DIGITS, 1)
    name = sx.choice('name', ['max-age', 'max-stale', 'min-fresh'])
    flags = sx.choice('flags', [[], ['no-cache'], ['no-store'],
                                ['only-if-cached', 'no-transform']])
    sep = sx.choice('sep', [',', ', ', ' , ', ',,'])
    kind = sx.choice('kind', ['plain', 'quoted', 'none'])
    parts = [{'plain': name + '=' + num, 'quoted': name + '="' + num + '"',
              'none': name}[kind]]
    parts = parts + flags if sx.bool('first') else flags + parts
    header = sep.join(parts)
    cc = Request({'HTTP_CACHE_CONTROL': header}).cache_control
    sx.check(isinstance(cc, RequestCacheControl), 'type')
    for n in ('max-age', 'max-stale', 'min-fresh'):
        got = getattr(cc, n.replace('-', '_'))
        if n != name:
            sx.check(got is None, 'absent')
        elif kind == 'none':
            sx.check(got == (-1 if n == 'max-age' else '*'), 'no value')
        else:
            sx.check(got == int(num) and isinstance(got, int), 'number')
    sx.check((cc.no_cache is not None) == ('no-cache' in flags), 'flag')
    for n in ('no-store', 'only-if-cached', 'no-transform'):
        sx.check(getattr(cc, n.replace('-', '_')) is (n in flags), 'flag')
    try:
        cc.max_age = 5
        sx.fail('requests are immutable')
    except TypeError:
        pass
    try:
        cc.no_store = True
        sx.fail('requests are immutable')
    except TypeError:
        pass
    sx.check(cc.provided, 'there is a header')
    none = parse_cache_control_header(None)
    sx.check(not none.provided and
             not parse_cache_control_header('').provided, 'no header')
    sx.check(len(none) == 0 and none.max_age is None and
             none.no_store is False, 'no header')


def h_values(sx):
    """extension directives with values of up to 3 characters"""
    v = sx.text('v', 3, TEXT)
    quoted = '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    cc = parse_cache_control_header(
        'private, community=' + quoted, None, ResponseCacheControl)
    sx.check(cc['community'] == v, 'as sent')
    sx.check(cc.private == '*', 'others')
    again = parse_cache_control_header(cc.to_header(), None,
                                       ResponseCacheControl)
    sx.check(dict(again) == dict(cc), 'read back')


def h_not_a_number(sx):
    """numeric directives with any value of up to 3 characters: a number, or
    the text as it is, and never an error"""
    v = sx.text('v', 3, ['0', '7', 'x', '-', '+', '.', '_', ' ', '\xe4',
                         '\xb2'])
    name = sx.choice('name', ['max-age', 's-maxage', 'min-fresh',
                              'max-stale'])
    cls = ResponseCacheControl if name in ('s-maxage',) else None
    cc = parse_cache_control_header(name + '="' + v + '"', None, cls)
    got = getattr(cc, name.replace('-', '_'))
    if v.isdigit() and v.isascii():
        sx.check(isinstance(got, int) and got == int(v), 'a number')
    elif isinstance(got, str):
        sx.check(got == v, 'the text')
    else:
        sx.check(got == int(v), 'what int() makes of it')


def h_callback(sx):
    """3 operations on a dict with a callback"""
    calls = []
    start = sx.choice('start', [{}, {'a': None}, {'a': 1, 'b': 2}])
    seen = []

    class Callback(list):
        # false until it was called
        def __call__(self, changed):
            calls.append(changed)
            seen.append(dict(changed))
    d = CallbackDict(start, Callback())
    sx.check(not calls, 'not called at first')
    model = dict(start)
    for i in range(3):
        before = len(calls)
        old = dict(model)
        op = sx.choice('op%d' % i, ['set', 'del', 'pop', 'popd', 'clear',
                                    'popitem', 'update', 'setdefault', 'ior',
                                    'read'])
        if op in ('set', 'del', 'pop', 'popd', 'setdefault'):
            k = sx.text('k%d' % i, 1, 'abc', 1)
        must = None
        try:
            if op == 'set':
                model[k] = i
                d[k] = i
                must = True
            elif op == 'del':
                has = k in model
                must = has
                if has:
                    del model[k]
                del d[k]
                sx.check(has, 'missing keys are an error')
            elif op == 'pop':
                must = has = k in model
                want = model.pop(k, None)
                got = d.pop(k)
                sx.check(has and got == want, 'missing keys are an error')
            elif op == 'popd':
                must = k in model
                sx.check(d.pop(k, 'x') == model.pop(k, 'x'), 'value')
            elif op == 'clear':
                model = {}
                d.clear()
            elif op == 'popitem':
                must = bool(model)
                got = d.popitem()
                sx.check(model.pop(got[0]) == got[1], 'an item')
            elif op == 'update':
                model.update(a=7, c=i)
                d.update({'a': 7}, c=i)
                must = True
            elif op == 'setdefault':
                must = k not in model
                sx.check(d.setdefault(k, 9) == model.setdefault(k, 9),
                         'value')
            elif op == 'ior':
                model['c'] = 8
                d |= {'c': 8}
                must = True
            else:
                d.get('a')
                'a' in d
                list(d.items())
                must = False
        except KeyError:
            sx.check(not must and op in ('del', 'pop', 'popitem'),
                     'only for missing keys')
            must = False
        sx.check(dict(d) == model, 'content')
        if must is True or old != model:
            sx.check(len(calls) > before, 'told about changes')
            sx.check(seen[-1] == model, 'once they are made')
        if must is False:
            sx.check(len(calls) == before, 'told only about changes')
        for c in calls:
            sx.check(c is d, 'told with the dict')


def h_history(sx):
    """directives read after each of 3 changes through the dict methods or the
    accessors, on one of two objects parsed from the same header"""
    header = 'max-age=5, no-cache'
    one = parse_cache_control_header(header, cls=ResponseCacheControl)
    two = parse_cache_control_header(header, cls=ResponseCacheControl)
    model = {'max_age': 5, 'no_cache': None}
    for i in range(3):
        same(sx, one, model)
        same(sx, two, {'max_age': 5, 'no_cache': None})
        name = sx.choice('name%d' % i, ['max_age', 'no_cache', 'public'])
        op = sx.choice('op%d' % i, ['set', 'pop', 'accessor', 'clear'])
        if op == 'set':
            one[key(name)] = '7' if name == 'max_age' else None
            model[name] = 7 if name == 'max_age' else None
        elif op == 'pop':
            one.pop(key(name), None)
            model.pop(name, None)
        elif op == 'accessor':
            setattr(one, name, 8 if name == 'max_age' else True)
            model[name] = 8 if name == 'max_age' else None
        else:
            one.clear()
            model.clear()
    same(sx, one, model)
    got = parse_cache_control_header(one.to_header(),
                                     cls=ResponseCacheControl)
    same(sx, got, model)
    same(sx, parse_cache_control_header(header, cls=ResponseCacheControl),
         {'max_age': 5, 'no_cache': None})


def h_derived(sx):
    """directives made from other directives, with or without a callback of
    their own: each one tells about its own changes only"""
    logs = [], []
    first = sx.choice('first', ['parsed', 'made', 'response'])
    r = Response()
    if first == 'parsed':
        a = parse_cache_control_header('max-age=5', logs[0].append,
                                       ResponseCacheControl)
    elif first == 'made':
        a = ResponseCacheControl({'max-age': '5'}, logs[0].append)
    else:
        r.headers['Cache-Control'] = 'max-age=5'
        a = r.cache_control
    how = sx.choice('how', ['class', 'dict', 'response', 'none'])
    cls = sx.choice('cls', [ResponseCacheControl, RequestCacheControl])
    told = how == 'class' and sx.bool('told')
    if how == 'class':
        b = cls(a, logs[1].append) if told else cls(a)
    elif how == 'dict':
        b = cls(dict(a))
    elif how == 'response':
        other = Response()
        other.headers['Cache-Control'] = a.to_header()
        b = other.cache_control
    else:
        b = cls({'max-age': '5'})
    sx.check(b.max_age == 5, 'the same')
    if how == 'response' or (cls is ResponseCacheControl and
                             sx.bool('second')):
        b.max_age = 6
        sx.check(logs[0] == [], 'the other one does not tell')
        sx.check(len(logs[1]) == (1 if told else 0), 'this one does')
        sx.check(a.max_age == 5, 'the other one is not changed')
        if first == 'response':
            sx.check(r.headers['Cache-Control'] == 'max-age=5', 'nor written')
        if how == 'response':
            sx.check(other.headers['Cache-Control'] == 'max-age=6', 'written')
    else:
        a.max_age = 6
        sx.check(b.max_age == 5 and logs[1] == [], 'the copy is not changed')
        sx.check(len(logs[0]) == (0 if first == 'response' else 1), 'told')
        if first == 'response':
            sx.check(r.headers['Cache-Control'] == 'max-age=6', 'written')


def h_threads(sx):
    """two threads at once, the second at any line of the first: directives"""
    def trip(text, cls):
        c = parse_cache_control_header(text, cls=cls)
        return c.to_header(), sorted(c), c.max_age, c.no_cache
    todo = [lambda: trip('max-age=5, no-cache', ResponseCacheControl),
            lambda: trip('max-age=7', RequestCacheControl),
            lambda: trip('no-cache="a", public', ResponseCacheControl)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
