"""Header sets behave as ordered sets that ignore case.

The oracle is a plain list without two items of equal lower case.
Outside the bounds: more operations, longer items, slices, non-ascii items
whose case mapping changes their length.
"""
from verktyg.http import HeaderSet, parse_set_header
from verktyg.responses import Response

CHARS = ['a', 'A', 'b', 'B', '-']
TEXT = ['a', 'A', 'b', '"', '\\', ',', ' ', '=', '\xe4', '\t']


def find(model, x):
    for i, y in enumerate(model):
        if x.lower() == y.lower():
            return i
    return -1


def added(model, items):
    model = list(model)
    for x in items:
        if find(model, x) < 0:
            model.append(x)
    return model


def same(sx, hs, model, probe):
    sx.check(list(hs) == model, 'the items in order')
    sx.check(len(hs) == len(model), 'the length')
    sx.check(bool(hs) == (len(model) > 0), 'truth')
    at = find(model, probe)
    sx.check((probe in hs) == (at >= 0), 'membership ignores case')
    sx.check(hs.find(probe) == at, 'position')
    try:
        sx.check(hs.index(probe) == at, 'position')
    except IndexError:
        sx.check(at < 0, 'only missing ones')
    lower = [x.lower() for x in model]
    got = hs.as_set()
    sx.check(len(got) == len(lower), 'as a set')
    for x in lower:
        sx.check(x in got, 'as a set')
    got = hs.as_set(preserve_casing=True)
    sx.check(len(got) == len(model), 'as a set')
    for x in model:
        sx.check(x in got, 'as a set')
    for i, x in enumerate(model):
        sx.check(hs[i] == x, 'by position')
    hs.as_set().add('zz')
    hs.as_set(preserve_casing=True).add('zz')
    sx.check('zz' not in hs and list(hs) == model, 'the set is a copy')


def step(sx, hs, model, name, chars, maxlen=1):
    """one operation on both; (model, changed)"""
    op = sx.choice(name + '.op', ['add', 'remove', 'discard', 'update',
                                  'del', 'set', 'clear'])
    if op == 'clear':
        hs.clear()
        return [], None
    if op == 'del':
        i = sx.choice(name + '.i', [0, 1, -1])
        try:
            del hs[i]
        except IndexError:
            sx.check(not -len(model) <= i < len(model), 'in range')
            return model, False
        sx.check(-len(model) <= i < len(model), 'in range')
        model = list(model)
        del model[i]
        return model, True
    x = sx.text(name + '.x', maxlen, chars, 1)
    if op == 'add':
        hs.add(x)
        new = added(model, [x])
        return new, len(new) > len(model)
    if op == 'update':
        y = sx.choice(name + '.y', ['a', 'B'])
        hs.update([x, y])
        new = added(model, [x, y])
        return new, len(new) > len(model)
    if op == 'set':
        i = sx.choice(name + '.i', [0, 1, -1])
        try:
            hs[i] = x
        except IndexError:
            sx.check(not -len(model) <= i < len(model), 'in range')
            return model, False
        sx.check(-len(model) <= i < len(model), 'in range')
        i %= len(model)
        new = [x if j == i else y for j, y in enumerate(model)
               if j == i or y.lower() != x.lower()]
        return new, None
    at = find(model, x)
    if op == 'remove':
        try:
            hs.remove(x)
        except KeyError:
            sx.check(at < 0, 'only for missing items')
            return model, False
        sx.check(at >= 0, 'missing items are an error')
    else:
        hs.discard(x)
    if at < 0:
        return model, False
    return model[:at] + model[at + 1:], True


def h_history(sx):
    """3 operations on a set of up to 3 items"""
    start = sx.choice('start', [[], ['a'], ['A', 'b'], ['a', 'B', '-'],
                                ['a', 'A', 'b', 'a']])
    calls = []
    hs = HeaderSet(start, calls.append)
    sx.check(not calls, 'not called at first')
    model = added([], start)
    for k in range(3):
        before = len(calls)
        model, changed = step(sx, hs, model, 'op%d' % k, CHARS)
        if changed is not None:
            sx.check((len(calls) > before) == bool(changed),
                     'told about changes')
        if changed is not False:
            sx.check(len(calls) > before, 'told about changes')
        for c in calls:
            sx.check(c is hs, 'told with the set')
    same(sx, hs, model, sx.text('probe', 1, CHARS, 1))


def h_create(sx):
    """sets of up to 3 items of up to 2 characters"""
    items = [sx.text('i%d' % k, 2, CHARS, 1)
             for k in range(sx.choice('n', [0, 1, 2, 3]))]
    hs = HeaderSet(iter(items) if sx.bool('iter') else items)
    same(sx, hs, added([], items), 'a')


def h_header(sx):
    """headers of up to 2 items of up to 2 characters are read back"""
    items = [sx.text('i%d' % k, 2, TEXT, 1)
             for k in range(sx.choice('n', [1, 2]))]
    hs = HeaderSet(items)
    got = parse_set_header(hs.to_header())
    sx.check(list(got) == added([], items), 'read back')
    sx.check(parse_set_header('').to_header() == '', 'empty')
    sx.check(not parse_set_header(None), 'empty')


def h_response(sx):
    """properties of a response with 2 operations"""
    name = sx.choice('name', ['vary', 'allow', 'content_language'])
    header = name.replace('_', '-')
    r = Response('x')
    start = sx.choice('start', [None, ['a'], ['A', 'b']])
    if start:
        if sx.bool('as_list'):
            setattr(r, name, start)
        else:
            setattr(r, name, ', '.join(start))
    model = added([], start or [])
    for k in range(2):
        hs = getattr(r, name)
        model, _ = step(sx, hs, model, 'op%d' % k, CHARS)
        if model:
            sx.check(r.headers[header] == hs.to_header(), 'in step')
        else:
            sx.check(header not in r.headers, 'removed when empty')
        sx.check(len(r.headers.getlist(header)) == (1 if model else 0),
                 'only once')
        sx.check(list(getattr(r, name)) == model, 'read back')
    setattr(r, name, sx.choice('empty', [None, '', []]))
    sx.check(header not in r.headers, 'removed')
    sx.check(not getattr(r, name), 'removed')


def h_written(sx):
    """the header written after each of 3 changes, with items which are the
    same but for their case"""
    hs = HeaderSet(['a', 'B'])
    r = Response()
    r.vary = 'a, B'
    attr = r.vary
    model = ['a', 'B']
    for i in range(3):
        sx.check(hs.to_header() == ', '.join(model), 'the items')
        sx.check(str(hs) == ', '.join(model), 'the items')
        sx.check(r.headers.get('vary') == (', '.join(model) or None),
                 'the header')
        op = sx.choice('op%d' % i, ['add', 'remove', 'discard', 'set', 'del',
                                    'clear', 'update'])
        x = sx.choice('x%d' % i, ['A', 'b', 'c'])
        at = find(model, x)
        for s in hs, attr:
            if op in ('add', 'update'):
                s.add(x) if op == 'add' else s.update(['c', x])
            elif op == 'remove':
                if at >= 0:
                    s.remove(x)
            elif op == 'discard':
                s.discard(x)
            elif op == 'set' and model:
                s[0] = x
            elif op == 'del' and model:
                del s[-1]
            elif op == 'clear':
                s.clear()
        if op == 'update':
            model = added(model, ['c', x])
        elif op == 'add':
            model = added(model, [x])
        elif op in ('remove', 'discard'):
            if at >= 0:
                del model[at]
        elif op == 'set' and model:
            model[0] = x
            if at > 0:
                del model[at]
        elif op == 'del' and model:
            del model[-1]
        elif op == 'clear':
            model = []
    sx.check(hs.to_header() == ', '.join(model), 'the items')
    sx.check(list(parse_set_header(r.headers.get('vary'))) == model,
             'the header')
