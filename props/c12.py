"""Header value quoting and list/dict/option header round trips.

Outside the bounds: longer strings, more items, option names that are not
tokens, and the documented special case for UNC-style file names.
"""
from verktyg.http import (
    quote_header_value, unquote_header_value, dump_header,
    dump_options_header, parse_list_header, parse_dict_header,
    parse_options_header, parse_set_header, HeaderSet,
)

# any header text: everything but control characters (tab is allowed)
TEXT = ['\t'] + [chr(i) for i in range(32, 127)] + [
    chr(i) for i in range(160, 256)] + ['\u20ac', '\U0001f600']


def unescape(s):
    """independent reading of a quoted-string (RFC 7230 3.2.6)"""
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        return None
    out = ''
    i = 1
    while i < len(s) - 1:
        if s[i] == '\\':
            i += 1
            if i >= len(s) - 1:
                return None
        elif s[i] == '"':
            return None
        out += s[i]
        i += 1
    return out


def is_token(s):
    return len(s) > 0 and all(c in "!#$%&'*+-.^_`|~0123456789"
                              "abcdefghijklmnopqrstuvwxyz"
                              "ABCDEFGHIJKLMNOPQRSTUVWXYZ" for c in s)


def h_quote(sx):
    """one value of up to 4 (thorough 6) characters over all header text;
    token passing on and off"""
    v = sx.text('v', sx.t(4, 6), TEXT)
    allow = sx.bool('allow_token')
    q = quote_header_value(v, allow_token=allow)
    sx.check(unquote_header_value(q) == v, 'unquote(quote(v)) == v')
    if q[:1] == '"':
        sx.check(unescape(q) == v, 'a quoted value is a quoted-string for v')
    else:
        sx.check(allow, 'only quoted when tokens are disallowed')
        sx.check(q == v, 'an unquoted value is v itself')
        sx.check(is_token(v), 'an unquoted value is a token')


def h_list(sx):
    """lists of 0..2 (thorough 3) values of up to 2 characters each"""
    n = sx.choice('n', range(sx.t(3, 4)))
    items = [sx.text('item%d' % i, 2, TEXT) for i in range(n)]
    allow = sx.bool('allow_token')
    got = parse_list_header(dump_header(items, allow_token=allow))
    sx.check(got == items, 'parse_list_header(dump_header(l)) == l')


def h_list_one(sx):
    """one-element lists, value of up to 4 (thorough 5) characters"""
    items = [sx.text('item', sx.t(4, 5), TEXT)]
    sx.check(parse_list_header(dump_header(items)) == items,
             'one item survives')
    mixed = ['first'] + items + ['x y']
    sx.check(parse_list_header(dump_header(mixed)) == mixed,
             'an item cannot disturb its neighbours')


def h_dict(sx):
    """dicts of up to 2 entries; values of up to 2 characters or absent"""
    d = {}
    for i in range(sx.choice('n', range(3))):
        key = ['realm', 'no-cache', 'x'][i]
        if sx.bool('bare%d' % i):
            d[key] = None
        else:
            d[key] = sx.text('value%d' % i, 2, TEXT)
    got = parse_dict_header(dump_header(d))
    sx.check(got == d, 'parse_dict_header(dump_header(d)) == d')


def h_dict_one(sx):
    """one entry: token key of 1..2 characters, value up to 4 characters"""
    key = sx.text('key', 2, sx.TOKEN, 1)
    d = {key: sx.text('value', sx.t(3, 4), TEXT)}
    got = parse_dict_header(dump_header(d))
    sx.check(got == d, 'one entry survives')


def h_options(sx):
    """a main value and up to 2 options; values up to 2 characters"""
    main = sx.choice('main', ['form-data', 'text/html'])
    opts = {}
    for i in range(sx.choice('n', range(3))):
        key = ['charset', 'name'][i]
        if sx.bool('bare%d' % i):
            opts[key] = None
        else:
            opts[key] = sx.text('value%d' % i, 2, TEXT)
    got = parse_options_header(dump_options_header(main, opts))
    sx.check(got == (main, opts), 'options round trip')


def h_options_one(sx):
    """token main value of 1..2, token option name of 1..2, value up to 4"""
    main = sx.text('main', 2, sx.TOKEN, 1)
    key = sx.text('key', 2, sx.TOKEN, 1)
    val = sx.text('value', sx.t(3, 4), TEXT)
    got = parse_options_header(dump_options_header(main, {key: val}))
    sx.check(got == (main, {key: val}), 'one option survives')


def h_filename(sx):
    """options named filename: values of up to 3 (thorough 4) characters;
    those that begin with two backslashes after quoting are taken for the
    unescaped network paths that some browsers send"""
    val = sx.text('value', sx.t(3, 4), TEXT)
    sx.assume(val[:1] != '\\')
    got = parse_options_header(dump_options_header('x', {'filename': val}))
    sx.check(got == ('x', {'filename': val}), 'file names survive')
    raw = sx.text('raw', 2, ['a', 'b', '\\', '.', ' '], 1)
    sx.assume(raw[-1] != '\\')
    got = parse_options_header('x; filename="\\\\' + raw + '"; b=1')
    sx.check(got == ('x', {'filename': '\\\\' + raw, 'b': '1'}),
             'network paths are left alone')
    got = parse_options_header('x; name="\\\\' + 'y' + '"; b=1')
    sx.check(got == ('x', {'name': '\\y', 'b': '1'}), 'but only file names')


def h_types(sx):
    """values given as numbers or bytes; none, zero and the empty text differ;
    the arguments are left alone"""
    v = sx.choice('v', [None, 0, 1, '', b'', b'\xe4 b', 'x', 1.5, False])
    if v is None:
        text = None
    elif isinstance(v, bytes):
        text = v.decode('latin1')
    else:
        text = str(v)
    d = {'a': v, 'b': 'c d'}
    want = {'a': text, 'b': 'c d'}
    token = sx.bool('token')
    sx.check(parse_dict_header(dump_header(d, token)) == want, 'dict entries')
    sx.check(parse_dict_header(dump_header(d, token).encode('latin1')) ==
             want, 'read from bytes')
    sx.check(parse_options_header(dump_options_header('m', d)) ==
             ('m', want), 'options')
    sx.check(parse_options_header(dump_options_header(None, d)) ==
             ('a' if text is None else 'a', {'b': 'c d'}) or
             text is not None, 'without a main value')
    if v is not None:
        l = [v, 'b', v]
        sx.check(parse_list_header(dump_header(l, token)) ==
                 [text, 'b', text], 'list items')
        sx.check(parse_list_header(dump_header(iter(l), token)) ==
                 [text, 'b', text], 'from any iterable')
        sx.check(l == [v, 'b', v], 'arguments are left alone')
        head = dump_header({'a': v}, allow_token=False)
        sx.check(head == 'a="' + text + '"', 'quoted when asked for')
        head = dump_header([v], allow_token=False)
        sx.check(head == '"' + text + '"', 'quoted when asked for')
    sx.check(d == {'a': v, 'b': 'c d'}, 'arguments are left alone')


def h_set(sx):
    """sets of up to 2 distinct values of up to 2 characters"""
    items = [sx.text('item%d' % i, 2, TEXT)
             for i in range(sx.choice('n', range(3)))]
    if len(items) == 2:
        sx.assume(items[0].lower() != items[1].lower())
    hs = HeaderSet(items)
    sx.check(list(parse_set_header(hs.to_header())) == items,
             'parse_set_header(to_header()) has the same items')
    sx.check(list(parse_set_header(dump_header(hs))) == items,
             'parse_set_header(dump_header()) has the same items')


def h_any(sx):
    """any header text of up to 4 (thorough 5) characters, all parsers"""
    v = sx.text('v', sx.t(4, 5), ['a', 'B', ';', ',', '=', '"', '\\', ' ',
                                  '*', '\xe4'])
    how = sx.choice('how', ['list', 'dict', 'options', 'set', 'unquote'])
    if how == 'list':
        for x in parse_list_header(v):
            sx.check(isinstance(x, str), 'texts')
    elif how == 'dict':
        for k, x in parse_dict_header(v).items():
            sx.check(isinstance(k, str), 'names')
            sx.check(x is None or isinstance(x, str), 'texts')
    elif how == 'options':
        name, options = parse_options_header(v)
        sx.check(isinstance(name, str), 'a name')
        for k, x in options.items():
            sx.check(isinstance(k, str), 'names')
            sx.check(x is None or isinstance(x, str), 'texts')
    elif how == 'set':
        for x in parse_set_header(v):
            sx.check(isinstance(x, str), 'texts')
    else:
        sx.check(isinstance(unquote_header_value(v), str), 'texts')


class Own(dict):
    pass


def h_extra(sx):
    """further characters that need no quotes; values of up to 3 characters;
    own classes of dicts"""
    v = sx.text('v', 3, ['a', '/', ':', ' ', '"', ',', '\\', '\xe4'])
    extra = sx.choice('extra', ['', '/', '/:', ':'])
    got = quote_header_value(v, extra_chars=extra)
    plain = v != ''
    for c in v:
        if c != 'a' and c not in extra:
            plain = False
    if plain:
        sx.check(got == v, 'no quotes')
    else:
        sx.check(got[:1] == '"' and unescape(got) == v, 'quoted')
    sx.check(unquote_header_value(got) == v, 'survives')
    header = dump_header({'k': v, 'n': None})
    own = parse_dict_header(header, Own)
    sx.check(type(own) is Own and dict(own) == {'k': v, 'n': None},
             'in a class of its own')
    sx.check(type(parse_dict_header(header)) is dict, 'or a dict')


def h_history(sx):
    """headers parsed again after the first results were changed: any 2 of
    4 headers"""
    headers = ['a; b=c', 'a, b=c', 'b="c, d"', 'text/html; charset=utf-8']
    first = sx.choice('first', headers)
    second = sx.choice('second', headers)
    want = [parse_options_header(second), parse_list_header(second),
            parse_dict_header(second), list(parse_set_header(second))]
    want = [(want[0][0], dict(want[0][1])), list(want[1]), dict(want[2]),
            want[3]]
    parse_options_header(first)[1]['x'] = 'y'
    parse_options_header(first)[1].pop('b', None)
    parse_list_header(first).append('y')
    parse_dict_header(first)['x'] = 'y'
    parse_dict_header(first).pop('b', None)
    parse_set_header(first).add('y')
    got = [parse_options_header(second), parse_list_header(second),
           parse_dict_header(second), list(parse_set_header(second))]
    sx.check(got[0] == want[0], 'options')
    sx.check(got[1] == want[1], 'list')
    sx.check(got[2] == want[2], 'dict')
    sx.check(got[3] == want[3], 'set')
    for empty in (None, ''):
        for parse in (lambda: parse_options_header(empty)[1],
                      lambda: parse_dict_header('')):
            parse()['x'] = 'y'
            sx.check('x' not in parse(), 'nothing in nothing')


def h_threads(sx):
    """two threads at once, the second at any line of the first: headers parsed and written"""
    todo = [lambda: parse_options_header('a/b; c="d;e"; f=g'),
            lambda: parse_options_header('x; filename="y"'),
            lambda: parse_dict_header('a="b, c", d=e, f'),
            lambda: parse_list_header('"a, b", c'),
            lambda: dump_options_header('a', {'b': 'c d', 'e': None})]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
