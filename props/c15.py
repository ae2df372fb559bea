"""Entity tags: quoting, lists of tags and comparisons.

Outside the bounds: longer tags, more than 3 tags in a list.
"""
from verktyg.http import (
    quote_etag, unquote_etag, parse_etags, ETags, parse_if_range_header,
    generate_etag,
    IfRange,
)
from verktyg.responses import Response

# anything that may appear in a tag
TAG = [c for c in map(chr, range(32, 127)) if c != '"'] + ['\xe9', '\t']
# anything in a header
HEADER = TAG + ['"', '\xff']
# tags that clients send without quotes
RAW = [c for c in map(chr, range(33, 127)) if c not in '",*/']


def h_quote(sx):
    """one tag of up to 4 (thorough 6) characters, weak and strong"""
    tag = sx.text('tag', sx.t(4, 6), sx.UNI)
    weak = sx.bool('weak')
    try:
        q = quote_etag(tag, weak)
    except ValueError:
        sx.check('"' in tag, 'only tags with quotes are refused')
        return
    sx.check('"' not in tag, 'tags with quotes are refused')
    sx.check(unquote_etag(q) == (tag, bool(weak)), 'unquote(quote(t)) == t')
    sx.check(q[-len(tag) - 2:] == '"' + tag + '"', 'the tag is quoted')
    sx.check(q[:-len(tag) - 2].lower() == ('w/' if weak else ''),
             'weakness is marked')


def h_response(sx):
    """a tag of up to 3 characters set on a response"""
    tag = sx.text('tag', 3, TAG)
    weak = sx.bool('weak')
    r = Response('x')
    sx.check(r.get_etag() == (None, None), 'no tag at first')
    r.set_etag('old')
    r.set_etag(tag, weak)
    sx.check(len(r.headers.getlist('etag')) == 1, 'one header')
    sx.check(r.get_etag() == (tag, bool(weak)), 'the tag is returned')
    r.add_etag()
    sx.check(r.get_etag() == (tag, bool(weak)), 'an existing tag is kept')
    r.add_etag(overwrite=True)
    etag, w = r.get_etag()
    sx.check(not w and len(etag) > 8, 'a new tag is made')


def h_generate(sx):
    """generated tags depend on the whole content and nothing else; bodies of
    up to 2 bytes in up to 2 parts over 4 byte values"""
    a = [sx.data('a%d' % i, 1, b'\x00a') for i in range(2)]
    b = [sx.data('b%d' % i, 1, b'\x00a') for i in range(2)]
    tags = []
    for body in (a, b):
        r = Response(body)
        r.add_etag()
        tags.append(r.get_etag())
    sx.check((tags[0] == tags[1]) == (a[0] + a[1] == b[0] + b[1]),
             'equal tags for equal content')


def h_parse(sx):
    """lists of up to 2 (thorough 3) tags of up to 2 characters; weak, strong
    and unquoted, any separators; any tag of up to 2 looked up"""
    strong, weak, text = [], [], []
    for i in range(sx.choice('n', range(sx.t(3, 4)))):
        kind = sx.choice('kind%d' % i, ['"', 'W/"', 'w/"', 'raw'])
        if kind == 'raw':
            t = sx.text('t%d' % i, 2, RAW, 1)
            text.append(t)
        else:
            t = sx.text('t%d' % i, sx.t(2, 1), TAG)
            text.append(kind + t + '"')
        (weak if '/' in kind else strong).append(t)
    sep = sx.choice('sep', [', ', ',', ' , ', ',,'])
    got = parse_etags(sep.join(text))
    x = sx.text('x', 2, TAG)
    s, w = x in strong, x in weak
    sx.check(bool(got) == bool(text), 'empty without tags')
    sx.check(not got.star_tag, 'no wildcard')
    sx.check(got.contains(x) == s, 'strong tags are found')
    sx.check((x in got) == s, 'strong tags are in the set')
    sx.check(got.is_weak(x) == w, 'weak tags are known as weak')
    sx.check(got.contains_weak(x) == (s or w), 'weak comparison')
    sx.check(got.contains_raw('"' + x + '"') == s, 'raw strong comparison')
    sx.check(got.contains_raw('W/"' + x + '"') == (s or w),
             'raw weak comparison')
    sx.check(got(x) == s, 'calling compares strongly')
    sx.check(got(x, include_weak=True) == (s or w), 'or weakly')
    sx.check(got.as_set() == set(strong), 'the strong set')
    sx.check(got.as_set(True) == set(strong + weak), 'the whole set')


def h_star(sx):
    """the wildcard alone or among tags matches any tag of up to 2"""
    text = sx.choice('text', ['*', '"a", *', '*, w/"b"'])
    got = parse_etags(text)
    x = sx.text('x', 2, TAG)
    sx.check(got.star_tag and bool(got), 'the wildcard is seen')
    sx.check(got.contains(x) and x in got and got.contains_weak(x),
             'everything matches')
    sx.check(got.to_header() == '*', 'serialised as wildcard')
    quoted = parse_etags('"*"')
    sx.check(not quoted.star_tag and '*' in quoted, 'a quoted star is a tag')


def h_trip(sx):
    """up to 2 strong and 1 weak tag of up to 2 characters"""
    strong = {sx.text('s%d' % i, 2, TAG)
              for i in range(sx.choice('n', range(3)))}
    weak = {sx.text('w', 2, TAG) for i in range(sx.choice('m', range(2)))}
    got = parse_etags(ETags(strong, weak).to_header())
    sx.check(got.as_set() == strong, 'strong tags survive')
    sx.check(got.as_set(True) == strong | weak, 'all tags survive')
    sx.check(set(got) == strong, 'the strong ones are iterated over')
    sx.check(bool(got) == bool(strong or weak), 'true with any tag')
    e = ETags(['s'], ['w'])
    sx.check(str(e) in ('"s", w/"w"', '"s", W/"w"'), 'as text')
    for x in (False, 0, None):
        sx.check(e('s', include_weak=x) and not e('w', include_weak=x) and
                 not e('w'), 'weak tags only when asked for')
    for x in (True, 1):
        sx.check(e('s', include_weak=x) and e('w', include_weak=x) and
                 not e('x', include_weak=x), 'all tags')
    sx.check(str(IfRange('x')) == '"x"' and str(IfRange()) == '', 'as text')
    sx.check(all(got.is_weak(w) for w in weak), 'weak tags stay weak')


def h_any(sx):
    """any header text of up to 5 (thorough 6) characters, also with line
    breaks"""
    t = sx.text('t', sx.t(5, 6), HEADER + ['\n', '\r'])
    got = parse_etags(t)
    for x in got.as_set(True):
        sx.check(isinstance(x, str), 'tags are text')


def h_if_range(sx):
    """If-Range with a tag of up to 3 characters, weak or strong"""
    tag = sx.text('tag', 3, TAG)
    got = parse_if_range_header(IfRange(tag).to_header())
    sx.check(got.etag == tag and got.date is None, 'the tag survives')
    got = parse_if_range_header('')
    sx.check(got.etag is None and got.date is None, 'no header, neither')


def h_data(sx):
    """sets asked for data (md5 is not encoded): weak tags if asked for"""
    data = sx.choice('data', [b'', b'a', b'\xff\x00'])
    tag = generate_etag(data)
    strong = sx.bool('strong')
    e = ETags([tag, 's'], ['w']) if strong else ETags(['s'], [tag])
    flag = sx.choice('flag', [None, False, True])
    kw = {} if flag is None else {'include_weak': flag}
    sx.check(e(data=data, **kw) == (strong or flag is True), 'the data')
    sx.check(e(tag, **kw) == (strong or flag is True), 'the tag')
    for bad in ({}, {'etag': tag, 'data': data}):
        try:
            e(**bad)
        except TypeError:
            continue
        sx.fail('either a tag or data')


def h_history(sx):
    """any 3 of 8 lists of tags parsed one after the other, with tags of one
    list in the others, weak or strong"""
    todo = [('"a"', 'a', ''), ('W/"a"', '', 'a'), ('"a", W/"b"', 'a', 'b'),
            ('W/"a", "b"', 'b', 'a'), ('"A"', 'A', ''), ('*', None, None),
            ('', '', ''), ('"b"', 'b', '')]
    for i in range(3):
        header, strong, weak = sx.choice('header%d' % i, todo)
        tags = parse_etags(header)
        sx.check(tags.star_tag == (strong is None), 'any tag')
        for t in 'abA':
            sx.check((t in tags) == (strong is None or t == strong),
                     'strong tags')
            sx.check(tags.contains_weak(t) == (
                strong is None or t == strong or t == weak), 'weak tags')
            sx.check(tags.is_weak(t) == (bool(weak) and t == weak), 'weak')
        if strong is not None:
            sx.check(tags.as_set() == set(strong), 'strong tags')
            both = tags.as_set(include_weak=True)
            sx.check(both == set(strong + weak), 'all tags')
            both.add('a')
            tags.as_set().add('a')
            sx.check(tags.as_set() == set(strong), 'not changed')


def h_threads(sx):
    """two threads at once, the second at any line of the first: tags parsed and written"""
    def trip(text):
        t = parse_etags(text)
        return sorted(t.as_set(True)), t.contains_weak('a'), 'a' in t
    todo = [lambda: trip('"a", W/"b"'), lambda: trip('W/"a"'),
            lambda: trip('*'), lambda: quote_etag('a', True),
            lambda: unquote_etag('W/"c"')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
