"""Limited streams and request bodies: exactly the body, never more.

The server's input stream is the harness's `Source`, which records what is
read from it; it never returns less than it is asked for unless it ends.
Outside the bounds: longer bodies, more operations, servers which return
short reads in the middle of the body.
"""
from io import BytesIO

from verktyg.exceptions import ClientDisconnected
from verktyg.requests import Request
from verktyg.wsgi import LimitedStream, get_input_stream, get_content_length

BYTES = b'a\n\x00\xff'


class Source(object):
    """a connection: the body is followed by the next request"""

    def __init__(self, sx, data):
        self.sx = sx
        self.data = data
        self.pos = 0

    def read(self, size=-1):
        self.sx.check(size is not None and size >= 0,
                      'the connection is never read without a limit')
        rv = self.data[self.pos:self.pos + size]
        self.pos += len(rv)
        return rv

    def readline(self, size=-1):
        self.sx.check(size is not None and size >= 0,
                      'the connection is never read without a limit')
        rv = self.data[self.pos:self.pos + size]
        end = rv.find(b'\n')
        if end >= 0:
            rv = rv[:end + 1]
        self.pos += len(rv)
        return rv


def size_of(sx, name, most):
    kind = sx.choice(name + '.kind', ['none', 'size', 'default'])
    if kind == 'size':
        return (sx.int(name, -3, most + 2),)
    return (None,) if kind == 'none' else ()


def line_end(data, pos, limit):
    """position after the line that starts at pos"""
    while pos < limit:
        pos += 1
        if data[pos - 1:pos] == b'\n':
            break
    return pos


def apply(sx, s, data, limit, pos, i, size):
    """one operation on s; returns the new position"""
    op = sx.choice('op%d' % i, ['read', 'readline', 'readlines', 'next'])
    neg = not size or size[0] is None or size[0] < 0
    if op == 'read':
        got = s.read(*size)
        end = limit if neg else min(limit, pos + size[0])
    elif op == 'readline':
        got = s.readline(*size)
        end = line_end(data, pos, limit)
        if not neg:
            end = min(end, pos + size[0])
    elif op == 'next':
        end = line_end(data, pos, limit)
        try:
            got = next(s)
        except StopIteration:
            got = b''
            sx.check(pos == limit, 'iteration ends with the body')
    else:
        lines = s.readlines(*size)
        got = b''.join(lines)
        end = pos + len(got)
        at = pos
        for n, line in enumerate(lines):
            nxt = line_end(data, at, limit)
            sx.check(len(line) > 0, 'lines are not empty')
            if neg or n < len(lines) - 1:
                sx.check(at + len(line) == nxt or not neg,
                         'lines end where they should')
            sx.check(at + len(line) <= nxt, 'a line is not more than a line')
            at += len(line)
        if neg:
            sx.check(end == limit, 'all lines are read')
        elif size[0] > 0:
            sx.check(pos == limit or end > pos, 'some lines are read')
    sx.check(got == data[pos:end], 'exactly the next bytes are read')
    return end


def h_operations(sx):
    """two operations with any sizes of -3..6 on a body of up to 4 bytes,
    followed by two bytes which do not belong to it"""
    limit = sx.choice('limit', range(5))
    data = sx.bytes('data', limit, BYTES) + b'\nX'
    src = Source(sx, data)
    s = LimitedStream(src, limit)
    pos = 0
    for i in range(2):
        pos = apply(sx, s, data, limit, pos, i, size_of(sx, 's%d' % i, 4))
        sx.check(src.pos == pos and s.tell() == pos,
                 'nothing after the body is consumed')
        sx.check(s.is_exhausted == (pos == limit), 'the end is noticed')
    sx.check(s.read() == data[pos:limit], 'the rest is read')
    sx.check(src.pos == limit and s.is_exhausted, 'the body is consumed')
    sx.check(s.read() == b'' and s.read(3) == b'' and s.readline() == b''
             and s.readlines() == [] and list(s) == [],
             'nothing follows the body')
    sx.check(src.pos == limit, 'nothing after the body is consumed')


def h_long(sx):
    """reads of any size within bodies of any length below 10^6; the
    connection only counts"""
    limit = sx.int('limit', 0, 10 ** 6)
    asked = []

    class Counter(object):
        def read(self, size):
            asked.append(size)
            return Chunk(size)

        readline = read

    class Chunk(object):
        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n

        def __bool__(self):
            return True if self.n > 0 else False
    s = LimitedStream(Counter(), limit)
    total = 0
    for i in range(3):
        n = sx.int('n%d' % i, -10, 10 ** 6)
        line = sx.bool('line%d' % i)
        got = (s.readline if line else s.read)(n)
        want = limit - total if n < 0 else n
        left = limit - total
        if want > left:
            want = left
        sx.check(got.n == want, 'as much as asked for and available is read')
        sx.check(asked[-1] == want, 'the connection is asked for as much')
        total = total + want
        sx.check(s.tell() == total, 'the position is kept')
        sx.check(s.is_exhausted == (total >= limit), 'the end is noticed')


def h_exhaust(sx):
    """the rest of a body of up to 5 bytes is skipped in chunks of 1..6
    bytes"""
    limit = sx.choice('limit', range(6))
    first = sx.choice('first', range(6))
    src = Source(sx, b'abcdefgh')
    s = LimitedStream(src, limit)
    s.read(first)
    s.exhaust(sx.int('chunk', 1, 6))
    sx.check(src.pos == limit and s.is_exhausted,
             'all of the body and nothing else is skipped')


def h_disconnect(sx):
    """the connection ends after up to 3 of 4 bytes, or fails"""
    have = sx.choice('have', range(4))
    fails = sx.bool('fails')
    data = sx.bytes('data', have, BYTES)

    class Broken(Source):
        def read(self, size=-1):
            if fails and self.pos + size > have:
                raise sx_choice('reset')
            return Source.read(self, size)

        def readline(self, size=-1):
            rv = Source.readline(self, size)
            if fails and not rv:
                raise sx_choice('reset')
            return rv
    kind = sx.choice('error', [IOError, ValueError])

    def sx_choice(msg):
        return kind(msg)
    src = Broken(sx, data)
    s = LimitedStream(src, 4)
    sx.check(s.tell() == 0, 'at the start')
    op = sx.choice('op', ['read', 'size', 'readline', 'lines', 'exhaust',
                          'iterate'])
    got = b''
    try:
        if op == 'read':
            got = s.read()
        elif op == 'size':
            got = s.read(4)
        elif op == 'exhaust':
            got = s.exhaust(3)
        elif op == 'lines':
            got = s.readlines()
        elif op == 'iterate':
            got = list(s)
        else:
            while True:
                got += s.readline()
    except ClientDisconnected:
        sx.reach('the disconnect is reported')
        if op in ('read', 'size', 'readline'):
            sx.check(s.tell() == len(got), 'the position is that of what was '
                     'read before')
            try:
                s.read(4)
                sx.fail('and again')
            except ClientDisconnected:
                pass
        return
    sx.fail('a body that is cut off is reported')


def h_input(sx):
    """content length of up to 3 characters, terminated input, fallback"""
    t = sx.text('t', 3, [chr(i) for i in range(32, 127)])
    env = {'wsgi.input': Source(sx, b'ab\ncdefghijklmnopqrstuvwxyz' * 50)}
    kind = sx.choice('kind', ['length', 'missing', 'terminated', 'unsafe'])
    if kind != 'missing':
        env['CONTENT_LENGTH'] = t
    if kind == 'terminated':
        env['wsgi.input_terminated'] = True
    n = None
    body = t.strip()
    sign = 1
    if body[:1] in ('-', '+'):
        sign = -1 if body[0] == '-' else 1
        body = body[1:]
    if body and kind != 'missing':
        n = 0
        for c in body:
            if not '0' <= c <= '9':
                n = None
                break
            n = n * 10 + ord(c) - 48
    # python's own syntax for numbers is accepted as well
    sx.assume('_' not in t)
    if n is not None and sign < 0:
        n = 0
    sx.check(get_content_length(env) == n, 'the length is read')
    if kind == 'unsafe':
        stream = get_input_stream(env, safe_fallback=False)
    else:
        stream = get_input_stream(env)
    if kind == 'terminated' or (kind == 'unsafe' and n is None):
        sx.check(stream is env['wsgi.input'], 'passed through')
    elif n is None:
        sx.check(stream.read() == b'', 'without a length there is no body')
    else:
        sx.check(stream.limit == n, 'limited to the length')


def h_request(sx):
    """the body of a request of up to 3 bytes, read as data, as text, from
    the stream or several of them"""
    n = sx.choice('n', range(4))
    data = sx.bytes('data', n, b'a\n\xc3\xa9')
    src = Source(sx, data + b'NEXT')
    env = {'wsgi.input': src, 'CONTENT_LENGTH': str(n),
           'REQUEST_METHOD': 'POST'}
    req = Request(env)
    how = sx.choice('how', ['data', 'twice', 'text', 'stream', 'uncached'])
    if how == 'data':
        got = req.get_data()
    elif how == 'twice':
        got = req.get_data()
        sx.check(req.get_data() == got, 'the body can be read again')
        sx.check(req.get_data(cache=False) == got, 'from the cache')
    elif how == 'text':
        sx.check(req.get_data(as_text=True) ==
                 data.decode('utf-8', 'replace'), 'the body as text')
        got = req.get_data()
    elif how == 'stream':
        got = req.stream.read(1) + req.stream.read()
    else:
        got = req.get_data(cache=False)
    sx.check(got == data, 'the body is read')
    sx.check(src.pos == n, 'nothing after the body is consumed')
    sx.check(req.content_length == n, 'the length is known')


def h_terminated(sx):
    """a body of up to 3 bytes of which the server marks the end: nothing is
    read after the end was seen"""
    n = sx.choice('n', range(4))
    data = sx.bytes('data', n, b'a\n\xc3')
    env = {'wsgi.input_terminated': True, 'REQUEST_METHOD': 'POST'}
    length = sx.choice('length', [None, '0', '1', '9'])
    if length is not None:
        env['CONTENT_LENGTH'] = length

    class Once(object):
        reads = 0

        def read(self, size=-1):
            self.reads += 1
            return data if self.reads == 1 else b'NEXT'
    env['wsgi.input'] = src = Once()
    req = Request(env)
    sx.check(req.get_data() == data, 'the whole body')
    sx.check(req.get_data() == data, 'the same again')
    sx.check(req.get_data(as_text=True) == data.decode('utf-8', 'replace'),
             'as text')
    sx.check(src.reads == 1, 'nothing after the end is read')


def h_hooks(sx):
    """what subclasses do at the end and for lost connections applies to all
    ways to read"""
    n = sx.choice('n', [0, 1, 3])
    lost = sx.bool('lost')
    ends = []

    class Hooked(LimitedStream):
        def on_exhausted(self):
            ends.append('end')
            return b'END'

        def on_disconnect(self):
            ends.append('lost')
            return b'LOST'
    src = Source(sx, b'a\na\n'[:n])
    s = Hooked(src, n + 1 if lost else n)
    if n and not lost:
        sx.check(s.read(n) == src.data, 'the body')
    if n and lost:
        sx.check(s.read(n) == src.data, 'the body')
    sx.check(ends == [], 'not yet')
    how = sx.choice('how', ['read', 'size', 'line', 'line size', 'next'])
    if how == 'read':
        got = s.read()
    elif how == 'size':
        got = s.read(1)
    elif how == 'line':
        got = s.readline()
    elif how == 'line size':
        got = s.readline(1)
    else:
        got = next(s)
    sx.check(got == (b'LOST' if lost else b'END'), 'the answer is passed on')
    sx.check(ends == (['lost'] if lost else ['end']), 'asked once')


def h_threads(sx):
    """two threads at once, the second at any line of the first: streams read"""
    def read(data, limit):
        s = LimitedStream(BytesIO(data), limit)
        return s.read(1), s.readline(), s.tell(), s.readlines(), s.is_exhausted

    todo = [lambda: read(b'ab\ncd', 4), lambda: read(b'ef\n\ng', 5)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
