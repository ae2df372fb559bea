"""Lines and chunks do not depend on how the data is cut into pieces.

Outside the bounds: longer data, separators of more than 3 characters.
"""
import os
import shutil
import tempfile

from verktyg.http import FileStorage
from verktyg.wsgi import (
    make_line_iter, make_chunk_iter, FileWrapper, wrap_file, LimitedStream,
)

TEXT = ['a', '\r', '\n', '\x0b', '\x1c', '\x85', '\u2028']
BYTES = b'a\r\n\x0b\x85'


class Stream(object):
    def __init__(self, data, most=None):
        self.data = data
        self.pos = 0
        self.closed = 0

    def read(self, size=-1):
        end = len(self.data) if size is None or size < 0 else self.pos + size
        rv = self.data[self.pos:end]
        self.pos += len(rv)
        return rv

    def readline(self, size=-1):
        rest = self.data[self.pos:]
        n = rest.find('\n' if isinstance(rest, str) else b'\n')
        return self.read(len(rest) if n < 0 else n + 1)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration()
        return line

    def close(self):
        self.closed += 1


def cut(sx, data, name='cut'):
    """data in pieces, empty ones included"""
    rv = []
    last = 0
    for i in range(1, len(data)):
        if sx.bool('%s%d' % (name, i)):
            rv.append(data[last:i])
            last = i
            if i == 1 and sx.bool(name + '.empty'):
                rv.append(data[:0])
    rv.append(data[last:])
    return rv


def lines(data):
    """lines end with \\r, \\n or \\r\\n only"""
    rv = []
    start = 0
    i = 0
    cr, lf = ('\r', '\n') if isinstance(data, str) else (b'\r', b'\n')
    while i < len(data):
        c = data[i:i + 1]
        i += 1
        if c == cr:
            if data[i:i + 1] == lf:
                i += 1
        elif c != lf:
            continue
        rv.append(data[start:i])
        start = i
    if start < len(data):
        rv.append(data[start:])
    return rv


def split(data, sep):
    rv = []
    start = i = 0
    n = len(sep)
    while i + n <= len(data):
        if data[i:i + n] == sep:
            rv.append(data[start:i])
            i += n
            start = i
        else:
            i += 1
    rv.append(data[start:])
    return rv


def h_lines(sx):
    """text or bytes of up to 5 (thorough 6) characters in any pieces"""
    if sx.bool('bytes'):
        data = sx.data('data', sx.t(5, 6), BYTES)
    else:
        data = sx.text('data', sx.t(5, 6), TEXT)
    got = list(make_line_iter(cut(sx, data)))
    sx.check(got == lines(data), 'the lines are those of the whole data')


def h_stream_lines(sx):
    """a stream of up to 5 characters read in blocks of 1..6, limited to any
    length"""
    if sx.bool('bytes'):
        data = sx.data('data', 5, b'a\r\n')
    else:
        data = sx.text('data', 5, ['a', '\r', '\n'])
    limit = sx.choice('limit', range(6))
    sx.assume(limit <= len(data))
    src = Stream(data)
    stream = src
    if sx.bool('limited'):
        stream = LimitedStream(src, limit)
    got = list(make_line_iter(stream, limit, sx.choice('size', [1, 2, 3, 6])))
    sx.check(got == lines(data[:limit]), 'the lines of the limited data')
    sx.check(src.pos == limit, 'nothing after the limit is read')


def h_chunks(sx):
    """text or bytes of up to 5 (thorough 6) characters in any pieces,
    separators of 1..3 characters"""
    if sx.bool('bytes'):
        data = sx.data('data', sx.t(5, 6), b'ab.')
        sep = sx.choice('sepb', [b'a', b'ab', b'aa', b'.', b'aba'])
    else:
        data = sx.text('data', sx.t(5, 6), 'ab.')
        sep = sx.choice('sep', ['a', 'ab', 'aa', '.', 'aba', 'a.'])
    got = list(make_chunk_iter(cut(sx, data), sep))
    want = split(data, sep) if data else []
    sx.check(got == want, 'the chunks are those of the whole data')


def h_stream_chunks(sx):
    """a stream of up to 5 characters read in blocks of 1..6, limited to any
    length"""
    data = sx.data('data', 5, b'ab')
    limit = sx.choice('limit', range(6))
    sx.assume(limit <= len(data))
    src = Stream(data)
    sep = sx.choice('sep', [b'a', b'ab'])
    got = list(make_chunk_iter(src, sep, limit,
                               sx.choice('size', [1, 2, 3, 6])))
    sx.check(got == (split(data[:limit], sep) if limit else []),
             'the chunks of the limited data')
    sx.check(src.pos == limit, 'nothing after the limit is read')


def h_file_wrapper(sx):
    """a file of up to 5 bytes in blocks of 1..6 bytes"""
    data = sx.data('data', 5)
    src = Stream(data)
    size = sx.choice('size', range(1, 7))
    if sx.bool('direct'):
        w = FileWrapper(src, size)
    else:
        w = wrap_file({}, src, size)
    got = list(w)
    sx.check(b''.join(got) == data, 'all of the file is sent')
    for block in got[:-1]:
        sx.check(len(block) == size, 'blocks are full')
    for block in got:
        sx.check(len(block) > 0, 'blocks are not empty')
    w.close()
    sx.check(src.closed == 1, 'the file is closed')

    def server(f, n):
        return ('wrapped', f, n)
    sx.check(wrap_file({'wsgi.file_wrapper': server}, src, 7) ==
             ('wrapped', src, 7), "the server's own wrapper is used")


def h_storage(sx):
    """an uploaded file of up to 5 bytes: saved in blocks, read by line"""
    data = sx.data('data', 5)
    f = FileStorage(Stream(data), filename='x')
    if sx.bool('lines'):
        got = []
        for line in f:
            sx.check(len(got) <= len(data), 'iteration ends')
            got.append(line)
        want = [x for x in split(data, b'\n')]
        want = [x + b'\n' for x in want[:-1]] + ([want[-1]] if want[-1]
                                                 else [])
        sx.check(got == want, 'the lines of the file')
    else:
        out = []

        class Dst(object):
            def write(self, b):
                out.append(b)
        f.save(Dst(), sx.choice('size', [1, 2, 3, 6]))
        sx.check(b''.join(out) == data, 'all of the file is saved')
    f.close()
    sx.check(f.stream.closed == 1, 'the file is closed')


def h_save(sx):
    """a file of up to 3 bytes saved to a path, also over another file"""
    data = sx.choice('data', [b'', b'a', b'a\r\n', b'\x00\xff\x1a'])
    old = sx.choice('old', [None, b'', b'older content'])
    f = FileStorage(Stream(data), filename='x')
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, 'f')
        if old is not None:
            with open(path, 'wb') as dst:
                dst.write(old)
        if sx.bool('sized'):
            f.save(path, sx.choice('size', [1, 2, 6]))
        else:
            f.save(path)
        with open(path, 'rb') as dst:
            got = dst.read()
        sx.check(got == data, 'exactly the file is saved')
        sx.check(os.listdir(folder) == ['f'], 'one file')
    finally:
        shutil.rmtree(folder)


def h_kinds(sx):
    """bytes in pieces of other kinds: bytearrays and views"""
    kind = sx.choice('kind', [bytes, bytearray])
    data = sx.choice('data', [b'a', b'a\nb', b'\r\n', b'a\r', b'ab.c',
                              b'.\n.'])
    pieces = [kind(p) for p in cut(sx, data)]
    sx.check(list(make_line_iter(pieces)) == lines(data), 'lines')
    sx.check(list(make_chunk_iter(pieces, b'.')) == split(data, b'.'),
             'chunks')


def h_threads(sx):
    """two threads at once, the second at any line of the first: lines and chunks read"""
    todo = [lambda: list(make_line_iter([b'a', b'b\r', b'\nc'])),
            lambda: list(make_line_iter([b'd\n', b'e'])),
            lambda: list(make_chunk_iter([b'a-', b'b', b'c-d'], b'-')),
            lambda: list(make_chunk_iter([b'e+f'], b'+'))]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')


def h_separators(sx):
    """separators of 1 or 2 characters that have a meaning in patterns, text
    or bytes; data of up to 4 (thorough 5) characters of the separator and a
    letter, in any pieces"""
    sep = sx.choice('sep', ['..', 'a+', '.*', '|', 'a|', '(', '()', '[a', '^',
                            '$', 'a?', '\\', '\\n', '{2', '#', ' \n'])
    data = sx.text('data', sx.t(4, 5), sorted(set(sep + 'a')))
    if sx.bool('bytes'):
        data = data.encode('latin-1')
        sep = sep.encode('latin-1')
    got = list(make_chunk_iter(cut(sx, data), sep))
    want = split(data, sep) if data else []
    sx.check(got == want, 'the chunks are those of the whole data')
