"""Uploaded files are what was uploaded.

The stream is a stand-in in memory which records where it is and whether it
was closed; the file system is one, too (the module's ``open``).
Outside the bounds: longer contents, errors of the file system, streams
which are false.
"""
from verktyg.http import FileStorage, Headers
from verktyg.http import basic

NAME = ['a', '.', '/', '<', '>', '\xe4', '\x00', ' ']


class Stream(object):
    def __init__(self, data, pos=0, most=None):
        self.data = data
        self.pos = pos
        self.most = most
        self.closed = 0
        self.reads = []

    def read(self, size=-1):
        sized = size is not None and size >= 0
        if sized and self.most is not None:
            size = min(size, self.most)
        end = self.pos + size if sized else len(self.data)
        rv = self.data[self.pos:end]
        self.pos += len(rv)
        self.reads.append(len(rv))
        return rv

    def seek(self, pos, whence=0):
        self.pos = [0, self.pos, len(self.data)][whence] + pos
        return self.pos

    def tell(self):
        return self.pos

    def __iter__(self):
        return iter(['line 1', 'line 2'])

    def close(self):
        self.closed += 1


class Target(object):
    def __init__(self, fail=None):
        self.parts = []
        self.closed = 0
        self.fail = fail

    def write(self, data):
        assert not self.closed
        if self.fail is not None and len(self.parts) >= self.fail:
            raise OSError('full')
        self.parts.append(data)
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Disk(object):
    def __init__(self, fail=None):
        self.opened = []
        self.fail = fail

    def __enter__(self):
        basic.open = self.open
        return self

    def __exit__(self, *exc):
        del basic.open

    def open(self, path, mode='r', *a, **kw):
        rv = Target(self.fail)
        self.opened.append((path, mode, rv))
        return rv


def h_save(sx):
    """any content of up to 5 bytes, read up to any place, saved to a file
    or path with any buffer"""
    data = sx.data('data', sx.t(4, 5))
    start = sx.choice('start', range(6))
    sx.assume(start <= len(data))
    how = sx.choice('at', ['read', 'there'])
    src = Stream(data, 0 if how == 'read' else start,
                 sx.choice('most', [None, 1]))
    f = FileStorage(src, sx.choice('name', [None, '', 'n']))
    if how == 'read':
        got = b''
        while len(got) < start:
            got += f.read(start - len(got))
        sx.check(got == data[:start], 'what is read')
    sized = sx.choice('size', [None, 1, 2, 7])
    args = () if sized is None else (sized,)
    if sx.bool('path'):
        path = sx.choice('to', ['/t/x', 'x', '/t/\xe4'])
        with Disk() as disk:
            f.save(path, *args)
        sx.check(len(disk.opened) == 1, 'one file is opened')
        name, mode, out = disk.opened[0]
        sx.check(name == path and mode == 'wb', 'the one for the path')
        sx.check(out.closed >= 1, 'and closed')
    else:
        out = Target()
        with Disk() as disk:
            f.save(out, *args)
        sx.check(not disk.opened, 'no other file is opened')
        sx.check(out.closed == 0, 'files of the caller stay open')
    sx.check(b''.join(out.parts) == data[start:], 'the remaining content')
    if sized is not None:
        for n in src.reads:
            sx.check(n <= max(sized, start), 'in blocks')
    sx.check(src.closed == 0, 'the upload stays open')
    sx.check(f.read() == b'', 'all of it was read')
    if sx.bool('again'):
        f.seek(0)
        sx.check(f.tell() == 0 and f.read() == data, 'and can be read again')
        f.seek(0)
        out = Target()
        f.save(out)
        sx.check(b''.join(out.parts) == data, 'and saved again')


def h_full(sx):
    """errors while saving are reported, and leave nothing open"""
    data = sx.bytes('data', 4)
    fail = sx.choice('fail', [0, 1, 2])
    f = FileStorage(Stream(data), 'n')
    path = sx.bool('path')
    out = Target(fail)
    with Disk(fail) as disk:
        try:
            f.save('/t/x' if path else out, sx.choice('size', [1, 2]))
        except OSError:
            pass
        else:
            sx.check(len((disk.opened[0][2] if path else out).parts) <= fail,
                     'the error is reported')
            sx.check(b''.join((disk.opened[0][2] if path else out).parts) ==
                     data, 'or all was written')
    if path:
        sx.check(disk.opened[0][2].closed >= 1, 'the file is closed')
    else:
        sx.check(out.closed == 0, 'files of the caller stay open')


def h_name(sx):
    """names of up to 3 characters, given or of the stream"""
    name = sx.text('name', sx.t(3, 4), NAME)
    field = sx.choice('field', [None, '', 'f'])
    kind = sx.choice('kind', ['given', 'stream', 'bytes', 'number', 'none',
                              'both'])
    src = Stream(b'abc')
    hidden = name[:1] == '<' and name[-1:] == '>'
    if kind == 'given':
        f = FileStorage(src, name, field)
        want = name
    elif kind == 'both':
        src.name = '<other>'
        f = FileStorage(src, filename=name, name=field)
        want = name
    elif kind == 'stream':
        src.name = name
        f = FileStorage(src, name=field)
        want = None if hidden else name
    elif kind == 'bytes':
        src.name = name.encode('utf-8')
        f = FileStorage(src, name=field)
        want = None if hidden else name
    elif kind == 'number':
        src.name = None
        f = FileStorage(src, name=field)
        want = None
    else:
        f = FileStorage(src, None, field)
        want = None
    sx.check(f.filename == want, 'the name of the file')
    sx.check(f.name == field, 'the name of the field')
    sx.check(bool(f) == bool(want), 'true when it has a name')
    sx.check(f.stream is src, 'the stream is kept')
    sx.check(list(f) == ['line 1', 'line 2'], 'iterated like the stream')
    sx.check(f.read() == b'abc', 'read like the stream')
    f.extra = 1
    sx.check(not hasattr(src, 'extra'), 'the stream is not changed')
    src.more = 7
    sx.check(f.more == 7, 'has what the stream has')
    try:
        f.missing
    except AttributeError:
        pass
    else:
        sx.fail('and nothing else')
    f.close()
    sx.check(src.closed == 1, 'closed')
    empty = FileStorage(filename=name)
    sx.check(empty.read() == b'' and empty.filename == name, 'an empty file')


def h_headers(sx):
    """types of up to 2 characters, lengths, other headers"""
    v = sx.text('v', 2, ['a', 'B', '-', '1'])
    n = sx.choice('n', [None, 0, 17, 123456789012])
    own = [('X-A', 'b'), ('x-a', 'C')]
    old = sx.choice('old', [[], [('CONTENT-TYPE', 'old/Type; P=q')],
                            [('content-length', '5'), ('content-type', '')]])
    h = Headers(own + old) if old or sx.bool('with') else None
    ctype = sx.choice('type', [None, '', 'Text/h%s; x=%s', 'a/%s;y="%s"'])
    if ctype:
        ctype = ctype % (v, v)
    f = FileStorage(Stream(b''), 'n', content_type=ctype, content_length=n,
                    headers=h)
    want = ctype
    if ctype is None:
        want = None
        for k, x in old:
            if k.lower() == 'content-type':
                want = x
    sx.check(f.content_type == want, 'the type')
    sx.check(f.headers.get('content-type') == want, 'its header')
    mime = (want or '').lower().split(';')[0]
    sx.check(f.mimetype == mime, 'in lower case, without parameters')
    got = f.mimetype_params
    if not want or ';' not in want:
        sx.check(got == {}, 'no parameters')
    elif ctype is None:
        sx.check(got.get('P', got.get('p')) == 'q' and len(got) == 1,
                 'the parameter')
    else:
        k = 'x' if 'x=' in ctype else 'y'
        sx.check(len(got) == 1 and (got.get(k) or '') == v, 'the parameter')
    size = n
    if n is None:
        size = 0
        for k, x in old:
            if k == 'content-length':
                size = int(x)
    sx.check(f.content_length == size, 'the length')
    if n is not None:
        sx.check(f.headers.getlist('content-length') == [str(n)], 'header')
    if h is not None:
        sx.check(f.headers is h or f.headers == h, 'the headers given')
        sx.check(f.headers.getlist('X-A') == ['b', 'C'], 'are all kept')
        sx.check([k.lower() for k in f.headers.keys()].count('content-type')
                 <= 1, 'and one type')
    else:
        other = FileStorage(Stream(b''), 'm')
        other.headers['x-z'] = '1'
        sx.check('x-z' not in f.headers, 'headers are not shared')


def h_separate(sx):
    """files without streams are independent of each other"""
    data = sx.data('data', 3)
    a = FileStorage(filename='a')
    b = FileStorage(filename='b')
    a.write(data)
    a.seek(0)
    sx.check(a.read() == data, 'what was written')
    sx.check(b.read() == b'', 'independent')
    sx.check(a.headers is not b.headers, 'headers, too')
    a.close()
    try:
        b.write(b'x')
    except ValueError:
        sx.fail('others stay open')
    a.close()
    sx.check(a.filename == 'a' and a.content_type is None and
             a.content_length == 0 and a.mimetype == '' and
             a.mimetype_params == {}, 'without headers')


def h_badlength(sx):
    """length headers of up to 3 characters"""
    v = sx.text('v', 3, ['0', '7', '1', 'x', ',', '.', ''.join(['/'])])
    f = FileStorage(Stream(b''), 'n', headers=Headers([('content-length',
                                                        v)]))
    got = f.content_length
    digits = len(v) > 0
    for c in v:
        if c not in '0123456789':
            digits = False
    if digits:
        sx.check(got == int(v), 'the length')
    else:
        sx.check(got == 0, 'a malformed length is no length')


def h_history(sx):
    """two files made one after the other, the first of which is changed"""
    def make(i):
        kw = {}
        if sx.bool('type%d' % i):
            kw['content_type'] = 't/%d; a=%d' % (i, i)
        if sx.bool('length%d' % i):
            kw['content_length'] = i + 1
        if sx.bool('headers%d' % i):
            kw['headers'] = Headers([('X', str(i))])
        return FileStorage(Stream(b'%d' % i), **kw), kw
    a, kw = make(0)
    if sx.bool('changed'):
        a.headers['Y'] = 'z'
        a.headers['Content-Type'] = 'changed/type'
        a.mimetype_params
    b, kw = make(1)
    sx.check(b.read() == b'1', 'its own stream')
    sx.check('Y' not in b.headers, 'its own headers')
    sx.check(b.headers.get('X') == ('1' if 'headers' in kw else None),
             'its own headers')
    if 'content_type' in kw:
        sx.check(b.content_type == 't/1; a=1' and b.mimetype == 't/1',
                 'its own type')
        sx.check(b.mimetype_params == {'a': '1'}, 'its own type')
        b.mimetype_params['a'] = 'changed'
        c = FileStorage(Stream(b''), content_type='t/1; a=1')
        sx.check(c.mimetype_params == {'a': '1'}, 'its own parameters')
    else:
        sx.check(b.content_type is None, 'no type')
    sx.check(b.content_length == (2 if 'content_length' in kw else 0),
             'its own length')


def h_threads(sx):
    """two threads at once, the second at any line of the first: files"""
    def make(n):
        f = FileStorage(Stream(b'%d' % n), content_type='t/%d; a=%d' % (n, n),
                        content_length=n)
        return f.read(), f.content_length, f.mimetype, f.mimetype_params
    todo = [lambda: make(1), lambda: make(2)]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
