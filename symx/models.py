"""Models of C-level or hot standard library functions.

Only the standard library is modelled, never the code under test.
"""
import binascii
import io
import posix
import time
import unicodedata

from . import core, hooks, instrument, values as V
from .core import E
from .hooks import PYFUNCS, BUILTINS, _dec
from .values import (SymBytes, SymStr, SymByteArray, Ch, mk_str, mk_bytes,
                     it_in, it_map, SYMSET, conc, has_sym)

_ALWAYS = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
                    b'abcdefghijklmnopqrstuvwxyz'
                    b'0123456789_.-~')


def quote_from_bytes(bs, safe='/'):
    import urllib.parse
    if not has_sym(bs) and not has_sym(safe):
        return urllib.parse.quote_from_bytes(
            bytes(bs) if type(bs) is SymByteArray else bs, safe)
    if not isinstance(bs, (bytes, bytearray)):
        raise TypeError('quote_from_bytes() expected bytes')
    safe = conc(safe)
    if isinstance(safe, str):
        safe = safe.encode('ascii', 'ignore')
    ok = _ALWAYS | frozenset(c for c in safe if c < 128)
    out = []
    for it in SymBytes._it(bs):
        if _dec(it_in(it, ok)):
            out.append(it)
        else:
            out.append(37)
            out.append(it_map(it, 'H0', lambda c: ord('%02X'[0:0] or
                                                      ('%02X' % c)[0])))
            out.append(it_map(it, 'H1', lambda c: ord(('%02X' % c)[1])))
    return mk_str(tuple(out))


class SymTime(tuple):
    """time.struct_time with symbolic fields"""
    _names = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
              'tm_wday', 'tm_yday', 'tm_isdst')

    def __getattr__(self, name):
        try:
            return self[SymTime._names.index(name)]
        except ValueError:
            raise AttributeError(name)


def struct_time(seq):
    if has_sym(seq):
        return SymTime(seq)
    return time.struct_time(seq)


def gmtime(*a):
    if a and type(a[0]) is V.SymInt:
        dt = instrument.load('_pydatetime')
        days = a[0] // 86400
        secs = a[0] - days * 86400
        y, m, d = dt._ord2ymd(days + 719163)
        return struct_time((y, m, d, secs // 3600, secs % 3600 // 60,
                            secs % 60, (days + 3) % 7,
                            dt._days_before_month(y, m) + d, 0))
    return time.gmtime(*a)


def _ccc(it):
    """non-zero combining classes of an item"""
    if type(it) is not Ch:
        vals = (it,)
    else:
        vals = it.tab.vals
    return {c for c in (unicodedata.combining(chr(v)) for v in vals
                        if v is not V.UNDEF and 0 <= v < 0x110000) if c}


def normalize(form, s):
    if type(s) is not SymStr and type(form) is not SymStr:
        return unicodedata.normalize(form, s)
    form = conc(form)
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    if all(_dec(V.it_pred(it, 'lt128', lambda c: c < 128))
           if form in ('NFC', 'NFKC') else False for it in s.items):
        return s
    if form in ('NFD', 'NFKD'):
        out = []
        for it in s.items:
            out.extend(V.it_multi(
                it, form,
                lambda c: map(ord, unicodedata.normalize(form, chr(c)))))
        prev = ()
        for it in out:
            cur = _ccc(it)
            if cur and prev and max(prev) > min(cur):
                break
            prev = cur
        else:
            return mk_str(tuple(out))
    return unicodedata.normalize(form, conc(s))


_B64 = (b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
        b'0123456789+/')
_B64VAL = {c: i for i, c in enumerate(_B64)}


def _combine(parts, codes, index):
    """An item with the value codes[sum of the parts].

    Two symbolic parts give a fresh variable that the solver ties to them.
    """
    n = 0
    syms = []
    for p in parts:
        if type(p) is Ch:
            syms.append(p)
        else:
            n += p
    if not syms:
        return codes[n]
    if len(syms) == 1:
        return it_map(syms[0], ('comb', n, codes), lambda v: codes[v + n])
    if syms[0].var is syms[1].var:
        dom = syms[0].tab.dom
        return V.it_norm(Ch(syms[0].var, dom.tab(tuple(
            V.UNDEF if a == V.UNDEF or b == V.UNDEF else codes[a + b + n]
            for a, b in zip(syms[0].tab.vals, syms[1].tab.vals)))))
    v = E.new_var('#aux', tuple(sorted(codes)))
    aux = Ch(v, v.dom.ident)
    val = it_map(aux, ('index', codes), lambda c: index[c])
    E.assume_true(core.sb_expr(
        V.it_z(val) == V.it_z(syms[0]) + V.it_z(syms[1]) + n,
        (v, syms[0].var, syms[1].var)))
    return aux


_BYTES = bytes(range(256))
_BYTEVAL = {i: i for i in range(256)}


def _ident(it):
    return (it.var.i, it.tab) if type(it) is Ch else it


def b2a_base64(data, *, newline=True):
    if not has_sym(data):
        return binascii.b2a_base64(data, newline=newline)
    items = SymBytes._it(data)
    out = []
    for i in range(0, len(items), 3):
        src = items[i:i + 3]
        a, b, c = (src + (0, 0))[:3]
        quad = (
            it_map(a, 'b64.0', lambda v: _B64[v >> 2]),
            _combine((it_map(a, 'b64.1h', lambda v: (v & 3) << 4),
                      it_map(b, 'b64.1l', lambda v: v >> 4)), _B64, _B64VAL),
            _combine((it_map(b, 'b64.2h', lambda v: (v & 15) << 2),
                      it_map(c, 'b64.2l', lambda v: v >> 6)), _B64, _B64VAL),
            it_map(c, 'b64.3', lambda v: _B64[v & 63]),
        )[:len(src) + 1]
        E.prov[('b64', tuple(map(_ident, quad)))] = src
        out.extend(quad)
        out.extend([61] * (3 - len(src)))
    if newline:
        out.append(10)
    return mk_bytes(tuple(out))


def a2b_base64(data, *, strict_mode=False):
    if not has_sym(data) or strict_mode:
        return binascii.a2b_base64(conc(data), strict_mode=strict_mode)
    if type(data) is SymStr:
        data = data.encode('ascii')
    out = []
    quad = []
    pads = 0

    def flush():
        if len(quad) < 2:
            return
        src = E.prov.get(('b64', tuple(map(_ident, quad))))
        if src is None:
            v = [it_map(q, 'b64val', lambda c: _B64VAL[c]
                        if c in _B64VAL else V.UNDEF) for q in quad]
            src = [_combine((it_map(v[0], 'b64d.0h', lambda x: x << 2),
                             it_map(v[1], 'b64d.0l', lambda x: x >> 4)),
                            _BYTES, _BYTEVAL)]
            if len(v) > 2:
                src.append(_combine(
                    (it_map(v[1], 'b64d.1h', lambda x: (x & 15) << 4),
                     it_map(v[2], 'b64d.1l', lambda x: x >> 2)),
                    _BYTES, _BYTEVAL))
            if len(v) > 3:
                src.append(_combine(
                    (it_map(v[2], 'b64d.2h', lambda x: (x & 3) << 6), v[3]),
                    _BYTES, _BYTEVAL))
        out.extend(src)
        del quad[:]

    for it in SymBytes._it(data):
        if _dec(it_in(it, frozenset((61,)))):
            pads += 1 if len(quad) >= 2 else 0
            if len(quad) >= 2 and len(quad) + pads >= 4:
                flush()
                return mk_bytes(tuple(out))
            continue
        if not _dec(it_in(it, frozenset(_B64))):
            continue
        pads = 0
        quad.append(it)
        if len(quad) == 4:
            flush()
    if len(quad) == 1:
        raise binascii.Error('Invalid base64-encoded string')
    if quad:
        raise binascii.Error('Incorrect padding')
    return mk_bytes(tuple(out))


BUILTINS[binascii.b2a_base64] = b2a_base64
BUILTINS[binascii.a2b_base64] = a2b_base64


def path_normpath(path):
    if type(path) is not SymStr:
        return posix._path_normpath(path)
    start = ''
    if path.startswith('/'):
        start = '/'
        if path.startswith('//') and not path.startswith('///'):
            start = '//'
    out = []
    for part in path.split('/'):
        if part == '' or part == '.':
            continue
        if part != '..' or (not start and not out) or (
                out and out[-1] == '..'):
            out.append(part)
        elif out:
            out.pop()
    rv = start
    for i, part in enumerate(out):
        rv = rv + ('/' if i else '') + part
    return rv


if hasattr(posix, '_path_normpath'):
    BUILTINS[posix._path_normpath] = path_normpath
hooks.TYPES[time.struct_time] = struct_time
BUILTINS[unicodedata.normalize] = normalize
BUILTINS[time.gmtime] = gmtime


class SymBytesIO(io.BytesIO):
    """a BytesIO which can hold symbolic bytes"""

    def __init__(self, initial_bytes=b''):
        io.BytesIO.__init__(self)
        self._buf = b''
        self._pos = 0
        if initial_bytes is not None:
            if type(initial_bytes) is not SymBytes:
                initial_bytes = bytes(initial_bytes)
            self._buf = initial_bytes

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, size=-1):
        self._open()
        size = conc(size)
        n = len(self._buf)
        if size is None or size < 0:
            end = n
        else:
            end = min(n, self._pos + size)
        rv = self._buf[self._pos:end]
        self._pos = max(self._pos, end)
        return rv

    read1 = read

    def readline(self, size=-1):
        self._open()
        size = conc(size)
        rest = self._buf[self._pos:]
        i = rest.find(b'\n')
        n = len(rest) if i < 0 else i + 1
        if size is not None and 0 <= size < n:
            n = size
        self._pos += n
        return rest[:n]

    def readlines(self, hint=-1):
        hint = conc(hint)
        out = []
        total = 0
        while 1:
            line = self.readline()
            if not line:
                return out
            out.append(line)
            total += len(line)
            if hint is not None and 0 < hint <= total:
                return out

    def __iter__(self):
        self._open()
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def write(self, data):
        self._open()
        if type(data) is not SymBytes:
            if isinstance(data, str) or type(data) is SymStr:
                raise TypeError("a bytes-like object is required, not 'str'")
            data = bytes(data)
        n = len(data)
        if n:
            buf = self._buf
            if self._pos > len(buf):
                buf = buf + bytes(self._pos - len(buf))
            self._buf = buf[:self._pos] + data + buf[self._pos + n:]
            self._pos += n
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def tell(self):
        self._open()
        return self._pos

    def seek(self, pos, whence=0):
        self._open()
        pos = conc(pos)
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value %r' % pos)
        elif whence == 1:
            pos += self._pos
        else:
            pos += len(self._buf)
        self._pos = max(0, pos)
        return self._pos

    def truncate(self, size=None):
        self._open()
        size = self._pos if size is None else conc(size)
        self._buf = self._buf[:size]
        return size

    def getvalue(self):
        self._open()
        return self._buf


hooks.TYPES[io.BytesIO] = SymBytesIO

PATCHES = {'urllib.parse': {'quote_from_bytes': quote_from_bytes}}


def install():
    for name, d in PATCHES.items():
        m = instrument.INST.get(name)
        if m is not None:
            m.__dict__.update(d)
