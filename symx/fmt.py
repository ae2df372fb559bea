"""%-formatting, str.format and f-strings over symbolic values."""
import re
import string
import z3
from .core import E, Gap, bits, UNDEF, sb_expr
from . import values as V
from .values import (SymStr, SymBytes, SymInt, SymBool, SymFloat, SYMSET, Ch,
                     mk_str, mk_bytes, it_norm, has_sym, conc)

_PCT = re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?'
                  r'[hlL]?([a-zA-Z%])')
_PCTB = re.compile(rb'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?'
                   rb'[hlL]?([a-zA-Z%])')


def to_str(x):
    """str(x) for any value, symbolic result allowed"""
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return int_str(x, str, 'd')
    if t is SymBool:
        return 'True' if x else 'False'
    if t is V.SymFloat:
        return float_str(x)
    if t in SYMSET:
        return str(x)
    if isinstance(x, str):
        return str(x)
    f = getattr(type(x), '__str__', None)
    import types
    if type(f) is types.FunctionType:
        from .hooks import vc
        return vc(f, x)
    if isinstance(x, BaseException) and has_sym(x.args):
        if len(x.args) == 1 and not isinstance(x, KeyError):
            return to_str(x.args[0])
    return str(x)


def float_str(x):
    """repr of a decimal with at most 12 significant digits: the digits it
    was read from, without superfluous zeros"""
    if x != 0 and x < 0.0001:
        return repr(x._conc())
    items = list(x.src.items)
    dot = len(items)
    for n, it in enumerate(items):
        if type(it) is int and it == 46:
            dot = n
        elif type(it) is not int:
            b = V.it_eq(it, 46)
            if b is True or (b is not False and E.decide(b)):
                dot = n

    def zero(it):
        b = V.it_eq(it, 48)
        return b is True or (b is not False and E.decide(b))
    i, f = items[:dot], items[dot + 1:]
    while i and zero(i[0]):
        i.pop(0)
    while f and zero(f[-1]):
        f.pop()
    return mk_str(tuple((i or [48]) + [46] + (f or [48])))


def lift1(ch, key, fn):
    """fn: int -> str, over the finite domain of one variable; forks on the
    length of the result."""
    return mk_str(V.it_multi(ch, key, lambda v: tuple(map(ord, fn(v)))))


_INTSPEC = re.compile(r'%?(0?)([0-9]*)([dixX])$')


def int_str(x, fn, key):
    """fn(int)->str applied to a SymInt"""
    if x.ch is not None:
        return lift1(x.ch, ('intfmt', key), fn)
    if key == 'd' or fn is str:
        return radix(x, 10)
    spec = key[1] if type(key) is tuple else key
    m = _INTSPEC.match(spec) if isinstance(spec, str) else None
    if m is not None:
        zero, width, c = m.groups()
        s = radix(x, 10 if c in 'di' else 16, c == 'X')
        if width:
            s = V.mk_sym(SymStr._it(s))
            s = s.zfill(int(width)) if zero else s.rjust(int(width))
        return s
    return fn(x._conc())


def radix(x, base, upper=False):
    """the digits of a z3-form SymInt"""
    def todigit(c):
        return ord(('0123456789ABCDEF' if upper
                    else '0123456789abcdef')[c])
    key = 'todigit' + ('U' if upper else '')
    if x.digits is not None and x.digits[0] == base:
        items = list(x.digits[1])
        # canonical form: drop leading zeros
        while len(items) > 1:
            b = V.it_eq(items[0], 0)
            if b is True or (b is not False and E.decide(b)):
                items.pop(0)
            else:
                break
        return mk_str(tuple(V.it_map(d, key, todigit) for d in items))
    if x < 0:
        return '-' + radix(-x, base, upper)
    n = 1
    while x >= base ** n:
        n += 1
        if n > 40:
            raise Gap('decimal too long')
    out = []
    z = z3.IntVal(0)
    vs = set(x.vs)
    for i in range(n):
        v = E.new_var('_digit', range(base))
        out.append(Ch(v, v.dom.ident))
        z = z * base + v.z
        vs.add(v)
    E.assume_true(V.SymBool(None, z == x.z, frozenset(vs)))
    return mk_str(tuple(V.it_map(d, key, todigit) for d in out))


def percent(f, args):
    isb = type(f) in (bytes, SymBytes)
    fc = conc(f)
    rx = _PCTB if isb else _PCT
    mk = mk_bytes if isb else mk_str
    out = []
    pos = 0
    if type(args) is tuple:
        seq = list(args)
    elif isinstance(args, tuple):
        seq = list(args)
    else:
        seq = [args]
    ai = 0
    mapping = args

    def nxt():
        nonlocal ai
        if ai >= len(seq):
            raise TypeError('not enough arguments for format string')
        ai += 1
        return seq[ai - 1]
    usedmap = False
    for m in rx.finditer(fc):
        lit = fc[pos:m.start()]
        if (b'%' if isb else '%') in lit:
            raise ValueError('unsupported format character')
        out.extend(lit if isb else map(ord, lit))
        pos = m.end()
        key, flags, width, prec, c = m.groups()
        if isb:
            c = c.decode()
            flags = (flags or b'').decode()
            width = width.decode() if width is not None else None
            prec = prec.decode() if prec is not None else None
        if c == '%':
            out.append(37)
            continue
        if key is not None:
            from .hooks import vget
            val = vget(mapping, key)
            usedmap = True
        else:
            if width == '*':
                width = str(conc(nxt()))
            if prec == '*':
                prec = str(conc(nxt()))
            val = nxt()
        if isb:
            if c in 'sb':
                it = SymBytes._it(val)
                if it is None:
                    raise TypeError('%b requires a bytes-like object')
                out.extend(it)
                continue
            r = ('%' + flags + (width or '') +
                 ('.' + prec if prec else '') + c) % conc(val)
            out.extend(r.encode())
            continue
        spec = '%' + flags + (width or '') + (
            '.' + prec if prec is not None else '') + c
        if c == 's':
            s = to_str(val)
            if prec is not None:
                s = s[:int(prec)]
            if width:
                s = V.mk_sym(SymStr._it(s))
                s = s.ljust(int(width)) if '-' in flags else s.rjust(
                    int(width))
            out.extend(SymStr._it(s))
        elif c in 'ra':
            out.extend(map(ord, repr(val)))
        elif c in 'dixXou':
            if type(val) is SymBool:
                val = int(bool(val))
            if type(val) is SymInt:
                if c in 'di' and spec in ('%d', '%i'):
                    s = int_str(val, str, 'd')
                else:
                    s = int_str(val, lambda v: spec % v, spec)
                out.extend(SymStr._it(s))
            elif type(val) in (SymStr, SymBytes):
                raise TypeError('%%%s format: a real number is required, '
                                'not %s' % (c, V.type_of(val).__name__))
            else:
                out.extend(map(ord, spec % conc(val)))
        elif c == 'c' and type(val) is SymStr:
            out.extend(val.items)
        else:
            out.extend(map(ord, spec % conc(val)))
    lit = fc[pos:]
    out.extend(lit if isb else map(ord, lit))
    if not usedmap and ai < len(seq) and not (
            len(seq) == 1 and not isinstance(args, (tuple, str)) and
            hasattr(type(args), '__getitem__')):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return mk(tuple(out))


_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([_,])?'
                   r'(?:\.(\d+))?([a-zA-Z%])?$', re.S)


def format_value(val, spec):
    """format(val, spec) with symbolic values"""
    t = type(val)
    if t not in SYMSET:
        if isinstance(val, BaseException):
            return to_str(val)
        f = getattr(type(val), '__format__', None)
        if spec == '' and f is object.__format__:
            return to_str(val)
        return format(val, conc(spec))
    spec = conc(spec)
    if spec == '':
        return to_str(val)
    m = _SPEC.match(spec)
    if m is None:
        return format(conc(val), spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if t is SymStr:
        if typ not in (None, 's'):
            raise ValueError("Unknown format code '%s' for object of type "
                             "'str'" % typ)
        s = val
        if prec is not None:
            s = s[:int(prec)]
        if width:
            s = V.mk_sym(SymStr._it(s))
            if zero and not fill:
                fill = '0'
            w = int(width)
            s = {'<': s.ljust, '>': s.rjust, '^': s.center,
                 None: s.ljust, '=': s.ljust}[align](w, fill or ' ')
        return s
    if t is SymInt and typ not in ('e', 'f', 'g', '%', 'c', 'n'):
        if spec == 'd':
            return int_str(val, str, 'd')
        return int_str(val, lambda v: format(v, spec), ('f', spec))
    return format(conc(val), spec)


def str_format(f, args, kwargs):
    fc = conc(f)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fc):
        out.extend(map(ord, lit))
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            val = args[first]
        else:
            val = kwargs[first]
        for is_attr, name in rest:
            if is_attr:
                val = getattr(val, name)
            else:
                from .hooks import vget
                val = vget(val, name)
        if conv == 's':
            val = to_str(val)
        elif conv == 'r':
            val = repr(val)
        elif conv == 'a':
            val = ascii(val)
        if spec and '{' in spec:
            spec = conc(str_format(spec, args, kwargs))
        out.extend(SymStr._it(format_value(val, spec or '')))
    return mk_str(tuple(out))


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)


def fstring(parts):
    out = []
    for p in parts:
        out.extend(SymStr._it(p))
    return mk_str(tuple(out))
