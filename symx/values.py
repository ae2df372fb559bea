"""Symbolic ints, strings and bytes.

A symbolic string has a concrete length; each item is either an int (code
point / byte) or a ``Ch``: a finite-domain variable seen through a table, so
that any function of one character (lower(), isdigit(), its UTF-8 bytes, its
hex digits ...) is represented exactly.
"""
import z3
from . import core
from .core import (E, SymBool, Gap, sb_mask, sb_and, sb_or, sb_not, sb_expr,
                   Tab, UNDEF, bits)


class Ch(object):
    __slots__ = ('var', 'tab')

    def __init__(self, var, tab):
        self.var = var
        self.tab = tab


def it_norm(it):
    """collapse an item that the path condition has made constant."""
    if type(it) is Ch:
        m = E.masks[it.var.i]
        if m & (m - 1) == 0:
            return it.tab.vals[m.bit_length() - 1]
    return it


def it_mask(it, mask):
    return sb_mask(it.var, mask)


def it_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is not Ch:
        if tb is not Ch:
            return a == b
        a, b = b, a
        tb = ta
    if tb is not Ch:
        return sb_mask(a.var, a.tab.inv.get(b, 0))
    if a.var is b.var:
        if a.tab is b.tab:
            return True
        m = 0
        for v, vm in a.tab.inv.items():
            m |= vm & b.tab.inv.get(v, 0)
        return sb_mask(a.var, m)
    ma, mb = E.masks[a.var.i], E.masks[b.var.i]
    if ma & (ma - 1) == 0:
        return sb_mask(b.var, b.tab.inv.get(
            a.tab.vals[ma.bit_length() - 1], 0))
    if mb & (mb - 1) == 0:
        return sb_mask(a.var, a.tab.inv.get(
            b.tab.vals[mb.bit_length() - 1], 0))
    av, bv = a.var, b.var
    if a.tab is a.tab.dom.ident and b.tab is b.tab.dom.ident:
        if not any(vm & ma and b.tab.inv.get(v, 0) & mb
                   for v, vm in a.tab.inv.items()):
            return False
        return SymBool(None, av.z == bv.z, frozenset((av, bv)))
    parts = []
    ident = 0       # positions where both tables are the identity
    for v, vm in a.tab.inv.items():
        x = vm & ma
        if not x:
            continue
        y = b.tab.inv.get(v, 0) & mb
        if not y:
            continue
        parts.append(z3.And(av.dom.mask_expr(av.z, x),
                            bv.dom.mask_expr(bv.z, y)))
    if not parts:
        return False
    e = parts[0] if len(parts) == 1 else z3.Or(*parts)
    return SymBool(None, e, frozenset((av, bv)))


def it_in(it, codes, key=None):
    """membership of an item in a set of ints -> bool/SymBool"""
    if type(it) is not Ch:
        return it in codes
    if key is None:
        m = 0
        inv = it.tab.inv
        if len(codes) < len(inv):
            for c in codes:
                m |= inv.get(c, 0)
        else:
            for v, vm in inv.items():
                if v in codes:
                    m |= vm
    else:
        m = it.tab.pmask(key, lambda v: v in codes)
    return sb_mask(it.var, m)


def it_pred(it, key, fn):
    if type(it) is not Ch:
        return bool(fn(it))
    return sb_mask(it.var, it.tab.pmask(key, fn))


def it_map(it, key, fn):
    if type(it) is not Ch:
        return fn(it)
    return it_norm(Ch(it.var, it.tab.map(key, fn)))


def it_multi(it, key, fn):
    """fn: int -> tuple of ints (or raises).  Forks on the result length."""
    if type(it) is not Ch:
        return tuple(fn(it))
    tab = it.tab
    groups = tab.derived.get(('multi', key))
    if groups is None:
        groups = {}
        for i, v in enumerate(tab.vals):
            if v == UNDEF:
                continue
            try:
                r = tuple(fn(v))
                k = len(r)
            except UnicodeError as e:
                r = e
                k = 'err'
            groups.setdefault(k, {})[i] = r
        out = []
        for k, d in groups.items():
            m = 0
            for i in d:
                m |= 1 << i
            if k == 'err':
                out.append((m, None, next(iter(d.values()))))
            else:
                tabs = []
                for p in range(k):
                    # values outside the mask are irrelevant on this branch
                    tabs.append(tab.dom.tab(tuple(
                        d[i][p] if i in d else UNDEF
                        for i in range(tab.dom.n))))
                out.append((m, tabs, None))
        groups = tab.derived[('multi', key)] = out
    n = len(groups)
    for gi, (m, tabs, err) in enumerate(groups):
        if gi == n - 1:
            b = sb_mask(it.var, m)
            if b is False:
                raise core.PathAbort()
        else:
            b = sb_mask(it.var, m)
        if b is True or (b is not False and E.decide(b)):
            if err is not None:
                raise err
            return tuple(it_norm(Ch(it.var, t)) for t in tabs)
    raise core.PathAbort()


def it_lt(a, b):
    if type(a) is not Ch and type(b) is not Ch:
        return a < b
    if type(b) is not Ch:
        return it_pred(a, ('lt', b), lambda v: v < b)
    if type(a) is not Ch:
        return it_pred(b, ('gt', a), lambda v: v > a)
    if a.var is b.var:
        m = 0
        for i in range(a.tab.dom.n):
            if a.tab.vals[i] < b.tab.vals[i]:
                m |= 1 << i
        return sb_mask(a.var, m)
    return sb_expr(it_z(a) < it_z(b), (a.var, b.var))


def tab_z(var, tab, mask):
    if tab is tab.dom.ident:
        return var.z
    groups = {}
    for i in bits(mask):
        groups.setdefault(tab.vals[i] - tab.dom.vals[i], 0)
        groups[tab.vals[i] - tab.dom.vals[i]] |= 1 << i
    byval = {}
    for i in bits(mask):
        byval[tab.vals[i]] = byval.get(tab.vals[i], 0) | 1 << i
    if len(byval) <= len(groups):
        items = [(z3.IntVal(v), m) for v, m in byval.items()]
    else:
        items = [(var.z + d if d else var.z, m) for d, m in groups.items()]
    e = items[-1][0]
    for x, m in reversed(items[:-1]):
        e = z3.If(var.dom.mask_expr(var.z, m), x, e)
    return e


def it_z(it):
    if type(it) is not Ch:
        return z3.IntVal(it)
    return tab_z(it.var, it.tab, E.masks[it.var.i])


def it_conc(it):
    """concrete value of an item, forking as needed."""
    if type(it) is not Ch:
        return it
    E.concretise_var(it.var)
    m = E.masks[it.var.i]
    return it.tab.vals[m.bit_length() - 1]


# ------------------------------------------------------------------ ints

class SymInt(object):
    """ch: Ch (table form) or None; z/vs: z3 form; digits: provenance"""
    __slots__ = ('ch', '_z', 'vs', 'digits')

    def __init__(self, ch=None, z=None, vs=None, digits=None):
        self.ch = ch
        self._z = z
        self.vs = vs if ch is None else frozenset((ch.var,))
        self.digits = digits

    __class__ = property(lambda self: int)

    @property
    def z(self):
        if self.ch is not None:
            return it_z(self.ch)
        return self._z

    def __hash__(self):
        return hash(self._conc())

    def _conc(self):
        if self.ch is not None:
            return it_conc(self.ch)
        return E.concretise_expr(self._z, self.vs)

    def __index__(self):
        return self._conc()

    def __int__(self):
        return self._conc()

    def __float__(self):
        return float(self._conc())

    def __bool__(self):
        return bool(int_cmp(self, 0, 'ne'))

    def __repr__(self):
        return repr(self._conc())

    def __str__(self):
        return str(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __add__(self, o):
        return int_op(self, o, '+')

    def __radd__(self, o):
        return int_op(o, self, '+')

    def __sub__(self, o):
        return int_op(self, o, '-')

    def __rsub__(self, o):
        return int_op(o, self, '-')

    def __mul__(self, o):
        return int_op(self, o, '*')

    def __rmul__(self, o):
        return int_op(o, self, '*')

    def __floordiv__(self, o):
        return int_op(self, o, '//')

    def __rfloordiv__(self, o):
        return int_op(o, self, '//')

    def __mod__(self, o):
        return int_op(self, o, '%')

    def __rmod__(self, o):
        return int_op(o, self, '%')

    def __truediv__(self, o):
        return self._conc() / o

    def __rtruediv__(self, o):
        return o / self._conc()

    def __pow__(self, o):
        return self._conc() ** o

    def __rpow__(self, o):
        return o ** self._conc()

    def __and__(self, o):
        return int_op(self, o, '&')

    def __rand__(self, o):
        return int_op(o, self, '&')

    def __or__(self, o):
        return int_op(self, o, '|')

    def __ror__(self, o):
        return int_op(o, self, '|')

    def __xor__(self, o):
        return int_op(self, o, '^')

    def __rxor__(self, o):
        return int_op(o, self, '^')

    def __lshift__(self, o):
        return int_op(self, o, '<<')

    def __rlshift__(self, o):
        return int_op(o, self, '<<')

    def __rshift__(self, o):
        return int_op(self, o, '>>')

    def __rrshift__(self, o):
        return int_op(o, self, '>>')

    def __divmod__(self, o):
        return int_op(self, o, '//'), int_op(self, o, '%')

    def __rdivmod__(self, o):
        return int_op(o, self, '//'), int_op(o, self, '%')

    def __neg__(self):
        return int_op(0, self, '-')

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return int_op(-1, self, '-')

    def __eq__(self, o):
        return int_cmp(self, o, 'eq')

    def __ne__(self, o):
        return int_cmp(self, o, 'ne')

    def __lt__(self, o):
        return int_cmp(self, o, 'lt')

    def __le__(self, o):
        return int_cmp(self, o, 'le')

    def __gt__(self, o):
        return int_cmp(self, o, 'gt')

    def __ge__(self, o):
        return int_cmp(self, o, 'ge')

    def bit_length(self):
        return self._conc().bit_length()

    def to_bytes(self, *a, **k):
        return self._conc().to_bytes(*a, **k)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


def mk_int_ch(it):
    """an item as a Python-level int value"""
    it = it_norm(it)
    if type(it) is Ch:
        return SymInt(it)
    return it


_OPS = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b,
    '*': lambda a, b: a * b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b, '&': lambda a, b: a & b,
    '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
    '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
}
_CMPS = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
}


def _asint(x):
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return int(bool(x))
    if isinstance(x, int) and t is not SymInt:
        return int(x)
    return None


def int_op(a, b, op):
    if type(a) is float or type(b) is float:
        a = a._conc() if type(a) is SymInt else a
        b = b._conc() if type(b) is SymInt else b
        return _OPS[op](a, b)
    if type(b) is SymInt and op == '*' and type(a) in (str, bytes, list,
                                                       tuple):
        return a * b._conc()
    if type(a) is SymInt and op == '*' and type(b) in (str, bytes, list,
                                                       tuple):
        return b * a._conc()
    a0, b0 = a, b
    a, b = _asint(a), _asint(b)
    if a is None or b is None:
        return NotImplemented
    sa, sb = type(a) is SymInt, type(b) is SymInt
    fn = _OPS[op]
    if not sa and not sb:
        return fn(a, b)
    if op in ('//', '%') and (sb or b == 0):
        if sb:
            b = b._conc()
            return int_op(a, b, op)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
    if op in ('<<', '>>') and sb:
        return int_op(a, b._conc(), op)
    if sa and a.ch is not None and not sb:
        return mk_int_ch(it_map(a.ch, ('op', op, b, 'r'),
                                lambda v: fn(v, b)))
    if sb and b.ch is not None and not sa:
        return mk_int_ch(it_map(b.ch, ('op', op, a, 'l'),
                                lambda v: fn(a, v)))
    if (sa and sb and a.ch is not None and b.ch is not None and
            a.ch.var is b.ch.var):
        dom = a.ch.tab.dom
        av, bv = a.ch.tab.vals, b.ch.tab.vals
        return mk_int_ch(Ch(a.ch.var, dom.tab(tuple(
            UNDEF if av[i] == UNDEF or bv[i] == UNDEF else fn(av[i], bv[i])
            for i in range(dom.n)))))
    za = a.z if sa else z3.IntVal(a)
    zb = b.z if sb else z3.IntVal(b)
    vs = (a.vs if sa else frozenset()) | (b.vs if sb else frozenset())
    if op == '+':
        z = za + zb
    elif op == '-':
        z = za - zb
    elif op == '*':
        if sa and sb:
            # nonlinear: make one side constant
            return int_op(a._conc(), b, op)
        z = za * zb
    elif op == '//' and b > 0:
        z = za / zb
    elif op == '%' and b > 0:
        z = za % zb
    elif op == '<<':
        z = za * z3.IntVal(1 << b)
    elif op == '>>':
        z = za / z3.IntVal(1 << b)
    elif op == '&' and not sb and b >= 0 and (b & (b + 1)) == 0:
        z = za % z3.IntVal(b + 1)
    elif op == '&' and not sa and a >= 0 and (a & (a + 1)) == 0:
        z = zb % z3.IntVal(a + 1)
    else:
        if sa:
            return int_op(a._conc(), b, op)
        return int_op(a, b._conc(), op)
    return mk_int_z(z, vs)


def mk_int_z(z, vs):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(None, z, frozenset(vs))


def int_cmp(a, b, op):
    fn = _CMPS[op]
    if type(b) is float or type(a) is float:
        import math
        if type(a) is SymInt and type(b) is float and b.is_integer():
            return int_cmp(a, int(b), op)
        return fn(a._conc() if type(a) is SymInt else a,
                  b._conc() if type(b) is SymInt else b)
    if type(b) is SymFloat:
        return b._cmp(a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt',
                          'ge': 'le'}.get(op, op))
    a, b = _asint(a), _asint(b)
    if a is None or b is None:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    sa, sb = type(a) is SymInt, type(b) is SymInt
    if not sa and not sb:
        return fn(a, b)
    if sa and a.ch is not None and not sb:
        return it_pred(a.ch, ('cmp', op, b), lambda v: fn(v, b))
    if sb and b.ch is not None and not sa:
        return it_pred(b.ch, ('rcmp', op, a), lambda v: fn(a, v))
    if (sa and sb and a.ch is not None and b.ch is not None):
        if a.ch.var is b.ch.var:
            m = 0
            for i in range(a.ch.tab.dom.n):
                if fn(a.ch.tab.vals[i], b.ch.tab.vals[i]):
                    m |= 1 << i
            return sb_mask(a.ch.var, m)
        if op == 'eq':
            return it_eq(a.ch, b.ch)
        if op == 'ne':
            return sb_not(it_eq(a.ch, b.ch))
    za = a.z if sa else z3.IntVal(a)
    zb = b.z if sb else z3.IntVal(b)
    vs = (a.vs if sa else frozenset()) | (b.vs if sb else frozenset())
    return sb_expr(fn(za, zb), vs)


class SymFloat(object):
    """A non-negative decimal read from text; exact rational, order only.

    float() is strictly monotone on decimals with at most 15 significant
    digits, so comparisons between such values are exact; any other float
    operation makes the value concrete.
    """
    __slots__ = ('z', 'vs', 'src')

    def __init__(self, z, vs, src):
        self.z = z
        self.vs = vs
        self.src = src      # the SymStr it was parsed from

    __class__ = property(lambda self: float)

    def _conc(self):
        return float(conc(self.src))

    def _cmp(self, o, op):
        fn = _CMPS[op]
        if type(o) is SymFloat:
            return sb_expr(fn(self.z, o.z), self.vs | o.vs)
        if type(o) in (int, bool):
            return sb_expr(fn(self.z, z3.RealVal(int(o))), self.vs)
        if type(o) is float:
            if o != o or o in (float('inf'), float('-inf')):
                return fn(0.0, o)
            return sb_expr(fn(self.z, z3.RealVal(repr(o))), self.vs)
        if type(o) is SymInt:
            return sb_expr(fn(self.z, z3.ToReal(o.z)), self.vs | o.vs)
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __bool__(self):
        return bool(self._cmp(0, 'ne'))

    def __hash__(self):
        return hash(self._conc())

    def __float__(self):
        return self._conc()

    def __int__(self):
        return int(self._conc())

    def __repr__(self):
        return repr(self._conc())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return -self._conc()

    def __abs__(self):
        return self if self >= 0 else -self

    def __add__(self, o):
        return self._conc() + o

    def __radd__(self, o):
        return o + self._conc()

    def __sub__(self, o):
        return self._conc() - o

    def __rsub__(self, o):
        return o - self._conc()

    def __mul__(self, o):
        if type(o) in (int, float) and o == 1:
            return self
        return self._conc() * o

    def __rmul__(self, o):
        if type(o) in (int, float) and o == 1:
            return self
        return o * self._conc()

    def __truediv__(self, o):
        return self._conc() / o

    def __rtruediv__(self, o):
        return o / self._conc()


# --------------------------------------------------------------- sequences

WS_STR = 'ws'


def _isspace(c):
    return chr(c).isspace()


def _bisspace(c):
    return c in (9, 10, 11, 12, 13, 32)


_LINEB = frozenset([10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029])


class SymSeq(object):
    __slots__ = ('items', '_h')
    kind = None

    def __init__(self, items):
        self.items = items
        self._h = None

    # -- construction helpers
    @classmethod
    def _it(cls, o):
        """items of a same-kind value, or None"""
        raise NotImplementedError

    @classmethod
    def _mk(cls, items):
        raise NotImplementedError

    def _need(self, o, what='argument'):
        r = self._it(o)
        if r is None:
            raise TypeError('expected %s-like object, %s found' % (
                self.kind.__name__, type_of(o).__name__))
        return r

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        raise Gap('pickle of symbolic value')

    def _conc(self):
        return self._mk(tuple([it_conc(i) for i in self.items]))

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(self._conc())

    def _key_hash(self):
        """give this object a private hash (used as a container key)"""
        if self._h is None:
            E.hcount += 1
            self._h = 0x5eed0000 + E.hcount
        E.hashed = True

    def __eq__(self, o):
        if o is self:
            return True
        oi = self._it(o)
        if oi is None:
            return False
        return items_eq(self.items, oi)

    def __ne__(self, o):
        return sb_not(self.__eq__(o))

    def _lex(self, o, strict, less):
        oi = self._it(o)
        if oi is None:
            return NotImplemented
        a, b = (self.items, oi) if less else (oi, self.items)
        for x, y in zip(a, b):
            e = it_eq(x, y)
            if e is True or (e is not False and E.decide(e)):
                continue
            return it_lt(x, y)
        if strict:
            return len(a) < len(b)
        return len(a) <= len(b)

    def __lt__(self, o):
        return self._lex(o, True, True)

    def __le__(self, o):
        return self._lex(o, False, True)

    def __gt__(self, o):
        return self._lex(o, True, False)

    def __ge__(self, o):
        return self._lex(o, False, False)

    def __add__(self, o):
        oi = self._it(o)
        if oi is None:
            if type(o) is SymByteArray or type(o) is bytearray:
                oi = tuple(o.items if type(o) is SymByteArray else o)
            else:
                return NotImplemented
        return self._mk(self.items + oi)

    def __radd__(self, o):
        oi = self._it(o)
        if oi is None:
            return NotImplemented
        return self._mk(oi + self.items)

    def __mul__(self, n):
        n = n.__index__() if hasattr(n, '__index__') else None
        if n is None:
            return NotImplemented
        return self._mk(self.items * n)

    __rmul__ = __mul__

    def contains(self, sub):
        si = self._sub(sub)
        n, k = len(self.items), len(si)
        if k == 0:
            return True
        return sb_or([items_eq(self.items[i:i + k], si)
                      for i in range(n - k + 1)])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def _sub(self, sub):
        return self._need(sub)

    # -- searching
    def _window(self, start, end):
        n = len(self.items)
        s, e, _ = slice(start, end).indices(n)
        # str.find semantics: start beyond the end finds nothing
        if start is not None and start.__index__() > n:
            return None
        return s, e

    def _find(self, sub, start, end, rev):
        si = self._sub(sub)
        w = self._window(start, end)
        if w is None:
            return -1
        s, e = w
        k = len(si)
        rng = range(s, e - k + 1)
        for i in (reversed(rng) if rev else rng):
            b = items_eq(self.items[i:i + k], si)
            if b is True or (b is not False and E.decide(b)):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end, False)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        si = self._sub(sub)
        w = self._window(start, end)
        if w is None:
            return 0
        s, e = w
        k = len(si)
        if k == 0:
            return max(0, e - s + 1)
        n = 0
        while s + k <= e:
            b = items_eq(self.items[s:s + k], si)
            if b is True or (b is not False and E.decide(b)):
                n += 1
                s += k
            else:
                s += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        w = self._window(start, end)
        if isinstance(prefix, tuple):
            return sb_or([self.startswith(p, start, end) for p in prefix])
        pi = self._need(prefix)
        if w is None:
            return False
        s, e = w
        if e - s < len(pi):
            return False
        return items_eq(self.items[s:s + len(pi)], pi)

    def endswith(self, suffix, start=None, end=None):
        w = self._window(start, end)
        if isinstance(suffix, tuple):
            return sb_or([self.endswith(p, start, end) for p in suffix])
        si = self._need(suffix)
        if w is None:
            return False
        s, e = w
        if e - s < len(si):
            return False
        if not si:
            return True
        return items_eq(self.items[e - len(si):e], si)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(self.items[len(p):])
        return self._mk(self.items)

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._mk(self.items[:len(self.items) - len(p)])
        return self._mk(self.items)

    # -- strip
    def _strip(self, chars, left, right):
        items = self.items
        if chars is None:
            def test(it):
                return it_pred(it, self._wskey, self._wsfn)
        else:
            ci = self._need(chars)
            if any(type(c) is Ch for c in ci):
                def test(it):
                    return sb_or([it_eq(it, c) for c in ci])
            else:
                codes = frozenset(ci)

                def test(it):
                    return it_in(it, codes)
        i, j = 0, len(items)
        if left:
            while i < j:
                b = test(items[i])
                if b is True or (b is not False and E.decide(b)):
                    i += 1
                else:
                    break
        if right:
            while i < j:
                b = test(items[j - 1])
                if b is True or (b is not False and E.decide(b)):
                    j -= 1
                else:
                    break
        return self._mk(items[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    # -- split
    def split(self, sep=None, maxsplit=-1):
        items = self.items
        out = []
        maxsplit = maxsplit.__index__()
        if sep is None:
            i, n = 0, len(items)
            while True:
                while i < n:
                    b = it_pred(items[i], self._wskey, self._wsfn)
                    if b is True or (b is not False and E.decide(b)):
                        i += 1
                    else:
                        break
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self._mk(items[i:]).rstrip())
                    return out
                j = i + 1
                while j < n:
                    b = it_pred(items[j], self._wskey, self._wsfn)
                    if b is True or (b is not False and E.decide(b)):
                        break
                    j += 1
                out.append(self._mk(items[i:j]))
                i = j
        si = self._need(sep)
        k = len(si)
        if k == 0:
            raise ValueError('empty separator')
        i = last = 0
        n = len(items)
        while i + k <= n:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            b = items_eq(items[i:i + k], si)
            if b is True or (b is not False and E.decide(b)):
                out.append(self._mk(items[last:i]))
                i += k
                last = i
            else:
                i += 1
        out.append(self._mk(items[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        items = self.items
        out = []
        if sep is None:
            j = len(items)
            while True:
                while j > 0:
                    b = it_pred(items[j - 1], self._wskey, self._wsfn)
                    if b is True or (b is not False and E.decide(b)):
                        j -= 1
                    else:
                        break
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    out.append(self._mk(items[:j]))
                    break
                i = j - 1
                while i > 0:
                    b = it_pred(items[i - 1], self._wskey, self._wsfn)
                    if b is True or (b is not False and E.decide(b)):
                        break
                    i -= 1
                out.append(self._mk(items[i:j]))
                j = i
            out.reverse()
            return out
        si = self._need(sep)
        k = len(si)
        if k == 0:
            raise ValueError('empty separator')
        end = len(items)
        i = end - k
        while i >= 0 and len(out) < maxsplit:
            b = items_eq(items[i:i + k], si)
            if b is True or (b is not False and E.decide(b)):
                out.append(self._mk(items[i + k:end]))
                end = i
                i -= k
            else:
                i -= 1
        out.append(self._mk(items[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        si = self._need(sep)
        if not si:
            raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0:
            return (self._mk(self.items), self._mk(()), self._mk(()))
        return (self._mk(self.items[:i]), sep,
                self._mk(self.items[i + len(si):]))

    def rpartition(self, sep):
        si = self._need(sep)
        if not si:
            raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0:
            return (self._mk(()), self._mk(()), self._mk(self.items))
        return (self._mk(self.items[:i]), sep,
                self._mk(self.items[i + len(si):]))

    def replace(self, old, new, count=-1):
        oi, ni = self._need(old), self._need(new)
        items = self.items
        k = len(oi)
        out = []
        n = 0
        if k == 0:
            for it in items:
                if count < 0 or n < count:
                    out.extend(ni)
                    n += 1
                out.append(it)
            if count < 0 or n < count:
                out.extend(ni)
            return self._mk(tuple(out))
        i = 0
        while i < len(items):
            if i + k <= len(items) and (count < 0 or n < count):
                b = items_eq(items[i:i + k], oi)
                if b is True or (b is not False and E.decide(b)):
                    out.extend(ni)
                    i += k
                    n += 1
                    continue
            out.append(items[i])
            i += 1
        return self._mk(tuple(out))

    def splitlines(self, keepends=False):
        items = self.items
        out = []
        start = i = 0
        n = len(items)
        while i < n:
            b = it_in(items[i], self._linebreaks, self._lbkey)
            if b is True or (b is not False and E.decide(b)):
                j = i + 1
                if j < n:
                    cr = it_eq(items[i], 13)
                    if cr is True or (cr is not False and E.decide(cr)):
                        lf = it_eq(items[j], 10)
                        if lf is True or (lf is not False and E.decide(lf)):
                            j += 1
                out.append(self._mk(items[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._mk(items[start:]))
        return out

    def join(self, parts):
        parts = list(parts)
        out = []
        for n, p in enumerate(parts):
            pi = self._it(p)
            if pi is None:
                if type(p) is SymByteArray:
                    pi = tuple(p.items)
                elif isinstance(p, (bytearray, memoryview)) and (
                        self.kind is bytes):
                    pi = tuple(p)
                else:
                    raise TypeError(
                        'sequence item %d: expected %s instance, %s found' % (
                            n, self.kind.__name__, type_of(p).__name__))
            if n:
                out.extend(self.items)
            out.extend(pi)
        return self._mk(tuple(out))

    # -- justification
    def _fill(self, fill):
        if fill is None:
            return 32
        fi = self._need(fill)
        if len(fi) != 1:
            raise TypeError('The fill character must be exactly one '
                            'character long')
        return fi[0]

    def ljust(self, width, fill=None):
        f = self._fill(fill)
        n = max(0, width.__index__() - len(self.items))
        return self._mk(self.items + (f,) * n)

    def rjust(self, width, fill=None):
        f = self._fill(fill)
        n = max(0, width.__index__() - len(self.items))
        return self._mk((f,) * n + self.items)

    def center(self, width, fill=None):
        f = self._fill(fill)
        pad = max(0, width.__index__() - len(self.items))
        w = width.__index__()
        left = pad // 2 + (pad & w & 1)
        return self._mk((f,) * left + self.items + (f,) * (pad - left))

    def zfill(self, width):
        items = self.items
        n = width.__index__() - len(items)
        if n <= 0:
            return self._mk(items)
        if items:
            b = it_in(items[0], frozenset((43, 45)))
            if b is True or (b is not False and E.decide(b)):
                return self._mk(items[:1] + (48,) * n + items[1:])
        return self._mk((48,) * n + items)

    def expandtabs(self, tabsize=8):
        raise Gap('expandtabs')

    # -- character classes
    def _all(self, key, fn):
        if not self.items:
            return False
        return sb_and([it_pred(i, key, fn) for i in self.items])

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __str__(self):
        return str(self._conc())


def items_eq(a, b):
    if len(a) != len(b):
        return False
    parts = []
    for x, y in zip(a, b):
        e = it_eq(x, y)
        if e is False:
            return False
        if e is not True:
            parts.append(e)
    if not parts:
        return True
    if len(parts) == 1:
        return parts[0]
    return sb_and(parts)


_STATELESS = {
    'utf-8': 'utf-8', 'utf8': 'utf-8', 'latin1': 'latin-1',
    'latin-1': 'latin-1', 'iso-8859-1': 'latin-1', 'ascii': 'ascii',
    'us-ascii': 'ascii', 'iso8859-1': 'latin-1', 'u8': 'utf-8',
    'iso-8859-15': 'iso-8859-15', 'cp1252': 'cp1252',
    'windows-1252': 'cp1252', 'iso-8859-2': 'iso-8859-2',
}


def _codec(name):
    name = conc(name)
    n = name.lower().replace('_', '-')
    if n in _STATELESS:
        return _STATELESS[n]
    import codecs
    codecs.lookup(name)       # LookupError as the real thing
    return 'idna' if n == 'idna' else None


def _all_ascii(items):
    return sb_and([it_pred(i, 'lt128', lambda c: c < 128) for i in items])


def _idna_encode(s, errors):
    """encodings.idna: the ascii fast path; other names are concretised"""
    if errors != 'strict' or not _yes(_all_ascii(s.items)):
        return s._conc().encode('idna', errors)
    result = s.encode('ascii')
    labels = mk_bytes_sym(result).split(b'.')
    for label in labels[:-1]:
        if not (0 < len(label) < 64):
            raise UnicodeError('label empty or too long')
    if len(labels[-1]) >= 64:
        raise UnicodeError('label too long')
    return result


def _idna_decode(b, errors):
    if errors == 'strict' and not (b'xn--' in b) and _yes(
            _all_ascii(b.items)):
        return b.decode('ascii')
    return b._conc().decode('idna', errors)


def _yes(b):
    return b is True or (b is not False and E.decide(b))


def mk_bytes_sym(x):
    return x


def _casefn(name):
    m = getattr(str, name)

    def fn(c):
        return tuple(map(ord, m(chr(c))))
    return fn


_CASE = {n: _casefn(n) for n in ('lower', 'upper', 'casefold', 'swapcase',
                                 'title', 'capitalize')}
_PREDS = {}


def _mkpred(name):
    m = getattr(str, name)

    def fn(c):
        return m(chr(c))
    _PREDS[name] = fn
    return fn


for _n in ('isalnum', 'isalpha', 'isascii', 'isdecimal', 'isdigit',
           'isnumeric', 'isprintable', 'isspace', 'islower', 'isupper'):
    _mkpred(_n)


class SymStr(SymSeq):
    __slots__ = ()
    kind = str
    _wskey = 'isspace'
    _wsfn = staticmethod(_isspace)
    _linebreaks = _LINEB
    _lbkey = 'linebreak'
    __class__ = property(lambda self: str)

    @classmethod
    def _it(cls, o):
        t = type(o)
        if t is SymStr:
            return o.items
        if t is str:
            return tuple(map(ord, o))
        if isinstance(o, str):
            return tuple(map(ord, str(o)))
        return None

    @classmethod
    def _mk(cls, items):
        return mk_str(items)

    def __getitem__(self, k):
        if type(k) is slice:
            return mk_str(self.items[conc_slice(k)])
        if type(k) is SymInt:
            k = k._conc()
        return mk_str((self.items[k],))

    def __iter__(self):
        for it in self.items:
            yield mk_str((it,))

    def __repr__(self):
        E.stats['approx_repr'] = E.stats.get('approx_repr', 0) + 1
        return "'<sym%d>'" % len(self.items)

    def _case(self, name):
        fn = _CASE[name]
        out = []
        for it in self.items:
            if type(it) is not Ch:
                out.extend(fn(it))
            else:
                out.extend(it_multi(it, name, fn))
        return mk_str(tuple(out))

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def swapcase(self):
        return self._case('swapcase')

    def capitalize(self):
        if not self.items:
            return ''
        return (mk_sym((self.items[0],))._case('title') +
                mk_sym(self.items[1:])._case('lower'))

    def title(self):
        out = []
        prev = False
        for it in self.items:
            fn = 'lower' if prev else 'title'
            out.extend(it_multi(it, fn, _CASE[fn]))
            b = it_pred(it, 'cased',
                        lambda c: chr(c).lower() != chr(c).upper())
            prev = b is True or (b is not False and E.decide(b))
        return mk_str(tuple(out))

    def isalnum(self):
        return self._all('isalnum', _PREDS['isalnum'])

    def isalpha(self):
        return self._all('isalpha', _PREDS['isalpha'])

    def isdecimal(self):
        return self._all('isdecimal', _PREDS['isdecimal'])

    def isdigit(self):
        return self._all('isdigit', _PREDS['isdigit'])

    def isnumeric(self):
        return self._all('isnumeric', _PREDS['isnumeric'])

    def isspace(self):
        return self._all('isspace', _PREDS['isspace'])

    def isascii(self):
        if not self.items:
            return True
        return self._all('isascii', _PREDS['isascii'])

    def isprintable(self):
        if not self.items:
            return True
        return self._all('isprintable', _PREDS['isprintable'])

    def islower(self):
        return sb_and([
            sb_or([it_pred(i, 'islower', _PREDS['islower'])
                   for i in self.items]),
            sb_and([sb_not(it_pred(i, 'upperortitle',
                    lambda c: chr(c).isupper() or chr(c).istitle()))
                    for i in self.items])])

    def isupper(self):
        return sb_and([
            sb_or([it_pred(i, 'isupper', _PREDS['isupper'])
                   for i in self.items]),
            sb_and([sb_not(it_pred(i, 'lowerortitle',
                    lambda c: chr(c).islower() or
                    (chr(c).istitle() and not chr(c).isupper())))
                    for i in self.items])])

    def istitle(self):
        return self._conc().istitle()

    def isidentifier(self):
        return self._conc().isidentifier()

    def encode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        errors = conc(errors)
        if enc == 'idna':
            return _idna_encode(self, errors)
        if enc is None or errors not in (
                'strict', 'ignore', 'replace', 'surrogateescape',
                'surrogatepass', 'xmlcharrefreplace', 'backslashreplace'):
            return self._conc().encode(conc(encoding), errors)
        out = []
        key = ('enc', enc, errors)
        for it in self.items:
            if type(it) is Ch:
                m = E.masks[it.var.i]
            if enc in ('utf-8', 'ascii', 'latin-1') and type(it) is int:
                if it < 128:
                    out.append(it)
                    continue
            out.extend(it_multi(it, key,
                                lambda c: chr(c).encode(enc, errors)))
        return mk_bytes(tuple(out))

    def translate(self, table):
        def fn(c):
            try:
                r = table[c]
            except LookupError:
                return (c,)
            if r is None:
                return ()
            if isinstance(r, int):
                return (r,)
            return tuple(map(ord, r))
        out = []
        key = ('tr', id(table), len(out))
        E.objs.append(table)
        for it in self.items:
            if type(it) is Ch:
                # not cached: the table may change
                t = it.tab
                t.derived.pop(('multi', key), None)
                out.extend(it_multi(it, key, fn))
                t.derived.pop(('multi', key), None)
            else:
                out.extend(fn(it))
        return mk_str(tuple(out))

    @staticmethod
    def maketrans(*a):
        return str.maketrans(*conc(a))

    def format(self, *a, **k):
        from . import fmt
        return fmt.str_format(self, a, k)

    def format_map(self, m):
        from . import fmt
        return fmt.str_format(self, (), m)

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)


class SymBytes(SymSeq):
    __slots__ = ()
    kind = bytes
    _wskey = 'bisspace'
    _wsfn = staticmethod(_bisspace)
    _linebreaks = frozenset((10, 13))
    _lbkey = 'blinebreak'
    __class__ = property(lambda self: bytes)

    @classmethod
    def _it(cls, o):
        t = type(o)
        if t is SymBytes:
            return o.items
        if t is bytes:
            return tuple(o)
        if t is SymByteArray:
            return tuple(o.items)
        if t is bytearray:
            return tuple(o)
        if isinstance(o, (bytes, memoryview)):
            return tuple(o)
        return None

    @classmethod
    def _mk(cls, items):
        return mk_bytes(items)

    def _sub(self, sub):
        if type(sub) is int:
            return (sub,)
        if type(sub) is SymInt:
            return (sub.ch if sub.ch is not None else sub._conc(),)
        return self._need(sub)

    def __getitem__(self, k):
        if type(k) is slice:
            return mk_bytes(self.items[conc_slice(k)])
        if type(k) is SymInt:
            k = k._conc()
        return mk_int_ch(self.items[k])

    def __iter__(self):
        for it in self.items:
            yield mk_int_ch(it)

    def __repr__(self):
        E.stats['approx_repr'] = E.stats.get('approx_repr', 0) + 1
        return "b'<sym%d>'" % len(self.items)

    def __bytes__(self):
        return self._conc()

    def _bcase(self, name):
        m = getattr(bytes, name)
        return mk_bytes(tuple(
            it_map(i, ('b', name), lambda c: m(bytes((c,)))[0])
            for i in self.items))

    def lower(self):
        return self._bcase('lower')

    def upper(self):
        return self._bcase('upper')

    def swapcase(self):
        return self._bcase('swapcase')

    def title(self):
        return self._conc().title()

    def capitalize(self):
        return mk_bsym(self.items[:1]).upper() + mk_bsym(
            self.items[1:]).lower()

    def _ball(self, name):
        m = getattr(bytes, name)
        return self._all(('b', name), lambda c: m(bytes((c,))))

    def isalnum(self):
        return self._ball('isalnum')

    def isalpha(self):
        return self._ball('isalpha')

    def isdigit(self):
        return self._ball('isdigit')

    def isspace(self):
        return self._ball('isspace')

    def isascii(self):
        return not self.items or self._ball('isascii')

    def islower(self):
        return self._conc().islower()

    def isupper(self):
        return self._conc().isupper()

    def hex(self, *a):
        if a:
            return self._conc().hex(*a)
        out = []
        for it in self.items:
            out.append(it_map(it, 'hex0', lambda c: ord('%02x' % c) if 0
                              else ord(('%02x' % c)[0])))
            out.append(it_map(it, 'hex1', lambda c: ord(('%02x' % c)[1])))
        return mk_str(tuple(out))

    def translate(self, table, delete=b''):
        table = conc(table)
        di = frozenset(conc(delete))
        out = []
        for it in self.items:
            if di:
                b = it_in(it, di)
                if b is True or (b is not False and E.decide(b)):
                    continue
            if table is not None:
                it = it_map(it, ('btr', bytes(table)), lambda c: table[c])
            out.append(it)
        return mk_bytes(tuple(out))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        errors = conc(errors)
        if enc == 'idna':
            return _idna_decode(self, errors)
        if enc is None:
            return self._conc().decode(conc(encoding), errors)
        out = []
        items = self.items
        if enc == 'utf-8':
            i, n = 0, len(items)
            while i < n:
                b = it_pred(items[i], 'lt128', lambda c: c < 128)
                if b is True or (b is not False and E.decide(b)):
                    out.append(items[i])
                    i += 1
                    continue
                j = i + 1
                while j < n:
                    b = it_pred(items[j], 'lt128', lambda c: c < 128)
                    if b is True or (b is not False and E.decide(b)):
                        break
                    j += 1
                out.extend(_utf8_run(items[i:j], errors))
                i = j
            return mk_str(tuple(out))
        key = ('dec', enc, errors)
        for it in items:
            if enc == 'latin-1' and type(it) is int:
                out.append(it)
            else:
                out.extend(it_multi(
                    it, key, lambda c: map(ord, bytes((c,)).decode(
                        enc, errors))))
        return mk_str(tuple(out))

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    @staticmethod
    def maketrans(a, b):
        return bytes.maketrans(conc(a), conc(b))


def _utf8_run(run, errors):
    """decode a maximal run of bytes >= 0x80."""
    # split into groups of consecutive items over one variable
    groups = []
    for it in run:
        v = it.var if type(it) is Ch else None
        if groups and groups[-1][0] is v and v is not None:
            groups[-1][1].append(it)
        elif groups and v is None and groups[-1][0] is None:
            groups[-1][1].append(it)
        else:
            groups.append((v, [it]))
    out = []
    ok = True
    for v, its in groups:
        if v is None:
            try:
                out.extend(map(ord, bytes(its).decode('utf-8')))
            except UnicodeDecodeError:
                ok = False
                break
            continue
        m = E.masks[v.i]
        vals = {}
        for i in bits(m):
            try:
                s = bytes(t.tab.vals[i] for t in its).decode('utf-8')
            except (UnicodeDecodeError, ValueError):
                ok = False
                break
            vals[i] = s
        if not ok:
            break
        lens = set(map(len, vals.values()))
        if len(lens) != 1:
            ok = False
            break
        for p in range(lens.pop()):
            t = v.dom.tab(tuple(ord(vals[i][p]) if i in vals else UNDEF
                                for i in range(v.dom.n)))
            out.append(it_norm(Ch(v, t)))
    if ok:
        return out
    return _utf8_automaton(run, errors)


_CONT = frozenset(range(0x80, 0xc0))
_LEADS = [
    (frozenset(range(0xc2, 0xe0)), (_CONT,)),
    (frozenset((0xe0,)), (frozenset(range(0xa0, 0xc0)), _CONT)),
    (frozenset(range(0xe1, 0xed)) | {0xee, 0xef}, (_CONT, _CONT)),
    (frozenset((0xed,)), (frozenset(range(0x80, 0xa0)), _CONT)),
    (frozenset((0xf0,)), (frozenset(range(0x90, 0xc0)), _CONT, _CONT)),
    (frozenset((0xf1, 0xf2, 0xf3)), (_CONT, _CONT, _CONT)),
    (frozenset((0xf4,)), (frozenset(range(0x80, 0x90)), _CONT, _CONT)),
]


def _it_dec(it, codes):
    b = it_in(it, codes)
    return b is True or (b is not False and E.decide(b))


def _utf8_automaton(run, errors):
    """decode bytes >= 0x80 the way CPython does, forking on the class of
    each byte; well-formed sequences over several variables are fixed"""
    out = []
    i, n = 0, len(run)
    while i < n:
        need = None
        for lead, conts in _LEADS:
            if _it_dec(run[i], lead):
                need = conts
                break
        j = i + 1
        good = need is not None
        reason = 'invalid start byte'
        if good:
            for c in need:
                if j >= n:
                    good = False
                    reason = 'unexpected end of data'
                    break
                if not _it_dec(run[j], c):
                    good = False
                    reason = 'invalid continuation byte'
                    break
                j += 1
        if good:
            vs = {t.var for t in run[i:j] if type(t) is Ch}
            if len(vs) == 1:
                v, = vs
                vals = {}
                for q in bits(E.masks[v.i]):
                    vals[q] = ord(bytes(
                        t.tab.vals[q] if type(t) is Ch else t
                        for t in run[i:j]).decode('utf-8'))
                out.append(it_norm(Ch(v, v.dom.tab(tuple(
                    vals.get(q, UNDEF) for q in range(v.dom.n))))))
            else:
                out.append(ord(bytes(it_conc(t) for t in run[i:j]).decode(
                    'utf-8')))
        elif errors == 'replace':
            out.append(0xfffd)
        elif errors == 'ignore':
            pass
        elif errors == 'surrogateescape':
            for t in run[i:j]:
                out.extend(it_multi(t, 'surresc', lambda c: (0xdc00 + c,)))
        elif errors == 'strict':
            raise UnicodeDecodeError('utf-8', bytes(j), i, j, reason)
        else:
            data = bytes(it_conc(t) for t in run[i:])
            out.extend(map(ord, data.decode('utf-8', errors)))
            return out
        i = j
    return out


class SymByteArray(object):
    """mutable symbolic bytes (bytearray)"""

    def __init__(self, items=()):
        self.items = list(items)

    __class__ = property(lambda self: bytearray)

    def __len__(self):
        return len(self.items)

    def _b(self):
        return mk_bsym(tuple(self.items))

    def __iter__(self):
        return iter(self._b())

    def __getitem__(self, k):
        if type(k) is slice:
            return SymByteArray(self.items[conc_slice(k)])
        return self._b()[k]

    def __setitem__(self, k, v):
        if type(k) is slice:
            self.items[conc_slice(k)] = SymBytes._it(v)
        else:
            self.items[k] = v.ch if type(v) is SymInt else v

    def __delitem__(self, k):
        del self.items[conc_slice(k) if type(k) is slice else k]

    def append(self, v):
        self.items.append(v.ch if type(v) is SymInt and v.ch is not None
                          else v.__index__())

    def extend(self, v):
        it = SymBytes._it(v)
        if it is None:
            for x in v:
                self.append(x)
        else:
            self.items.extend(it)

    def __iadd__(self, v):
        self.extend(v)
        return self

    def __add__(self, v):
        return SymByteArray(self.items + list(SymBytes._it(v)))

    def __radd__(self, v):
        it = tuple(SymBytes._it(v)) + tuple(self.items)
        if isinstance(v, bytearray):
            return SymByteArray(it)
        return mk_bytes(it)

    def clear(self):
        self.items = []

    def __eq__(self, o):
        oi = SymBytes._it(o)
        if oi is None:
            return False
        return items_eq(tuple(self.items), oi)

    __hash__ = None

    def __getattr__(self, name):
        return getattr(self._b(), name)

    def __repr__(self):
        return 'bytearray(<sym>)'


def conc_slice(s):
    def c(x):
        return x._conc() if type(x) is SymInt else x
    return slice(c(s.start), c(s.stop), c(s.step))


def mk_sym(items):
    return SymStr(items)


def mk_bsym(items):
    return SymBytes(items)


def mk_str(items):
    out = []
    sym = False
    for it in items:
        if type(it) is Ch:
            it = it_norm(it)
            if type(it) is Ch:
                sym = True
        out.append(it)
    if not sym:
        return ''.join(map(chr, out))
    return SymStr(tuple(out))


def mk_bytes(items):
    out = []
    sym = False
    for it in items:
        if type(it) is Ch:
            it = it_norm(it)
            if type(it) is Ch:
                sym = True
        out.append(it)
    if not sym:
        return bytes(out)
    return SymBytes(tuple(out))


SYM = (SymStr, SymBytes, SymInt, SymBool, SymFloat, SymByteArray)
SYMSET = frozenset(SYM)
_TYPEOF = {SymStr: str, SymBytes: bytes, SymInt: int, SymBool: bool,
           SymFloat: float, SymByteArray: bytearray}


def type_of(x):
    t = type(x)
    return _TYPEOF.get(t, t)


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMSET:
        return True
    if depth:
        if t is list or t is tuple or t is set or t is frozenset:
            for y in x:
                if has_sym(y, depth - 1):
                    return True
        elif t is dict:
            for k, v in x.items():
                if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                    return True
        elif isinstance(x, (tuple, list)) and t not in SYMSET:
            for y in tuple.__iter__(x) if isinstance(x, tuple) else (
                    list.__iter__(x)):
                if has_sym(y, depth - 1):
                    return True
    return False


def conc(x):
    """deep concretisation by forking over all feasible values"""
    t = type(x)
    if t in SYMSET:
        if t is SymBool:
            return bool(x)
        if t is SymByteArray:
            return bytearray(it_conc(i) for i in x.items)
        return x._conc()
    if t is tuple:
        return tuple(conc(y) for y in x)
    if t is list:
        return [conc(y) for y in x]
    if t is dict:
        return {conc(k): conc(v) for k, v in x.items()}
    if t is set:
        return {conc(y) for y in x}
    if t is frozenset:
        return frozenset(conc(y) for y in x)
    return x
