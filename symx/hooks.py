"""Hook functions that instrumented code calls."""
import builtins
import collections
import functools
import io
import itertools
import os
import operator
import re
import types
import z3

from . import core
from .core import E, Gap, SymBool, sb_and, sb_or, sb_not, sb_mask, bits
from . import values as V
from . import fmt
from . import regex
from .values import (SymStr, SymBytes, SymInt, SymFloat, SymByteArray, Ch,
                     SYMSET, has_sym, conc, mk_str, mk_bytes, mk_sym,
                     mk_bsym, it_eq, it_in, it_pred, it_map, mk_int_ch,
                     type_of)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
CMethodType = type(re.compile('').match)     # METH_METHOD methods
MethodDesc = types.MethodDescriptorType
WrapperDesc = types.WrapperDescriptorType
MethodWrapper = types.MethodWrapperType
ClassMethodDesc = types.ClassMethodDescriptorType

MISSING = object()
_dec = regex._dec


# ------------------------------------------------------------- containers

def _symkeys(d):
    for k in d:
        if type(k) in SYMSET:
            return True
    return False


def key_find(c, key):
    """the key object stored in dict/set c that equals key, or MISSING"""
    tk = type(key)
    if tk in SYMSET:
        if tk is SymInt or tk is SymBool or tk is SymFloat:
            if tk is SymInt and key.ch is not None and len(c) < 300:
                for k in list(c):
                    if isinstance(k, int) and _dec(key == k):
                        return k
                return MISSING
            key = conc(key)
            tk = type(key)
        elif tk is SymByteArray:
            raise TypeError("unhashable type: 'bytearray'")
        else:
            kind = tk.kind
            for k in list(c):
                if k is key:
                    return k
                if isinstance(k, kind) and len(k) == len(key):
                    if _dec(key == k):
                        return k
            return MISSING
    if E.hashed:
        if isinstance(key, tuple) and has_sym(key):
            for k in list(c):
                if isinstance(k, tuple) and _dec(veq(k, key)):
                    return k
            return MISSING
        if c.__class__ is set or c.__class__ is frozenset:
            nat = key in c
        else:
            nat = dict.__contains__(c, key) if isinstance(c, dict) else (
                key in c)
        if nat:
            return key
        if isinstance(key, (str, bytes)):
            for k in list(c):
                if type(k) in (SymStr, SymBytes) and len(k) == len(key):
                    if _dec(k == key):
                        return k
        return MISSING
    if isinstance(key, tuple) and has_sym(key):
        for k in list(c):
            if isinstance(k, tuple) and _dec(veq(k, key)):
                return k
        return MISSING
    if isinstance(c, dict):
        return key if dict.__contains__(c, key) else MISSING
    return key if key in c else MISSING


def key_in(c, key):
    """merged membership -> bool/SymBool"""
    tk = type(key)
    if tk in (SymStr, SymBytes):
        kind = tk.kind
        n = len(key)
        if tk is SymStr and n == 1:
            codes = frozenset(ord(k) for k in c
                              if type(k) is str and len(k) == 1)
            r = [it_in(key.items[0], codes)]
            for k in c:
                if type(k) is SymStr and len(k) == 1:
                    r.append(key == k)
            return sb_or(r)
        if len(c) > 8 and not (E.hashed and _symkeys(c)):
            return big_in(c, key)
        return sb_or([key == k for k in c
                      if isinstance(k, kind) and len(k) == n])
    if tk is SymInt:
        if key.ch is not None:
            return sb_or([it_in(key.ch, frozenset(
                k for k in c if isinstance(k, int)
                and type(k) not in SYMSET))])
        return sb_or([key == k for k in c if isinstance(k, int)])
    if E.hashed and isinstance(key, (str, bytes)):
        if key in c if not isinstance(c, dict) else dict.__contains__(
                c, key):
            return True
        return sb_or([k == key for k in c
                      if type(k) in (SymStr, SymBytes) and
                      len(k) == len(key)])
    return key_find(c, key) is not MISSING


def _cands(c, key):
    """concrete same-kind keys that agree with key on its fixed items"""
    kind = type(key).kind
    items = [V.it_norm(i) for i in key.items]
    n = len(items)
    fixed = [(i, it) for i, it in enumerate(items) if type(it) is int]
    out = []
    for k in c:
        if type(k) is kind and len(k) == n:
            codes = tuple(map(ord, k)) if kind is str else tuple(k)
            if all(codes[i] == it for i, it in fixed):
                out.append((codes, k))
    pos = [i for i, it in enumerate(items) if type(it) is Ch]
    return items, pos, out


def _levels(items, pos):
    """[(var, [positions])] in order of first occurrence"""
    out = []
    for p in pos:
        v = items[p].var
        for lv in out:
            if lv[0] is v:
                lv[1].append(p)
                break
        else:
            out.append((v, [p]))
    return out


def _by_var(items, v, ps, cands):
    """{codes: [mask, sub-candidates]} for one variable"""
    m = {}
    for codes, k in cands:
        m.setdefault(tuple(codes[p] for p in ps), []).append((codes, k))
    out = {}
    for i in bits(E.masks[v.i]):
        t = tuple(items[p].tab.vals[i] for p in ps)
        if t in m:
            e = out.get(t)
            if e is None:
                e = out[t] = [0, m[t]]
            e[0] |= 1 << i
    return out


def big_in(c, key):
    items, pos, cands = _cands(c, key)
    levels = _levels(items, pos)

    def rec(li, cands):
        if not cands:
            return False
        if li == len(levels):
            return True
        v, ps = levels[li]
        rest = [p for lv in levels[li + 1:] for p in lv[1]]
        groups = {}
        for t, (mask, sub) in _by_var(items, v, ps, cands).items():
            sig = frozenset(tuple(x[0][q] for q in rest) for x in sub)
            g = groups.setdefault(sig, [0, sub])
            g[0] |= mask
        return sb_or([sb_and([sb_mask(v, mask), rec(li + 1, sub)])
                      for mask, sub in groups.values()])
    return rec(0, cands)


def big_lookup(d, key):
    """value of a symbolic key in a large constant dict, or MISSING"""
    if type(key) is SymInt:
        return int_lookup(d, key)
    items, pos, cands = _cands(d, key)
    levels = _levels(items, pos)

    def val(k):
        return dict.__getitem__(d, k)

    def vkey(v):
        return (type(v), v) if isinstance(v, (int, str, bytes)) else id(v)

    def rec(li, cands):
        if not cands:
            return MISSING
        if li == len(levels):
            return val(cands[0][1])
        v, ps = levels[li]
        bv = _by_var(items, v, ps, cands)
        full = 0
        for mask, sub in bv.values():
            full |= mask
        if not _dec(sb_mask(v, full)):
            return MISSING
        if li == len(levels) - 1:
            vals = {}
            for mask, sub in bv.values():
                x = val(sub[0][1])
                for i in bits(mask):
                    vals[i] = x
            return lift_vals(v, vals)
        rest = [p for lv in levels[li + 1:] for p in lv[1]]
        groups = {}
        for t, (mask, sub) in bv.items():
            sig = frozenset((tuple(x[0][q] for q in rest),
                             vkey(val(x[1]))) for x in sub)
            g = groups.setdefault(sig, [0, sub])
            g[0] |= mask
        gl = list(groups.values())
        for n, (mask, sub) in enumerate(gl):
            if n == len(gl) - 1 or _dec(sb_mask(v, mask)):
                return rec(li + 1, sub)
    return rec(0, cands)


def lift_vals(v, vals):
    """vals: domain index -> Python value, for every feasible index of v;
    the value as a function of v, forking on its type and length"""
    groups = {}
    for i, x in vals.items():
        t = type(x)
        if t is int:
            k = int
        elif t is str or t is bytes:
            k = (t, len(x))
        elif x is None or t is bool:
            k = ('c', x)
        else:
            k = ('o', id(x))
        groups.setdefault(k, {})[i] = x
    gl = list(groups.items())
    for n, (k, g) in enumerate(gl):
        mask = 0
        for i in g:
            mask |= 1 << i
        if n < len(gl) - 1 and not _dec(sb_mask(v, mask)):
            continue
        if k is int:
            return mk_int_ch(V.it_norm(Ch(v, v.dom.tab(tuple(
                g.get(i, core.UNDEF) for i in range(v.dom.n))))))
        if k[0] is str or k[0] is bytes:
            items = []
            for q in range(k[1]):
                items.append(Ch(v, v.dom.tab(tuple(
                    (ord(g[i][q]) if k[0] is str else g[i][q])
                    if i in g else core.UNDEF for i in range(v.dom.n)))))
            return (mk_str if k[0] is str else mk_bytes)(tuple(items))
        return next(iter(g.values()))


def int_lookup(d, key):
    """value of a symbolic integer in a dict, or MISSING"""
    if key.ch is None:
        for k in dict.keys(d):
            if isinstance(k, (int, float)) and _dec(key == k):
                return dict.__getitem__(d, k)
        return MISSING
    v = key.ch.var
    tab = key.ch.tab.vals
    vals = {}
    mask = 0
    for i in bits(E.masks[v.i]):
        x = tab[i]
        if dict.__contains__(d, x):
            vals[i] = dict.__getitem__(d, x)
            mask |= 1 << i
    if not mask or not _dec(sb_mask(v, mask)):
        return MISSING
    return lift_vals(v, vals)


def _big(c, key):
    if type(key) is SymInt:
        return not E.hashed and (key.ch is not None or len(c) < 100)
    return (type(key) in (SymStr, SymBytes) and len(c) > 12 and
            not (E.hashed and _symkeys(c)))


def prep_key(key):
    t = type(key)
    if t is SymStr or t is SymBytes:
        key._key_hash()
        return key
    if t in SYMSET:
        return conc(key)
    if isinstance(key, tuple) and has_sym(key):
        for x in key:
            if type(x) in (SymStr, SymBytes):
                x._key_hash()
            elif type(x) is SymInt:
                hash(x)
        E.hashed = True
    return key


def _fast(key):
    return not E.hashed and type(key) not in SYMSET and not (
        type(key) is tuple and has_sym(key))


def _base(d):
    if isinstance(d, collections.OrderedDict):
        return collections.OrderedDict
    return dict


def d_getitem(d, key):
    if _fast(key):
        return _base(d).__getitem__(d, key)
    if _big(d, key):
        v = big_lookup(d, key)
        if v is not MISSING:
            return v
        k = MISSING
    else:
        k = key_find(d, key)
    if k is MISSING:
        miss = getattr(type(d), '__missing__', None)
        if miss is not None:
            if isinstance(d, collections.defaultdict):
                if d.default_factory is None:
                    raise KeyError(key)
                v = vc(d.default_factory)
                d_setitem(d, key, v)
                return v
            return vc(miss, d, key)
        raise KeyError(key)
    return dict.__getitem__(d, k)


def d_setitem(d, key, v):
    if _fast(key):
        return _base(d).__setitem__(d, key, v)
    k = key_find(d, key)
    if k is MISSING:
        k = prep_key(key)
    return _base(d).__setitem__(d, k, v)


def d_delitem(d, key):
    if _fast(key):
        return _base(d).__delitem__(d, key)
    k = key_find(d, key)
    if k is MISSING:
        raise KeyError(key)
    return _base(d).__delitem__(d, k)


def d_contains(d, key):
    if _fast(key):
        return dict.__contains__(d, key)
    return key_in(d, key)


def d_get(d, key, default=None):
    if _fast(key):
        return dict.get(d, key, default)
    if _big(d, key):
        v = big_lookup(d, key)
        return default if v is MISSING else v
    k = key_find(d, key)
    return default if k is MISSING else dict.__getitem__(d, k)


def d_pop(d, key, *default):
    if _fast(key):
        return _base(d).pop(d, key, *default)
    k = key_find(d, key)
    if k is MISSING:
        if default:
            return default[0]
        raise KeyError(key)
    return _base(d).pop(d, k)


def d_setdefault(d, key, default=None):
    if _fast(key):
        return _base(d).setdefault(d, key, default)
    k = key_find(d, key)
    if k is MISSING:
        _base(d).__setitem__(d, prep_key(key), default)
        return default
    return dict.__getitem__(d, k)


def d_update(d, *a, **kw):
    if a:
        o = a[0]
        if hasattr(type(o), 'keys') or isinstance(o, dict):
            if type(o) is dict or (isinstance(o, dict) and type(
                    o).keys is dict.keys):
                for k in list(dict.keys(o)):
                    d_setitem(d, k, dict.__getitem__(o, k))
            else:
                for k in vm(o, 'keys'):
                    d_setitem(d, k, vget(o, k))
        else:
            for p in o:
                k, v = p
                d_setitem(d, k, v)
    for k, v in kw.items():
        d_setitem(d, k, v)


def d_eq(a, b):
    if not isinstance(b, dict):
        return NotImplemented
    if len(a) != len(b):
        return False
    out = []
    for k in list(dict.keys(a)):
        k2 = key_find(b, k)
        if k2 is MISSING:
            return False
        out.append(veq(dict.__getitem__(a, k), dict.__getitem__(b, k2)))
    return sb_and(out)


def d_ne(a, b):
    r = d_eq(a, b)
    return r if r is NotImplemented else sb_not(r)


def d_ior(a, b):
    d_update(a, b)
    return a


def d_or(a, b):
    r = dict(a)
    d_update(r, b)
    return r


def d_init(d, *a, **k):
    d_update(d, *a, **k)


DICT = {
    '__getitem__': d_getitem, '__setitem__': d_setitem,
    '__delitem__': d_delitem, '__contains__': d_contains, 'get': d_get,
    'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update,
    '__eq__': d_eq, '__ne__': d_ne, '__ior__': d_ior, '__or__': d_or,
    '__init__': d_init,
}


def s_add(s, x):
    if _fast(x):
        return set.add(s, x)
    if key_find(s, x) is MISSING:
        set.add(s, prep_key(x))


def s_discard(s, x):
    if _fast(x):
        return set.discard(s, x)
    k = key_find(s, x)
    if k is not MISSING:
        set.discard(s, k)


def s_remove(s, x):
    if _fast(x):
        return set.remove(s, x)
    k = key_find(s, x)
    if k is MISSING:
        raise KeyError(x)
    set.remove(s, k)


def _slow_sets(*ss):
    return E.hashed or any(has_sym(x) or type(x) not in (
        set, frozenset, dict, str, bytes, list, tuple) for x in ss)


def _mkset(items, kind=set):
    s = set()
    for x in items:
        s_add(s, x)
    return s if kind is set else kind(s)


def _kind(s):
    return frozenset if isinstance(s, frozenset) else set


def s_union(s, *o):
    r = set(s)
    for x in o:
        for y in x:
            s_add(r, y)
    return r if _kind(s) is set else frozenset(r)


def s_update(s, *o):
    for x in o:
        for y in list(x):
            s_add(s, y)


def s_inter(s, *o):
    r = [x for x in s]
    for c in o:
        c = _mkset(c)
        r = [x for x in r if key_find(c, x) is not MISSING]
    return _mkset(r, _kind(s))


def s_diff(s, *o):
    r = [x for x in s]
    for c in o:
        c = _mkset(c)
        r = [x for x in r if key_find(c, x) is MISSING]
    return _mkset(r, _kind(s))


def s_symdiff(s, o):
    o = _mkset(o)
    r = [x for x in s if key_find(o, x) is MISSING]
    r += [x for x in o if key_find(s, x) is MISSING]
    return _mkset(r, _kind(s))


def s_subset(s, o):
    o = _mkset(o)
    return sb_and([key_in(o, x) for x in s])


def s_superset(s, o):
    return sb_and([key_in(s, x) for x in o])


def s_disjoint(s, o):
    return sb_not(sb_or([key_in(s, x) for x in o]))


def s_contains(s, x):
    if _fast(x):
        return x in s
    return key_in(s, x)


def s_eq(a, b):
    if not isinstance(b, (set, frozenset)):
        return False
    if len(a) != len(b):
        return False
    return sb_and([key_in(b, x) for x in a])


def s_diff_update(s, *o):
    for x in o:
        for y in list(x):
            s_discard(s, y)


def s_inter_update(s, *o):
    r = s_inter(s, *o)
    for x in list(s):
        if key_find(r, x) is MISSING:
            set.discard(s, x)


SET = {
    'add': s_add, 'discard': s_discard, 'remove': s_remove,
    'union': s_union, 'update': s_update, 'intersection': s_inter,
    'difference': s_diff, 'symmetric_difference': s_symdiff,
    'issubset': s_subset, 'issuperset': s_superset,
    'isdisjoint': s_disjoint, '__contains__': s_contains,
    'difference_update': s_diff_update,
    'intersection_update': s_inter_update, '__eq__': s_eq,
}


# ------------------------------------------------------------- operators

def veq(a, b):
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    if ta in SYMSET or tb in SYMSET:
        return a == b
    if ta is tb or (ta in (list, tuple, dict, set, frozenset) and
                    tb in (list, tuple, dict, set, frozenset)):
        if ta is list or ta is tuple:
            if tb is not ta:
                return False
            if len(a) != len(b):
                return False
            return sb_and([veq(x, y) for x, y in zip(a, b)])
        if ta is dict and tb is dict:
            if E.hashed or has_sym(a, 1) or has_sym(b, 1):
                return d_eq(a, b)
            if a.keys() != b.keys():
                return False
            return sb_and([veq(v, b[k]) for k, v in a.items()])
        if ta in (set, frozenset) and (E.hashed or has_sym(a) or
                                       has_sym(b)):
            return s_eq(a, b)
    if (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and
            type(a).__eq__ in (tuple.__eq__, list.__eq__) and
            type(b).__eq__ in (tuple.__eq__, list.__eq__)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        return sb_and([veq(x, y) for x, y in zip(a, b)])
    if (E.hashed and isinstance(a, dict) and isinstance(b, dict) and
            type(a).__eq__ is dict.__eq__ and type(b).__eq__ is dict.__eq__):
        return d_eq(a, b)
    return a == b


def vis(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
            return veq(a, b)
        return False
    return a is b


def visnot(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return vne(a, b) if (type(a) in (bool, SymBool) and
                             type(b) in (bool, SymBool)) else True
    return a is not b


def vne(a, b):
    ta, tb = type(a), type(b)
    if (ta in (list, tuple, dict, set, frozenset) and
            tb in (list, tuple, dict, set, frozenset)):
        return sb_not(veq(a, b))
    for c in (dict, list, tuple, set, frozenset):
        if isinstance(a, c) and isinstance(b, c):
            if (type(a).__ne__ is c.__ne__ and type(b).__ne__ is c.__ne__ and
                    type(a).__eq__ is c.__eq__ and
                    type(b).__eq__ is c.__eq__):
                return sb_not(veq(a, b))
            break
    return a != b


def vin(x, c):
    tc, tx = type(c), type(x)
    if tc is str or tc is SymStr:
        if tx is SymStr or tc is SymStr:
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left "
                                "operand, not %s" % type_of(x).__name__)
            if tc is str:
                if tx is SymStr and len(x) == 1:
                    return it_in(x.items[0], frozenset(map(ord, c)))
                c = mk_sym(tuple(map(ord, c)))
            return c.contains(x)
        return x in c
    if tc is bytes or tc is SymBytes or tc is SymByteArray:
        if tx in SYMSET or tc is not bytes:
            if tc is SymByteArray:
                c = c._b()
            if tc is bytes:
                if tx is SymInt and x.ch is not None:
                    return it_in(x.ch, frozenset(c))
                c = mk_bsym(tuple(c))
            return c.contains(x)
        return x in c
    if tc is list or tc is tuple or tc is collections.deque:
        if tx in SYMSET or has_sym(c):
            if tx is SymStr and len(x) == 1 and all(
                    type(y) is str for y in c):
                return it_in(x.items[0], frozenset(
                    ord(y) for y in c if len(y) == 1))
            return sb_or([True if y is x else veq(y, x) for y in c])
        return x in c
    if tc is dict or tc is set or tc is frozenset:
        if _fast(x):
            return x in c
        return key_in(c, x)
    if tc in _DVIEWS:
        if _fast(x):
            return x in c
        if tc is _DK or tc is _ODK:
            return key_in(list(c) if False else dict.fromkeys(()) if False
                          else _KeysProxy(c), x)
        return sb_or([veq(y, x) for y in c])
    if tc is range and tx is SymInt:
        if x.ch is not None:
            return it_in(x.ch, c)
        if c.step == 1:
            return sb_and([x >= c.start, x < c.stop])
    f = getattr(tc, '__contains__', None)
    if f is None:
        if tx in SYMSET:
            for y in c:
                if veq(y, x):
                    return True
            return False
        return x in c
    if type(f) is FunctionType:
        r = vc(f, c, x)
        return r if type(r) is SymBool else bool(r)
    if isinstance(c, dict):
        return d_contains(c, x)
    if isinstance(c, (set, frozenset)):
        return s_contains(c, x)
    if isinstance(c, (list, tuple)) and tx in SYMSET:
        return sb_or([veq(y, x) for y in c])
    if tx in SYMSET and not isinstance(c, types.GeneratorType):
        return conc(x) in c
    return x in c


class _KeysProxy(object):
    def __init__(self, k):
        self.k = k

    def __iter__(self):
        return iter(self.k)

    def __len__(self):
        return len(self.k)

    def __contains__(self, x):
        return x in self.k


_DK = type({}.keys())
_ODK = type(collections.OrderedDict().keys())
_DVIEWS = {_DK, _ODK, type({}.values()), type({}.items()),
           type(collections.OrderedDict().values()),
           type(collections.OrderedDict().items())}


def vnotin(x, c):
    return sb_not(vin(x, c))


def vmod(a, b):
    ta = type(a)
    if ta is SymStr or ta is SymBytes:
        return fmt.percent(a, b)
    if ta is str or ta is bytes:
        if type(b) in SYMSET or (type(b) in (tuple, dict) and has_sym(b)):
            return fmt.percent(a, b)
        if type(b) is tuple:
            for x in b:
                if not isinstance(x, (str, int, float, bytes, type(None))):
                    return fmt.percent(a, b)
            return a % b
        if isinstance(b, (str, int, float, bytes, dict, type(None))):
            if isinstance(b, dict) and has_sym(dict(b)):
                return fmt.percent(a, b)
            return a % b
        return fmt.percent(a, b)
    return a % b


def _setlike(a):
    return isinstance(a, (set, frozenset)) or type(a) in _DVIEWS


def vor(a, b):
    if type(a) in SYMSET or type(b) in SYMSET:
        if type(a) is SymBool or type(b) is SymBool:
            if type_of(a) is bool and type_of(b) is bool:
                return sb_or([a, b])
        return a | b
    if _setlike(a) and _setlike(b) and _slow_sets(a, b):
        return s_union(_mkset(a) if not isinstance(a, (set, frozenset))
                       else a, b)
    if (isinstance(a, dict) and isinstance(b, dict) and E.hashed and
            type(a).__or__ is dict.__or__):
        return d_or(a, b)
    return a | b


def vior(a, b):
    if isinstance(a, set) and E.hashed:
        s_update(a, b)
        return a
    if (isinstance(a, dict) and (E.hashed or has_sym(b)) and
            type(a).__ior__ is dict.__ior__):
        d_update(a, b)
        return a
    a |= b
    return a


def vand(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if type_of(a) is bool and type_of(b) is bool:
            return sb_and([a, b])
    if _setlike(a) and _setlike(b) and _slow_sets(a, b):
        return s_inter(a if isinstance(a, (set, frozenset)) else _mkset(a),
                       b)
    return a & b


def vxor(a, b):
    if _setlike(a) and _setlike(b) and _slow_sets(a, b):
        return s_symdiff(a if isinstance(a, (set, frozenset))
                         else _mkset(a), b)
    return a ^ b


def vsub(a, b):
    if _setlike(a) and _setlike(b) and _slow_sets(a, b):
        return s_diff(a if isinstance(a, (set, frozenset)) else _mkset(a),
                      b)
    return a - b


_SIMPLE = frozenset((int, str, bytes, bool, type(None)))


def vget(o, k):
    t = type(o)
    if t is dict:
        return d_getitem(o, k)
    if (t is list or t is tuple) and type(k) is SymInt and (
            k.ch is not None and len(o) <= 400):
        for x in o:
            if type(x) not in _SIMPLE:
                return o[k]
        n = len(o)
        if not _dec(sb_and([k < n, k >= -n])):
            raise IndexError('%s index out of range' % t.__name__)
        v = k.ch.var
        tab = k.ch.tab.vals
        return lift_vals(v, {i: o[tab[i]] for i in bits(E.masks[v.i])
                             if -n <= tab[i] < n})
    if t is list or t is tuple or t in SYMSET:
        return o[k]
    if t is str and type(k) is SymInt:
        return mk_sym(tuple(map(ord, o)))[k]
    if t is bytes and type(k) is SymInt and k.ch is not None and o:
        # table lookup
        n = len(o)
        ok = _dec(sb_and([k < n, k >= -n]))
        if not ok:
            raise IndexError('index out of range')
        return mk_int_ch(it_map(k.ch, ('idx', o), lambda i: o[i]
                                if -n <= i < n else core.UNDEF))
    if isinstance(o, dict):
        f = t.__getitem__
        if type(f) is not FunctionType:
            return d_getitem(o, k)
        return vc(f, o, k)
    f = getattr(t, '__getitem__', None)
    if type(f) is FunctionType:
        return vc(f, o, k)
    return o[k]


def vset(o, k, v):
    t = type(o)
    if t is dict:
        return d_setitem(o, k, v)
    if isinstance(o, dict):
        f = t.__setitem__
        if type(f) is not FunctionType:
            return d_setitem(o, k, v)
        return vc(f, o, k, v)
    o[k] = v


def vdel(o, k):
    t = type(o)
    if t is dict:
        return d_delitem(o, k)
    if isinstance(o, dict):
        f = t.__delitem__
        if type(f) is not FunctionType:
            return d_delitem(o, k)
        return vc(f, o, k)
    del o[k]


def vkw(d):
    if type(d) is dict and not E.hashed:
        return d
    out = {}
    for k in (d.keys() if isinstance(d, dict) else vm(d, 'keys')):
        out[conc(k) if type(k) in SYMSET else k] = vget(d, k)
    return out


def vfv(val, conv, spec):
    if conv == 115:
        val = fmt.to_str(val)
    elif conv == 114:
        val = repr(val)
    elif conv == 97:
        val = ascii(val)
    return fmt.format_value(val, spec)


def vfs(*parts):
    for p in parts:
        if type(p) is not str:
            return fmt.fstring(parts)
    return ''.join(parts)


def vmkset(items):
    if E.hashed or has_sym(items, 1):
        return _mkset(items)
    return set(items)


def vmkdict(items):
    d = {}
    for it in items:
        if len(it) == 1:
            d_update(d, it[0])
        else:
            d_setitem(d, it[0], it[1])
    return d


# ------------------------------------------------------------- calls

def vm(o, name, /, *a, **k):
    """method call o.name(*a, **k)"""
    t = type(o)
    if t in SYMSET:
        return getattr(o, name)(*a, **k)
    if t is str or t is bytes:
        return str_method(o, t, name, a, k)
    if t is list:
        if name == 'sort':
            if 'key' in k:
                k['key'] = wrap_c(k['key'])
        elif name in ('append', 'extend', 'insert', 'pop'):
            return getattr(o, name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is dict:
        h = DICT.get(name)
        if h is not None:
            return h(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is set or t is frozenset:
        h = SET.get(name)
        if h is not None and (E.hashed or has_sym(a)):
            return h(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        h = regex.METHODS.get(name)
        if h is not None and (has_sym(a) or has_sym(k)):
            return h(o, *a, **k)
        if h is not None and name in ('sub', 'subn') and a and callable(
                a[0]):
            return h(o, *a, **k)
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    return vc(f, *a, **k)


def str_method(o, t, name, a, k):
    if name == 'join' and len(a) == 1:
        p = a[0]
        if type(p) in (SymStr, SymBytes):
            parts = list(p)
        else:
            parts = list(p)
        for x in parts:
            if type(x) in SYMSET:
                w = mk_sym(tuple(map(ord, o))) if t is str else mk_bsym(
                    tuple(o))
                return w.join(parts)
        return o.join(parts)
    if a or k:
        if has_sym(a) or (k and has_sym(k)) or (
                name == 'format' and _fmt_objs(a, k)):
            w = mk_sym(tuple(map(ord, o))) if t is str else mk_bsym(
                tuple(o))
            return getattr(w, name)(*a, **k)
    return getattr(o, name)(*a, **k)


def _fmt_objs(a, k):
    for x in itertools.chain(a, k.values()):
        if not isinstance(x, (str, int, float, bytes, type(None))):
            return True
    return False


def wrap_c(f):
    """a C-level callable used as a callback: route it through the hooks"""
    if f is None or type(f) is FunctionType:
        return f
    if type(f) in (BuiltinType, CMethodType, MethodDesc, WrapperDesc, type,
                   MethodWrapper, ClassMethodDesc):
        return lambda *a, **k: vc(f, *a, **k)
    return f


def vc(f, /, *a, **k):
    t = type(f)
    if t is FunctionType:
        if '__symx__' in f.__globals__:
            return f(*a, **k)
        return call_py(f, a, k)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType:
            if '__symx__' in fn.__globals__:
                return f(*a, **k)
            return call_py(fn, (f.__self__,) + a, k, f)
        return f(*a, **k)
    if isinstance(f, type):
        return call_type(f, a, k)
    if t is BuiltinType or t is CMethodType:
        h = BUILTINS.get(f)
        if h is not None:
            return h(*a, **k)
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            return bound_c(f, s, f.__name__, a, k)
        return call_c(f, a, k)
    if t is MethodDesc or t is WrapperDesc:
        return unbound_c(f, a, k)
    if t is MethodWrapper:
        return bound_c(f, f.__self__, f.__name__, a, k)
    h = None
    try:
        h = BUILTINS.get(f)
    except (TypeError, EngineErr):
        pass
    if h is not None:
        return h(*a, **k)
    if t is functools.partial:
        return vc(f.func, *(f.args + a), **dict(f.keywords, **k))
    if t is _LRU:
        w = f.__wrapped__
        if type(w) is FunctionType and (has_sym(a) or has_sym(k)):
            if '__symx__' in w.__globals__:
                return w(*a, **k)
            return call_py(w, a, k)
        return f(*a, **k)
    if t in (operator.itemgetter, operator.attrgetter,
             operator.methodcaller):
        if t is operator.itemgetter:
            args = f.__reduce__()[1]
            r = tuple(vget(a[0], x) for x in args)
            return r[0] if len(args) == 1 else r
        if t is operator.methodcaller:
            red = f.__reduce__()
            if red[0] is operator.methodcaller:
                return vm(a[0], red[1][0], *red[1][1:])
        return f(*a, **k)
    c = getattr(t, '__call__', None)
    if type(c) is FunctionType:
        if '__symx__' in c.__globals__:
            return f(*a, **k)
        return call_py(c, (f,) + a, k)
    return f(*a, **k)


EngineErr = core.EngineExc
_LRU = type(functools.lru_cache(lambda: 0))


def call_py(f, a, k, bound=None):
    """an uninstrumented Python function"""
    h = PYFUNCS.get(f)
    if h is not None:
        return h(*a, **k)
    name = getattr(f, '__module__', None)
    if not name or name.startswith('symx'):
        return f(*a, **k)
    if name in _PUREMODS or has_sym(a, 2) or has_sym(k, 2):
        from . import instrument
        g = instrument.counterpart(f)
        if g is not None:
            return g(*a, **k)
        if name in ('_collections_abc',):
            return f(*a, **k)
    return f(*a, **k)


_PUREMODS = {'urllib.parse', '_collections_abc', 'email.utils',
             'email._parseaddr', 'posixpath', 'string', 'uuid', 'fnmatch',
             'mimetypes'}


def is_inst_class(c):
    for b in c.__mro__:
        for n in ('__init__', '__new__'):
            f = b.__dict__.get(n)
            if isinstance(f, staticmethod):
                f = f.__func__
            if type(f) is FunctionType and '__symx__' not in f.__globals__:
                return False
            if type(f) is FunctionType:
                return True
    return True


def call_type(f, a, k):
    h = TYPES.get(f)
    if h is not None:
        return h(*a, **k)
    if issubclass(f, BaseException) or f in TRANSPARENT_TYPES:
        return f(*a, **k)
    if type(f) is not type:
        # metaclass: look for a Python-level __call__
        mc = getattr(type(f), '__call__', None)
        if type(mc) is FunctionType:
            return f(*a, **k)
    if f.__flags__ & (1 << 9):         # heap type: defined in Python
        if issubclass(f, (dict, set, list, frozenset)) and (a or k) and not (
                _mro_names(f)):
            if issubclass(f, dict):
                o = f()
                d_update(o, *a, **k)
                return o
            if not issubclass(f, frozenset):
                o = f()
                if issubclass(f, set):
                    s_update(o, *a)
                else:
                    list.extend(o, *a)
                return o
        if not (has_sym(a) or has_sym(k)):
            return f(*a, **k)
        if is_inst_class(f):
            return f(*a, **k)
        return construct(f, a, k)
    if has_sym(a) or has_sym(k):
        return call_c(f, a, k)
    return f(*a, **k)


def _mro_names(c):
    out = set()
    for b in c.__mro__:
        if b in (dict, object, set, frozenset, list,
                 collections.OrderedDict):
            continue
        out.update(n for n in ('__init__', '__new__') if n in b.__dict__)
    return out


def construct(cls, a, k):
    new = cls.__new__
    if new is object.__new__:
        o = cls.__new__(cls)
    else:
        o = vc(new, cls, *a, **k)
    if isinstance(o, cls):
        init = type(o).__init__
        if type(init) is FunctionType:
            vc(init, o, *a, **k)
        elif init is not object.__init__:
            init(o, *a, **k)
    return o


def bound_c(f, s, name, a, k):
    t = type(s)
    if t in SYMSET:
        return f(*a, **k)
    if t is str or t is bytes:
        return str_method(s, t, name, a, k)
    if t is re.Pattern:
        h = regex.METHODS.get(name)
        if h is not None and (has_sym(a) or has_sym(k) or (
                name in ('sub', 'subn') and callable(a[0]))):
            return h(s, *a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        h = DICT.get(name)
        if h is not None:
            return h(s, *a, **k)
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        h = SET.get(name)
        if h is not None and (E.hashed or has_sym(a)):
            return h(s, *a, **k)
        return f(*a, **k)
    if isinstance(s, type):
        # class methods of builtins
        h = CLSMETH.get((s, name))
        if h is not None and (has_sym(a) or has_sym(k)):
            return h(*a, **k)
        if s is dict and name == 'fromkeys':
            return vmkdict([(x, a[1] if len(a) > 1 else None)
                            for x in a[0]])
        if name in ('__new__', '__init__', '__init_subclass__', 'mro',
                    '__subclasshook__', '__call__'):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return call_c(f, a, k)
        return f(*a, **k)
    if isinstance(s, (list, tuple, collections.deque, types.GeneratorType,
                      BaseException, types.CoroutineType)) or (
                          t.__module__ in _TRANSPARENT_MODS):
        return f(*a, **k)
    if isinstance(s, super) or name in ('__init__', '__new__', '__setattr__',
                                        '__init_subclass__', '__eq__',
                                        '__ne__', '__getattribute__',
                                        '__enter__', '__exit__'):
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        return call_c(f, a, k)
    return f(*a, **k)


_TRANSPARENT_MODS = {'itertools', 'functools', '_functools', 'operator',
                     '_operator', '_weakref', 'weakref', '_contextvars',
                     '_thread', '_collections'}


def unbound_c(f, a, k):
    owner = f.__objclass__
    name = f.__name__
    if not a:
        return f(*a, **k)
    s = a[0]
    if type(s) in SYMSET:
        if owner in (str, bytes, int, object, bytearray):
            m = getattr(s, name)
            return m(*a[1:], **k)
        return f(*a, **k)
    if owner is str or owner is bytes:
        return str_method(s if type(s) in (str, bytes) else owner(s),
                          owner, name, a[1:], k)
    if owner is dict or owner is collections.OrderedDict:
        h = DICT.get(name)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if owner in (set, frozenset):
        h = SET.get(name)
        if h is not None and (E.hashed or has_sym(a)):
            return h(*a, **k)
        return f(*a, **k)
    if owner in (list, tuple, object, collections.deque, type, super,
                 BaseException):
        return f(*a, **k)
    if owner is re.Pattern:
        return vm(s, name, *a[1:], **k)
    if has_sym(a) or has_sym(k):
        return call_c(f, a, k)
    return f(*a, **k)


def sym_vars(x, out):
    t = type(x)
    if t is SymStr or t is SymBytes or t is SymByteArray:
        for it in x.items:
            if type(it) is Ch:
                out.add(it.var)
    elif t is SymInt or t is SymFloat or t is SymBool:
        out.update(x.vs)
    elif t in (list, tuple, set, frozenset):
        for y in x:
            sym_vars(y, out)
    elif t is dict:
        for p in x.items():
            sym_vars(p, out)


def call_c(f, a, k):
    """a C function applied to symbolic arguments"""
    if f in TRANSPARENT or (
            getattr(f, '__name__', '') == '__init__' and
            issubclass(getattr(f, '__objclass__', int), BaseException)):
        return f(*a, **k)
    if not (has_sym(a) or has_sym(k)):
        return f(*a, **k)
    key = getattr(f, '__qualname__', repr(f))
    d = E.stats.setdefault('c_calls', {})
    d[key] = d.get(key, 0) + 1
    if not k and getattr(f, '__module__', None) in PURE_MODULES:
        r = lift_call(f, a)
        if r is not MISSING:
            return r
    # concretise by forking over every feasible value
    return f(*conc(a), **conc(k))


PURE_MODULES = {'unicodedata', '_codecs', 'math', 'binascii', 'zlib',
                '_struct', '_operator', 'time'}


def _only_var(x, seen):
    """collect the variables of x; False if they cannot be instantiated"""
    t = type(x)
    if t is SymStr or t is SymBytes:
        for i in x.items:
            if type(i) is Ch:
                seen.add(i.var)
        return True
    if t is SymInt:
        if x.ch is None:
            return False
        seen.add(x.ch.var)
        return True
    if t in SYMSET:
        return False
    if t is tuple or t is list:
        return all([_only_var(y, seen) for y in x])
    return not has_sym(x)


def _inst(x, i):
    t = type(x)
    if t is SymStr:
        return ''.join([chr(c.tab.vals[i]) if type(c) is Ch else chr(c)
                        for c in x.items])
    if t is SymBytes:
        return bytes([c.tab.vals[i] if type(c) is Ch else c
                      for c in x.items])
    if t is SymInt:
        return x.ch.tab.vals[i]
    if t is tuple or t is list:
        return t([_inst(y, i) for y in x])
    return x


class _Raise(object):
    def __init__(self, e):
        self.e = e


def lift_call(f, a):
    """a pure function of one finite-domain variable: tabulate it"""
    seen = set()
    if not _only_var(a, seen) or len(seen) != 1:
        return MISSING
    v, = seen
    vals = {}
    excs = {}
    for i in bits(E.masks[v.i]):
        try:
            vals[i] = f(*_inst(a, i))
        except Exception as e:
            key = type(e)
            if key not in excs:
                excs[key] = _Raise(e)
            vals[i] = excs[key]
    r = lift_vals(v, vals)
    if type(r) is _Raise:
        raise r.e
    return r


# ------------------------------------------------------------- builtins

def b_len(x):
    if type(x) in SYMSET:
        return len(x)
    sl = getattr(type(x), '__symlen__', None)
    if sl is not None:
        return sl(x)
    f = getattr(type(x), '__len__', None)
    if type(f) is FunctionType:
        r = vc(f, x)
        if type(r) is SymInt:
            return r
        return len(x) if type(r) is not int else r
    return len(x)


def b_str(*a, **k):
    if len(a) == 1 and not k:
        return fmt.to_str(a[0])
    if not a and not k:
        return ''
    if has_sym(a):
        x = a[0]
        if type(x) is SymBytes or type(x) is SymByteArray:
            enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
            err = a[2] if len(a) > 2 else k.get('errors', 'strict')
            return x.decode(enc, err)
        if type(x) is SymStr:
            raise TypeError('decoding str is not supported')
    return str(*a, **k)


def b_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if type(x) is SymStr:
        if len(a) == 1 and 'encoding' not in k:
            raise TypeError('string argument without an encoding')
        enc = a[1] if len(a) > 1 else k.get('encoding')
        err = a[2] if len(a) > 2 else k.get('errors', 'strict')
        return x.encode(enc, err)
    if type(x) is SymBytes:
        return x
    if type(x) is SymByteArray:
        return mk_bytes(tuple(x.items))
    if type(x) is SymInt:
        return bytes(conc(x))
    if isinstance(x, (str, int, bytes, bytearray, memoryview)):
        return bytes(*a, **k)
    f = getattr(type(x), '__bytes__', None)
    if f is not None:
        return vc(f, x)
    items = list(x)
    out = []
    for i in items:
        if type(i) is SymInt:
            out.append(i.ch if i.ch is not None else conc(i))
            if not _dec(sb_and([i >= 0, i <= 255])):
                raise ValueError('bytes must be in range(0, 256)')
        else:
            out.append(i)
    if any(type(i) is Ch for i in out):
        return mk_bytes(tuple(out))
    return bytes(out)


def b_bytearray(*a, **k):
    if not E.active:
        return bytearray(*a, **k)
    return SymByteArray(tuple(SymBytes._it(b_bytes(*a, **k))))


def _digit_val(c, base):
    ch = chr(c)
    try:
        v = int(ch, 36) if ord(ch) < 128 else int(ch)
    except ValueError:
        return None
    if v >= base:
        return None
    return v


def b_int(*a, **k):
    if not has_sym(a) and not has_sym(k):
        return int(*a, **k)
    x = a[0]
    base = conc(a[1]) if len(a) > 1 else conc(k.get('base', 10))
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return 1 if x else 0
    if type(x) is SymFloat:
        return int(conc(x))
    if type(x) in (SymBytes, SymByteArray):
        x = x.decode('latin-1')
    if type(x) is not SymStr:
        return int(conc(x), *a[1:], **k)
    return parse_int(x, base)


def parse_int(x, base=10):
    err = ValueError("invalid literal for int() with base %d" % base)
    if base not in (10, 16, 8, 2):
        return int(conc(x), base)
    s = x.strip()
    items = list(SymStr._it(s))
    if not items:
        raise err
    neg = False
    b = it_in(items[0], frozenset((43, 45)), 'sign')
    if _dec(b):
        neg = _dec(it_eq(items[0], 45))
        items.pop(0)
    if base != 10 and len(items) >= 2:
        # optional prefix
        p = {16: 'xX', 8: 'oO', 2: 'bB'}[base]
        if _dec(sb_and([it_eq(items[0], 48),
                        it_in(items[1], frozenset(map(ord, p)))])):
            items = items[2:]
            if items and _dec(it_eq(items[0], 95)):
                items.pop(0)
    digits = []
    prev = False
    for n, it in enumerate(items):
        isd = it_pred(it, ('isdig', base),
                      lambda c: _digit_val(c, base) is not None)
        if _dec(isd):
            digits.append(it_map(
                it, ('digval', base),
                lambda c: v if (v := _digit_val(c, base)) is not None
                else core.UNDEF))
            prev = True
        else:
            us = it_eq(it, 95)
            if not (prev and _dec(us)) or n == len(items) - 1:
                raise err
            prev = False
    if not digits:
        raise err
    if len(digits) > 4300:
        raise ValueError('Exceeds the limit (4300 digits)')
    if all(type(d) is int for d in digits):
        v = 0
        for d in digits:
            v = v * base + d
        return -v if neg else v
    if len(digits) == 1:
        r = mk_int_ch(digits[0])
    else:
        z = z3.IntVal(0)
        vs = set()
        for d in digits:
            z = z * base + V.it_z(d)
            if type(d) is Ch:
                vs.add(d.var)
        if len(vs) == 1:
            # several digits of one variable: table form
            var = next(iter(vs))
            vals = []
            for i in range(var.dom.n):
                v = 0
                for d in digits:
                    dv = d if type(d) is int else d.tab.vals[i]
                    if dv == core.UNDEF:
                        v = core.UNDEF
                        break
                    v = v * base + dv
                vals.append(v)
            r = mk_int_ch(Ch(var, var.dom.tab(tuple(vals))))
        else:
            r = V.mk_int_z(z, vs)
            if type(r) is SymInt:
                r.digits = (base, tuple(digits))
    return -r if neg else r


def b_float(*a):
    if not has_sym(a):
        return float(*a)
    x = a[0]
    if type(x) is SymFloat:
        return x
    if type(x) is not SymStr:
        return float(conc(x))
    s = x.strip()
    if type(s) is not SymStr:
        return float(s)
    items = s.items
    # decide the shape: digits[.digits]; anything else becomes concrete
    digs = []
    point = None
    for i, it in enumerate(items):
        if _dec(it_pred(it, 'adigit', lambda c: 48 <= c <= 57)):
            digs.append(it_map(it, 'dval', lambda c: c - 48 if 48 <= c <= 57
                               else core.UNDEF))
        elif point is None and _dec(it_eq(it, 46)):
            point = len(digs)
        else:
            return float(conc(s))
    if not digs or len(digs) > 12:
        return float(conc(s))
    z = z3.IntVal(0)
    vs = set()
    for d in digs:
        z = z * 10 + V.it_z(d)
        if type(d) is Ch:
            vs.add(d.var)
    frac = len(digs) - point if point is not None else 0
    if not vs:
        return float(conc(s))
    return SymFloat(z3.simplify(z3.ToReal(z) / z3.RealVal(10 ** frac)),
                    frozenset(vs), s)


def b_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return a[0] != 0
    return bool(*a)


def b_type(*a, **k):
    if len(a) == 1 and not k:
        return type_of(a[0])
    return type(*a, **k)


def b_ord(x):
    if type(x) is SymStr or type(x) is SymBytes:
        if len(x) != 1:
            raise TypeError('ord() expected a character, but string of '
                            'length %d found' % len(x))
        return mk_int_ch(x.items[0])
    return ord(x)


def b_chr(x):
    if type(x) is SymInt:
        if x.ch is None:
            return chr(conc(x))
        if not _dec(sb_and([x >= 0, x <= 0x10ffff])):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk_str((x.ch,))
    return chr(x)


def b_repr(x):
    return repr(x)


def b_format(x, spec=''):
    if type(x) in SYMSET or type(spec) in SYMSET:
        return fmt.format_value(x, spec)
    return format(x, spec)


def b_hash(x):
    return hash(conc(x)) if has_sym(x) else hash(x)


def b_set(*a):
    if a and (E.active):
        return _mkset(a[0])
    return set(*a)


def b_frozenset(*a):
    if a and E.active:
        if type(a[0]) is frozenset:
            return a[0]
        return frozenset(_mkset(a[0]))
    return frozenset(*a)


def b_dict(*a, **k):
    if not E.active:
        return dict(*a, **k)
    d = {}
    d_update(d, *a, **k)
    return d


def b_getattr(o, name, *d):
    return getattr(o, conc(name), *d)


def b_hasattr(o, name):
    return hasattr(o, conc(name))


def b_setattr(o, name, v):
    return setattr(o, conc(name), v)


def b_sorted(it, **k):
    if k.get('key') is not None:
        k['key'] = wrap_c(k['key'])
    return sorted(it, **k)


def b_map(f, *its):
    return map(wrap_c(f), *its)


def b_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(wrap_c(f), it)


def b_min(*a, **k):
    if k.get('key') is not None:
        k['key'] = wrap_c(k['key'])
    return _minmax(min, a, k)


def b_max(*a, **k):
    if k.get('key') is not None:
        k['key'] = wrap_c(k['key'])
    return _minmax(max, a, k)


def _minmax(fn, a, k):
    if not k and len(a) == 2 and (type(a[0]) is SymInt or
                                  type(a[1]) is SymInt):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            c = (y < x) if fn is min else (y > x)
            if type(c) is not SymBool:
                return y if c else x
            xs = x.z if type(x) is SymInt else z3.IntVal(int(x))
            ys = y.z if type(y) is SymInt else z3.IntVal(int(y))
            vs = (x.vs if type(x) is SymInt else frozenset()) | (
                y.vs if type(y) is SymInt else frozenset())
            return V.mk_int_z(z3.If(c.expr, ys, xs), vs)
    return fn(*a, **k)


def b_hexlike(fn, key):
    def h(x):
        if type(x) is SymInt:
            return fmt.int_str(x, fn, key)
        return fn(x)
    return h


def b_reduce(f, *a):
    return functools.reduce(wrap_c(f), *a)


def b_iter(*a):
    return iter(*a)


def b_isinstance(o, t):
    return isinstance(o, t)


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_range(*a):
    if has_sym(a):
        a = [conc(x) if type(x) in SYMSET else x for x in a]
    return range(*a)


def b_lru(*a, **k):
    """functools.lru_cache: a symbolic-aware memo, cleared per path"""
    if a and callable(a[0]):
        return SymLru(a[0])
    return SymLru


_LRUS = []


class SymLru(object):
    def __init__(self, f):
        self.__wrapped__ = f
        self.entries = []
        functools.update_wrapper(self, f)
        _LRUS.append(self)

    def __call__(self, *a, **k):
        for (a2, k2, r) in self.entries:
            if len(a) == len(a2) and all(
                    type_of(x) is type_of(y) for x, y in zip(a, a2)) and (
                        _dec(veq(a, a2)) and _dec(veq(k, k2))):
                return r
        r = self.__wrapped__(*a, **k)
        self.entries.append((a, k, r))
        return r

    def __get__(self, o, t=None):
        if o is None:
            return self
        return MethodType(self, o)

    def cache_clear(self):
        self.entries = []

    def cache_info(self):
        return None


def reset_path_state():
    for c in _LRUS:
        c.entries = []


BUILTINS = {
    len: b_len, ord: b_ord, chr: b_chr, repr: b_repr, format: b_format,
    hash: b_hash, getattr: b_getattr, hasattr: b_hasattr,
    setattr: b_setattr, sorted: b_sorted, min: b_min, max: b_max,
    functools.reduce: b_reduce, isinstance: b_isinstance, all: b_all,
    any: b_any, sum: b_sum, hex: b_hexlike(hex, 'hex'),
    oct: b_hexlike(oct, 'oct'), bin: b_hexlike(bin, 'bin'),
}
TYPES = {
    str: b_str, bytes: b_bytes, bytearray: b_bytearray, int: b_int,
    float: b_float, bool: b_bool, type: b_type, set: b_set,
    frozenset: b_frozenset, dict: b_dict, map: b_map, filter: b_filter,
    range: b_range,
}
TRANSPARENT_TYPES = {list, tuple, enumerate, zip, reversed, object, property,
                     staticmethod, classmethod, super, slice,
                     collections.deque, functools.partial,
                     types.SimpleNamespace, memoryview,
                     itertools.chain, itertools.islice, itertools.repeat,
                     itertools.takewhile, itertools.dropwhile,
                     itertools.groupby, itertools.product,
                     itertools.starmap, itertools.zip_longest,
                     itertools.count, itertools.cycle, itertools.accumulate,
                     itertools.permutations, itertools.combinations,
                     types.MethodType, types.MappingProxyType}
TRANSPARENT = {isinstance, issubclass, iter, next, callable, id, print,
               delattr, vars, divmod, abs, all, any, operator.eq,
               operator.ne, operator.lt, operator.le, operator.gt,
               operator.ge, operator.add, operator.not_, operator.truth,
               operator.is_, operator.is_not, operator.and_, operator.or_,
               object.__new__, tuple.__new__, list.__new__, dict.__new__,
               BaseException.__new__}
CLSMETH = {}
PYFUNCS = {}


def _eqop(a, b):
    return veq(a, b)


def b_fspath(x):
    if type(x) in SYMSET:
        return x
    return os.fspath(x)


BUILTINS[os.fspath] = b_fspath
BUILTINS[operator.eq] = veq
BUILTINS[operator.ne] = vne
BUILTINS[operator.contains] = lambda c, x: vin(x, c)
BUILTINS[operator.getitem] = vget
BUILTINS[operator.mod] = vmod
BUILTINS[operator.index] = lambda x: x if type(x) is SymInt else (
    operator.index(x))


def re_func(name):
    h = regex.METHODS[name]

    def fn(pattern, *a, **k):
        flags = k.pop('flags', 0)
        n = {'sub': 2, 'subn': 2, 'split': 1}.get(name)
        if type(pattern) is not re.Pattern:
            p = re.compile(conc(pattern), flags)
        else:
            p = pattern
        if has_sym(a) or (name in ('sub', 'subn') and callable(a[0])):
            return h(p, *a, **k)
        return getattr(p, name)(*a, **k)

    def fn2(pattern, string, flags=0):
        return fn(pattern, string, flags=flags)
    if name in ('match', 'fullmatch', 'search', 'findall', 'finditer'):
        return fn2
    return fn


PYFUNCS[functools.lru_cache] = b_lru
PYFUNCS[functools.cache] = SymLru
for _n in regex.METHODS:
    PYFUNCS[getattr(re, _n)] = re_func(_n)


def re_escape(p):
    if type(p) in (SymStr, SymBytes):
        special = frozenset(b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f')
        out = []
        for it in p.items:
            if _dec(it_in(it, special, 'reesc')):
                out.append(92)
            out.append(it)
        return p._mk(tuple(out))
    return re.escape(p)


PYFUNCS[re.escape] = re_escape
PYFUNCS[re.compile] = lambda p, flags=0: re.compile(
    conc(p), flags) if type(p) in SYMSET else re.compile(p, flags)

import copy as _copy          # noqa: E402


def c_copy(x):
    if has_sym(x, 1) and type(x) in SYMSET:
        return x
    return _copy.copy(x)


HOOKS = {
    '__vc__': vc, '__vm__': vm, '__vin__': vin, '__vnotin__': vnotin,
    '__veq__': veq, '__vne__': vne, '__vis__': vis, '__visnot__': visnot,
    '__vmod__': vmod, '__vor__': vor,
    '__vior__': vior, '__vand__': vand, '__vxor__': vxor, '__vsub__': vsub,
    '__vget__': vget, '__vset__': vset, '__vdel__': vdel, '__vkw__': vkw,
    '__vfv__': vfv, '__vfs__': vfs, '__vmkset__': vmkset,
    '__vmkdict__': vmkdict,
}
