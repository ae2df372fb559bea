"""Regular expressions over symbolic strings.

A backtracking matcher over CPython's own parse tree (re._parser), with the
same priorities as the C engine; each character test is a z3-backed decision.
"""
import re
import re._parser as sre_parse
import re._constants as C
from .core import E, Gap, sb_and, sb_or, sb_not
from . import values as V
from .values import (SymStr, SymBytes, Ch, it_eq, it_in, it_pred, it_multi,
                     mk_str, mk_bytes, mk_sym, mk_bsym, SYMSET)

_TREES = {}


def tree_of(pat):
    k = (pat.pattern, pat.flags)
    t = _TREES.get(k)
    if t is None:
        flags = pat.flags
        p = sre_parse.parse(pat.pattern, flags)
        t = _TREES[k] = p
    return t


def _dec(b):
    return b is True or (b is not False and E.decide(b))


def _isword(c):
    return chr(c) == '_' or chr(c).isalnum()


def _awrd(c):
    return c < 128 and _isword(c)


def _cat(cat, flags, isb):
    """(key, predicate) for a character category"""
    asc = isb or flags & re.ASCII
    n = str(cat)
    neg = 'NOT' in n
    if 'DIGIT' in n:
        base = (lambda c: 48 <= c <= 57) if asc else (
            lambda c: chr(c).isdecimal())
    elif 'SPACE' in n:
        base = (lambda c: c in (32, 9, 10, 11, 12, 13)) if asc else (
            lambda c: chr(c).isspace())
    elif 'WORD' in n:
        base = _awrd if asc else _isword
    else:
        raise Gap('regex category %s' % n)
    key = ('cat', n, bool(asc))
    if neg:
        return key, lambda c: not base(c)
    return key, base


class Matcher(object):
    def __init__(self, pat, items, end, isb):
        self.items = items
        self.end = end
        self.isb = isb
        self.tree = tree_of(pat)
        self.flags = self.tree.state.flags | (pat.flags & ~0)
        self.groups = [None] * (self.tree.state.groups)
        self.lastindex = None

    # matching in continuation-passing style: k(pos) -> bool
    def seq(self, nodes, i, pos, k):
        while True:
            if i >= len(nodes):
                return k(pos)
            op, av = nodes[i]
            # fast path for plain characters
            if op is C.LITERAL or op is C.NOT_LITERAL or op is C.IN or (
                    op is C.ANY):
                if pos >= self.end:
                    return False
                if not _dec(self.char(op, av, self.items[pos])):
                    return False
                pos += 1
                i += 1
                continue
            return self.node(op, av, pos,
                             lambda p, i=i: self.seq(nodes, i + 1, p, k))

    def char(self, op, av, it):
        ic = self.flags & re.IGNORECASE
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return True
            return sb_not(it_eq(it, 10))
        if op is C.LITERAL:
            if ic:
                return self._ic(it, ('lit', av), lambda c: c == av)
            return it_eq(it, av)
        if op is C.NOT_LITERAL:
            if ic:
                return sb_not(self._ic(it, ('lit', av), lambda c: c == av))
            return sb_not(it_eq(it, av))
        key = ('in', repr(av), self.isb, bool(self.flags & re.ASCII))
        fn = self._set(av)
        if ic:
            return self._ic(it, key, fn)
        return it_pred(it, key, fn)

    def _ic(self, it, key, fn):
        asc = self.isb or self.flags & re.ASCII

        def test(c):
            if fn(c):
                return True
            if asc:
                if c < 128:
                    ch = chr(c)
                    return fn(ord(ch.lower())) or fn(ord(ch.upper()))
                return False
            ch = chr(c)
            for v in {ch.lower(), ch.upper(), ch.casefold(),
                      ch.upper().lower()}:
                if len(v) == 1 and fn(ord(v)):
                    return True
            return False
        return it_pred(it, ('ic', key, bool(asc)), test)

    def _set(self, av):
        tests = []
        neg = False
        for op, a in av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                tests.append(lambda c, a=a: c == a)
            elif op is C.RANGE:
                tests.append(lambda c, a=a: a[0] <= c <= a[1])
            elif op is C.CATEGORY:
                tests.append(_cat(a, self.flags, self.isb)[1])
            else:
                raise Gap('regex set %s' % op)

        def fn(c):
            return any(t(c) for t in tests) != neg
        return fn

    def node(self, op, av, pos, k):
        if op is C.SUBPATTERN:
            group, add, dele, p = av
            of = self.flags
            nf = (of | add) & ~dele
            if group is None:
                if nf != of:
                    self.flags = nf

                    def k3(q):
                        self.flags = of
                        r = k(q)
                        self.flags = nf
                        return r
                    r = self.seq(p, 0, pos, k3)
                    self.flags = of
                    return r
                return self.seq(p, 0, pos, k)
            old = self.groups[group]
            oldl = self.lastindex

            def k2(q):
                o2 = self.groups[group]
                ol = self.lastindex
                self.groups[group] = (pos, q)
                self.lastindex = group
                if k(q):
                    return True
                self.groups[group] = o2
                self.lastindex = ol
                return False
            if self.seq(p, 0, pos, k2):
                return True
            self.groups[group] = old
            self.lastindex = oldl
            return False
        if op is C.BRANCH:
            for p in av[1]:
                if self.seq(p, 0, pos, k):
                    return True
            return False
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT or (
                op is getattr(C, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            if op is getattr(C, 'POSSESSIVE_REPEAT', 0):
                n = 0
                while n < hi:
                    box = []

                    def kk(q):
                        box.append(q)
                        return True
                    if not self.seq(p, 0, pos, kk) or box[0] == pos:
                        break
                    pos = box[0]
                    n += 1
                return n >= lo and k(pos)
            if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN,
                                           C.ANY):
                return self.repeat1(p[0], lo, hi, pos, k,
                                    op is C.MAX_REPEAT)
            return self.repeat(p, lo, hi, pos, k, op is C.MAX_REPEAT, 0, -1)
        if op is C.AT:
            if not _dec(self.at(av, pos)):
                return False
            return k(pos)
        if op is C.ASSERT or op is C.ASSERT_NOT:
            direction, p = av
            start = pos
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Gap('look-behind width')
                start = pos - lo
            save = list(self.groups)
            ok = start >= 0 and self.seq(
                p, 0, start, (lambda q: q == pos) if direction < 0 else
                (lambda q: True))
            if op is C.ASSERT_NOT:
                self.groups = save
                return (not ok) and k(pos)
            if not ok:
                self.groups = save
                return False
            if k(pos):
                return True
            self.groups = save
            return False
        if op is C.GROUPREF:
            g = self.groups[av]
            if g is None:
                return False
            n = g[1] - g[0]
            if pos + n > self.end:
                return False
            b = V.items_eq(self.items[g[0]:g[1]], self.items[pos:pos + n])
            if not _dec(b):
                return False
            return k(pos + n)
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            if self.groups[g] is not None:
                return self.seq(yes, 0, pos, k)
            if no:
                return self.seq(no, 0, pos, k)
            return k(pos)
        if op is getattr(C, 'ATOMIC_GROUP', None):
            box = []

            def kk(q):
                box.append(q)
                return True
            if not self.seq(av, 0, pos, kk):
                return False
            return k(box[0])
        if op is C.CATEGORY:
            if pos >= self.end:
                return False
            key, fn = _cat(av, self.flags, self.isb)
            return _dec(it_pred(self.items[pos], key, fn)) and k(pos + 1)
        if op is C.FAILURE:
            return False
        raise Gap('regex op %s' % op)

    def repeat1(self, node, lo, hi, pos, k, greedy):
        op, av = node
        n = 0
        if greedy:
            q = pos
            while (hi is C.MAXREPEAT or n < hi) and q < self.end:
                if not _dec(self.char(op, av, self.items[q])):
                    break
                q += 1
                n += 1
            while n >= lo:
                if k(q):
                    return True
                q -= 1
                n -= 1
            return False
        q = pos
        while True:
            if n >= lo and k(q):
                return True
            if (hi is not C.MAXREPEAT and n >= hi) or q >= self.end:
                return False
            if not _dec(self.char(op, av, self.items[q])):
                return False
            q += 1
            n += 1

    def repeat(self, p, lo, hi, pos, k, greedy, n, last):
        def more(q):
            # an empty iteration ends the loop (as in sre)
            if q == pos and n >= lo:
                return False
            return self.repeat(p, lo, hi, q, k, greedy, n + 1, pos)
        if n < lo:
            return self.seq(p, 0, pos, more)
        canmore = hi is C.MAXREPEAT or n < hi
        if greedy:
            if canmore:
                save = list(self.groups)
                if self.seq(p, 0, pos, more):
                    return True
                self.groups = save
            return k(pos)
        if k(pos):
            return True
        return canmore and self.seq(p, 0, pos, more)

    def word(self, pos):
        if pos < 0 or pos >= len(self.items):
            return False
        asc = self.isb or self.flags & re.ASCII
        return it_pred(self.items[pos], ('w', bool(asc)),
                       _awrd if asc else _isword)

    def at(self, av, pos):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                return pos == 0 or it_eq(self.items[pos - 1], 10)
            return pos == 0
        if av is C.AT_END_STRING:
            return pos == self.end
        if av is C.AT_END:
            if pos == self.end:
                return True
            if self.flags & re.MULTILINE:
                return it_eq(self.items[pos], 10)
            if pos == self.end - 1:
                return it_eq(self.items[pos], 10)
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = self.word(pos - 1)
            b = self.word(pos)
            a = _dec(a)
            b = _dec(b)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Gap('regex at %s' % av)


class SymMatch(object):
    __class__ = property(lambda self: re.Match)

    def __init__(self, pat, string, items, isb, m, start, end, pos, endpos):
        self.re = pat
        self.string = string
        self._items = items
        self._isb = isb
        self.pos = pos
        self.endpos = endpos
        self._g = [(start, end)] + [g for g in m.groups[1:]]
        self.lastindex = m.lastindex

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    def _idx(self, g):
        if type(g) in SYMSET:
            g = V.conc(g)
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        if not 0 <= g < len(self._g):
            raise IndexError('no such group')
        return g

    def _get(self, i, default=None):
        s = self._g[i]
        if s is None:
            return default
        return (mk_bytes if self._isb else mk_str)(self._items[s[0]:s[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(self._idx(gs[0]))
        return tuple(self._get(self._idx(g)) for g in gs)

    def __getitem__(self, g):
        return self._get(self._idx(g))

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self._g)))

    def groupdict(self, default=None):
        return {n: self._get(i, default)
                for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        s = self._g[self._idx(g)]
        return -1 if s is None else s[0]

    def end(self, g=0):
        s = self._g[self._idx(g)]
        return -1 if s is None else s[1]

    def span(self, g=0):
        s = self._g[self._idx(g)]
        return (-1, -1) if s is None else s

    def expand(self, template):
        return _expand(self, template)

    @property
    def regs(self):
        return tuple((-1, -1) if g is None else g for g in self._g)


def _items(pat, string):
    if type(string) is SymStr:
        isb = False
    elif type(string) is SymBytes:
        isb = True
    elif isinstance(string, str):
        return SymStr._it(string), False
    elif isinstance(string, (bytes, bytearray)):
        return tuple(string), True
    else:
        raise TypeError('expected string or bytes-like object')
    if isb != isinstance(pat.pattern, bytes):
        raise TypeError('cannot use a %s pattern on a %s-like object' % (
            ('string', 'bytes') if isb else ('bytes', 'string')))
    return string.items, isb


def _bounds(items, pos, endpos):
    n = len(items)
    pos = min(max(V.conc(pos), 0), n)
    endpos = n if endpos is None else min(max(V.conc(endpos), 0), n)
    return pos, endpos


def _at(pat, string, items, isb, start, pos, endpos, full=False,
        notempty=False):
    m = Matcher(pat, items, endpos, isb)
    box = []

    def k(q):
        if full and q != endpos:
            return False
        if notempty and q == start:
            return False
        box.append(q)
        return True
    if m.seq(m.tree, 0, start, k):
        return SymMatch(pat, string, items, isb, m, start, box[0], pos,
                        endpos)
    return None


def match(pat, string, pos=0, endpos=None):
    items, isb = _items(pat, string)
    pos, endpos = _bounds(items, pos, endpos)
    if pos > endpos:
        return None
    return _at(pat, string, items, isb, pos, pos, endpos)


def fullmatch(pat, string, pos=0, endpos=None):
    items, isb = _items(pat, string)
    pos, endpos = _bounds(items, pos, endpos)
    if pos > endpos:
        return None
    return _at(pat, string, items, isb, pos, pos, endpos, full=True)


def search(pat, string, pos=0, endpos=None):
    items, isb = _items(pat, string)
    pos, endpos = _bounds(items, pos, endpos)
    for s in range(pos, endpos + 1):
        m = _at(pat, string, items, isb, s, pos, endpos)
        if m is not None:
            return m
    return None


def finditer(pat, string, pos=0, endpos=None):
    items, isb = _items(pat, string)
    pos, endpos = _bounds(items, pos, endpos)
    s = pos
    notempty = False
    while s <= endpos:
        m = _at(pat, string, items, isb, s, pos, endpos, notempty=notempty)
        if m is None:
            s += 1
            notempty = False
            continue
        yield m
        a, b = m.span()
        # as sre: after a match continue at its end; an empty match is not
        # allowed at the position where the previous match ended
        s = b
        notempty = True


def findall(pat, string, pos=0, endpos=None):
    out = []
    for m in finditer(pat, string, pos, endpos):
        g = m.groups('' if not m._isb else b'')
        if not g:
            out.append(m.group())
        elif len(g) == 1:
            out.append(g[0])
        else:
            out.append(g)
    return out


def _expand(m, template):
    t = V.conc(template)
    parsed = sre_parse.parse_template(t, m.re)
    out = []
    for x in parsed:
        if isinstance(x, int):
            g = m._get(x)
            if g is not None:
                out.append(g)
        elif x:
            out.append(x)
    j = mk_bsym(()) if m._isb else mk_sym(())
    return j.join(out)


def subn(pat, repl, string, count=0):
    items, isb = _items(pat, string)
    mk = mk_bytes if isb else mk_str
    out = []
    last = 0
    n = 0
    cb = callable(repl)
    if not cb:
        literal = not (type(repl) in (str, bytes) and
                       ('\\' if isinstance(repl, str) else b'\\') in repl)
    for m in finditer(pat, string):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(items[last:a])
        if cb:
            from .hooks import vc
            r = vc(repl, m)
        elif literal and type(repl) not in SYMSET:
            r = repl
        elif type(repl) in SYMSET:
            rc = repl
            b2 = rc.contains('\\' if not isb else b'\\')
            if _dec(b2):
                r = _expand(m, repl)
            else:
                r = repl
        else:
            r = _expand(m, repl)
        it = (SymBytes if isb else SymStr)._it(r)
        if it is None:
            raise TypeError('sequence item: expected str instance')
        out.extend(it)
        last = b
        n += 1
    out.extend(items[last:])
    return mk(tuple(out)), n


def sub(pat, repl, string, count=0):
    return subn(pat, repl, string, count)[0]


def split(pat, string, maxsplit=0):
    items, isb = _items(pat, string)
    mk = mk_bytes if isb else mk_str
    out = []
    last = 0
    n = 0
    for m in finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(mk(items[last:a]))
        out.extend(m.groups())
        last = b
        n += 1
    out.append(mk(items[last:]))
    return out


METHODS = {
    'match': match, 'fullmatch': fullmatch, 'search': search,
    'finditer': finditer, 'findall': findall, 'sub': sub, 'subn': subn,
    'split': split,
}
