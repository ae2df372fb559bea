"""symx core: path state, finite-domain variables, z3-backed decisions.

A *path* is one execution of a harness over symbolic inputs.  Every time the
executed code needs the truth value of a symbolic boolean, ``decide`` asks z3
which outcomes are feasible under the path condition; when both are, the path
forks (the other branch is queued as a decision prefix and re-executed).
"""
import os
import sys
import time
import z3

z3.set_param('smt.random_seed', 1)


class EngineExc(BaseException):
    """Engine control flow: never caught by the code under analysis."""


class PathAbort(EngineExc):
    """The path condition became unsatisfiable (an assumption failed)."""


class Gap(EngineExc):
    """Something the engine cannot encode; the path is inconclusive."""


class BudgetExceeded(EngineExc):
    pass


# ---------------------------------------------------------------- domains

class Dom(object):
    """A finite domain: a sorted tuple of ints."""
    _cache = {}

    def __init__(self, vals):
        self.vals = vals
        self.n = len(vals)
        self.full = (1 << self.n) - 1
        self.tabs = {}
        self.ident = Tab(self, vals)
        self.tabs[vals] = self.ident
        self.exprs = {}
        self.umemo = {}

    @classmethod
    def get(cls, vals):
        vals = tuple(sorted(set(vals)))
        d = cls._cache.get(vals)
        if d is None:
            d = cls._cache[vals] = cls(vals)
        return d

    def tab(self, vals):
        t = self.tabs.get(vals)
        if t is None:
            t = self.tabs[vals] = Tab(self, vals)
        return t

    def mask_expr(self, zv, mask):
        """z3 formula: the value of zv is one of the masked elements."""
        key = (zv.get_id(), mask)
        e = self.exprs.get(key)
        if e is None:
            parts = []
            i = 0
            n = self.n
            vals = self.vals
            while i < n:
                if mask >> i & 1:
                    j = i
                    while (j + 1 < n and mask >> (j + 1) & 1 and
                           vals[j + 1] == vals[j] + 1):
                        j += 1
                    if i == j:
                        parts.append(zv == vals[i])
                    else:
                        parts.append(z3.And(zv >= vals[i], zv <= vals[j]))
                    i = j + 1
                else:
                    i += 1
            if not parts:
                e = z3.BoolVal(False)
            elif len(parts) == 1:
                e = parts[0]
            else:
                e = z3.Or(*parts)
            self.exprs[key] = e
        return e


UNDEF = -(1 << 60)      # table entry outside the mask it was built for


class Tab(object):
    """A total function from a domain to ints, as a table."""
    __slots__ = ('dom', 'vals', 'inv', 'derived')

    def __init__(self, dom, vals):
        self.dom = dom
        self.vals = vals
        inv = {}
        for i, v in enumerate(vals):
            inv[v] = inv.get(v, 0) | (1 << i)
        self.inv = inv
        self.derived = {}

    def pmask(self, key, pred):
        m = self.derived.get(key)
        if m is None:
            m = 0
            for v, vm in self.inv.items():
                if v != UNDEF and pred(v):
                    m |= vm
            self.derived[key] = m
        return m

    def map(self, key, fn):
        t = self.derived.get(key)
        if t is None:
            t = self.dom.tab(tuple([
                v if v == UNDEF else fn(v) for v in self.vals]))
            self.derived[key] = t
        return t


class Var(object):
    __slots__ = ('i', 'name', 'dom', 'z', 'lo', 'hi')

    def __init__(self, i, name, dom, lo=None, hi=None):
        self.i = i
        self.name = name
        self.dom = dom
        self.lo = lo
        self.hi = hi
        z = _ZVARS.get(i)
        if z is None:
            z = _ZVARS[i] = z3.Int('v%d' % i)
        self.z = z

    def domain_expr(self):
        if self.dom is not None:
            return self.dom.mask_expr(self.z, self.dom.full)
        parts = []
        if self.lo is not None:
            parts.append(self.z >= self.lo)
        if self.hi is not None:
            parts.append(self.z <= self.hi)
        return z3.And(*parts) if parts else z3.BoolVal(True)


_ZVARS = {}


def bits(mask):
    i = 0
    while mask:
        low = mask & -mask
        i = low.bit_length() - 1
        yield i
        mask ^= low


# ---------------------------------------------------------------- booleans

PROFILE = bool(os.environ.get('SYMX_PROFILE'))


def _profile(st):
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 3:
        n = f.f_code.co_filename
        if '/symx/' not in n or 'run.py' in n:
            out.append('%s:%d' % (n.rsplit('/', 1)[-1], f.f_lineno))
        elif not out or '/' not in out[-1]:
            if len(out) < 1:
                out.append('/' + f.f_code.co_name)
        f = f.f_back
    d = st.setdefault('profile', {})
    k = ' < '.join(out)
    d[k] = d.get(k, 0) + 1


class SymBool(object):
    """Symbolic truth value.

    conj: tuple of (Var, mask) meaning the conjunction (or None)
    expr: z3 BoolRef (lazily built for conj form)
    vs:   frozenset of Vars
    """
    __slots__ = ('conj', '_expr', 'vs', 'negof')

    def __init__(self, conj=None, expr=None, vs=None, negof=None):
        self.conj = conj
        self._expr = expr
        if vs is None:
            vs = frozenset(v for v, _ in conj)
        self.vs = vs
        self.negof = negof

    __class__ = property(lambda self: bool)

    @property
    def expr(self):
        e = self._expr
        if e is None:
            if self.conj is not None:
                ps = [v.dom.mask_expr(v.z, m) for v, m in self.conj]
                e = ps[0] if len(ps) == 1 else z3.And(*ps)
            else:
                e = z3.Not(self.negof.expr)
            self._expr = e
        return e

    def __bool__(self):
        return E.decide(self)

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):          # only used by the engine
        return sb_not(self)

    def __and__(self, o):
        if isinstance(o, SymBool) or type(o) is bool:
            return sb_and([self, o])
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool) or type(o) is bool:
            return sb_or([self, o])
        return bool(self) | o

    __ror__ = __or__

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else sb_not(self)
        if type(o) is SymBool:
            return sb_or([sb_and([self, o]),
                          sb_and([sb_not(self), sb_not(o)])])
        return bool(self) == o

    def __ne__(self, o):
        return sb_not(self.__eq__(o))

    def __xor__(self, o):
        return self.__ne__(o)

    __rxor__ = __xor__

    def _i(self):
        return int(bool(self))

    def __int__(self):
        return self._i()

    __index__ = __int__

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def sb_mask(var, mask):
    """SymBool (or bool) for 'var is in mask' under the current path."""
    cur = E.masks[var.i]
    m = cur & mask
    if m == cur:
        return True
    if m == 0:
        return False
    return SymBool(((var, mask),))


def sb_not(b):
    if type(b) is bool:
        return not b
    if type(b) is not SymBool:
        return not b
    if b.conj is not None and len(b.conj) == 1:
        v, m = b.conj[0]
        return sb_mask(v, v.dom.full & ~m)
    if b.negof is not None:
        return b.negof
    return SymBool(None, None, b.vs, b)


def sb_and(bs):
    conj = {}
    rest = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if type(b) is not SymBool:
            if not b:
                return False
            continue
        if b.conj is not None:
            for v, m in b.conj:
                if v in conj:
                    m &= conj[v]
                m &= E.masks[v.i]
                if not m:
                    return False
                conj[v] = m
        else:
            rest.append(b)
    if not rest:
        if not conj:
            return True
        return SymBool(tuple(conj.items()))
    if not conj and len(rest) == 1:
        return rest[0]
    exprs = [v.dom.mask_expr(v.z, m) for v, m in conj.items()]
    exprs += [b.expr for b in rest]
    vs = frozenset(conj).union(*[b.vs for b in rest])
    return SymBool(None, z3.And(*exprs), vs)


def sb_or(bs):
    live = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        if type(b) is not SymBool:
            if b:
                return True
            continue
        live.append(b)
    if not live:
        return False
    if len(live) == 1:
        return live[0]
    # all unary on one variable: stay a mask
    if all(b.conj is not None and len(b.conj) == 1 for b in live):
        vs = {b.conj[0][0] for b in live}
        if len(vs) == 1:
            m = 0
            for b in live:
                m |= b.conj[0][1]
            return sb_mask(vs.pop(), m)
    return SymBool(None, z3.Or(*[b.expr for b in live]),
                   frozenset().union(*[b.vs for b in live]))


def sb_expr(expr, vs):
    expr = z3.simplify(expr)
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(None, expr, frozenset(vs))


# ---------------------------------------------------------------- engine

class Engine(object):
    def __init__(self):
        self.active = False
        self.stats = {
            'paths': 0, 'aborted': 0, 'gaps': 0, 'decisions': 0,
            'forks': 0, 'queries': 0, 'unary_queries': 0, 'solver_s': 0.0,
            'unknown': 0, 'concretisations': 0, 'checks': 0,
            'assert_queries': 0,
        }
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.usolver = z3.Solver()
        self.qcache = {}
        self.max_forks = None
        self.deadline = None
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.pending = []
        self.vars = []
        self.byname = {}
        self.masks = []
        self.rel = []           # list of SymBool constraints (multi-var)
        self.entangled = set()  # var indices
        self.hashed = False     # a symbolic key was stored in a container
        self.hcount = 0
        self.aborting = False
        self.objs = []
        self.prov = {}
        self.trace = []

    # -- variables
    def new_var(self, name, vals=None, lo=None, hi=None):
        dom = Dom.get(vals) if vals is not None else None
        v = Var(len(self.vars), name, dom, lo, hi)
        self.vars.append(v)
        self.masks.append(dom.full if dom is not None else None)
        if dom is None:
            self.entangled.add(v.i)
        return v

    # -- solver
    def _slice(self, vs):
        """relational constraints connected to the variables vs."""
        vs = set(vs)
        out = []
        rest = list(self.rel)
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for c in rest:
                if c.vs & vs:
                    out.append(c)
                    if not c.vs <= vs:
                        vs |= c.vs
                        changed = True
                    else:
                        changed = True
                else:
                    keep.append(c)
            rest = keep
        return out, vs

    def _sat(self, extra, vs, want_model=False):
        """satisfiability of the path condition restricted to the component
        of vs, conjoined with extra z3 formulas."""
        cons, vs = self._slice(vs)
        exprs = [c.expr for c in cons]
        for v in vs:
            if v.dom is not None:
                exprs.append(v.dom.mask_expr(v.z, self.masks[v.i]))
            else:
                exprs.append(v.domain_expr())
        exprs.extend(extra)
        key = None
        if not want_model:
            key = frozenset(e.get_id() for e in exprs)
            r = self.qcache.get(key)
            if r is not None:
                return r[0], None
        t0 = time.perf_counter()
        s = self.solver
        s.push()
        try:
            for e in exprs:
                s.add(e)
            r = s.check()
            model = None
            if r == z3.sat and want_model:
                m = s.model()
                model = {}
                for v in vs:
                    mv = m.eval(v.z, model_completion=True)
                    model[v.i] = mv.as_long()
        finally:
            s.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
            raise Gap('solver returned unknown')
        res = (r == z3.sat)
        if key is not None:
            self.qcache[key] = (res, exprs)
            if len(self.qcache) > 60000:
                self.qcache.clear()
        return res, model

    def _unary(self, var, cur, mask):
        """z3 verdict for a decision on one variable (memoised)."""
        dom = var.dom
        key = (cur, cur & mask)
        r = dom.umemo.get(key)
        if r is None:
            t0 = time.perf_counter()
            zv = _ZVARS[0]
            s = self.usolver
            s.push()
            s.add(dom.mask_expr(zv, cur))
            s.push()
            s.add(dom.mask_expr(zv, mask & cur))
            ct = s.check() == z3.sat
            s.pop()
            s.add(z3.Not(dom.mask_expr(zv, mask & cur)))
            cf = s.check() == z3.sat
            s.pop()
            self.stats['queries'] += 2
            self.stats['unary_queries'] += 2
            self.stats['solver_s'] += time.perf_counter() - t0
            assert ct == bool(cur & mask) and cf == bool(cur & ~mask)
            r = dom.umemo[key] = (ct, cf)
        return r

    def feasible(self, b):
        """(can be true, can be false) for a SymBool under the path."""
        conj = b.conj
        masks = self.masks
        if conj is not None:
            rem = []
            for v, m in conj:
                cur = masks[v.i]
                x = cur & m
                if not x:
                    return False, True
                if x != cur:
                    rem.append((v, m))
            if not rem:
                return True, False
            ent = self.entangled
            if not any(v.i in ent for v, _ in rem):
                if len(rem) == 1:
                    v, m = rem[0]
                    return self._unary(v, masks[v.i], m)
                for v, m in rem:
                    self._unary(v, masks[v.i], m)
                return True, True
        vs = b.vs
        e = b.expr
        ct, _ = self._sat([e], vs)
        if not ct:
            return False, True
        cf, _ = self._sat([z3.Not(e)], vs)
        return True, cf

    def assume_true(self, b):
        """conjoin a SymBool onto the path condition (assumed feasible)."""
        if b is True:
            return
        conj = b.conj
        if conj is not None:
            masks = self.masks
            for v, m in conj:
                masks[v.i] &= m
            return
        n = b.negof
        if n is not None and n.conj is not None:
            # a disjunction of complements: keep only undecided members
            rem = []
            for v, m in n.conj:
                cur = self.masks[v.i]
                if cur & m == 0:
                    return            # already true
                if cur & m != cur:
                    rem.append((v, m))
            if len(rem) == 1:
                v, m = rem[0]
                self.masks[v.i] &= ~m
                return
            if len(rem) != len(n.conj):
                b = SymBool(None, None, None or frozenset(v for v, _ in rem),
                            SymBool(tuple(rem)))
        self.rel.append(b)
        for v in b.vs:
            self.entangled.add(v.i)

    def decide(self, b):
        if not self.active:
            raise Gap('symbolic decision outside a path')
        if self.aborting:
            raise PathAbort()
        st = self.stats
        st['decisions'] += 1
        pos = self.pos
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.pos = pos + 1
            self.log.append(d)
            if d < 2:
                self.assume_true(b if d else sb_not_raw(b))
            else:               # outcome was forced by the path condition
                self._narrow(b if d == 3 else sb_not_raw(b))
            return bool(d & 1)
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise BudgetExceeded()
        ct, cf = self.feasible(b)
        self.pos = pos + 1
        if ct and cf:
            st['forks'] += 1
            if PROFILE:
                _profile(st)
            self.pending.append(self.log + [0])
            self.log.append(1)
            self.assume_true(b)
            return True
        if ct:
            self.log.append(3)
            self._narrow(b)
            return True
        if not cf:
            raise PathAbort()
        self.log.append(2)
        self._narrow(sb_not_raw(b))
        return False

    def _narrow(self, b):
        # forced outcome: masks may be tightened for free
        if b is True:
            return
        if type(b) is SymBool and b.conj is not None:
            for v, m in b.conj:
                self.masks[v.i] &= m

    def assume(self, b):
        if type(b) is not SymBool:
            if not b:
                self.aborting = True
                raise PathAbort()
            return
        pos = self.pos
        if pos < len(self.prefix):
            self.pos += 1
            self.log.append(1)
            self.assume_true(b)
            return
        ct, cf = self.feasible(b)
        if not ct:
            self.aborting = True
            raise PathAbort()
        self.pos += 1
        self.log.append(1)
        self.assume_true(b)

    def model(self, extra=None):
        """a model of the path condition (and extra), var index -> int."""
        out = {}
        if extra is not None:
            ok, m = self._sat([extra.expr], extra.vs, want_model=True)
            if not ok:
                return None
            out.update(m)
        for v in self.vars:
            if v.i in out:
                continue
            if v.i in self.entangled:
                ok, m = self._sat([], [v], want_model=True)
                if not ok:
                    return None
                out.update(m)
            else:
                out[v.i] = pick(v.dom, self.masks[v.i])
        return out

    def concretise_var(self, v):
        """fork over the feasible values of v; afterwards v is a constant."""
        if v.dom is not None:
            while True:
                cur = self.masks[v.i]
                if cur & (cur - 1) == 0:
                    return v.dom.vals[cur.bit_length() - 1]
                self.stats['concretisations'] += 1
                low = pick_bit(v.dom, cur)
                if self.decide(SymBool(((v, low),))):
                    return v.dom.vals[low.bit_length() - 1]
        ok, m = self._sat([], [v], want_model=True)
        while True:
            # deterministic given the path: model query only beyond prefix
            raise Gap('unbounded concretisation')

    def concretise_expr(self, zexpr, vs):
        """fork over the values of an integer z3 expression."""
        n = 0
        while True:
            val = self._some_value(zexpr, vs)
            self.stats['concretisations'] += 1
            n += 1
            if n > 400:
                raise Gap('too many values to concretise')
            b = sb_expr(zexpr == val, vs)
            if b is True or (b is not False and self.decide(b)):
                return val

    def _some_value(self, zexpr, vs):
        # smallest-first would need optimisation; the choice is recorded in
        # the log so that re-execution is deterministic
        pos = self.pos
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.pos += 1
            self.log.append(d)
            return d[1]
        cons, vs2 = self._slice(vs)
        s = self.solver
        s.push()
        try:
            for c in cons:
                s.add(c.expr)
            for v in vs2:
                if v.dom is not None:
                    s.add(v.dom.mask_expr(v.z, self.masks[v.i]))
                else:
                    s.add(v.domain_expr())
            r = s.check()
            if r != z3.sat:
                raise Gap('no value: %s' % r)
            val = s.model().eval(zexpr, model_completion=True).as_long()
        finally:
            s.pop()
        self.stats['queries'] += 1
        self.pos += 1
        self.log.append(('v', val))
        return val


def sb_not_raw(b):
    """negation without simplification against the current masks."""
    if b.conj is not None and len(b.conj) == 1:
        v, m = b.conj[0]
        return SymBool(((v, v.dom.full & ~m),))
    if b.negof is not None:
        return b.negof
    return SymBool(None, None, b.vs, b)


_PREF = [ord('a'), ord('b'), ord('1'), ord('x'), ord('A'), ord('-'), ord('/')]


def pick_bit(dom, mask):
    ident = dom.ident.inv
    for c in _PREF:
        m = ident.get(c, 0) & mask
        if m:
            return m
    return mask & -mask


def pick(dom, mask):
    return dom.vals[pick_bit(dom, mask).bit_length() - 1]


E = Engine()
