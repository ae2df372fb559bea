"""The harness-facing API, in a symbolic and a concrete implementation."""

import sys
import threading


class Diverged(Exception):
    pass


class Violated(Exception):
    """an assertion of a harness is false"""

    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """an assumption is false"""


ASCII = [chr(i) for i in range(128)]
LATIN = [chr(i) for i in range(256)]
# representatives of the classes that matter outside latin-1: multi-byte
# UTF-8 of every length, digits that are not decimal ASCII, exotic white
# space and line separators, full-width forms, a surrogate, an emoji
EXOTIC = ['\u0663', '\u2028', '\u3000', '\u20ac', '\uff0e', '\uff0f',
          '\ufeff', '\U0001f600', '\u0131', '\u017f', '\u212a', '\u0660',
          '\u2160']
SURR = ['\udc80', '\ud800']
UNI = LATIN + EXOTIC
TEXT = UNI


class Base(object):
    ASCII = ASCII
    LATIN = LATIN
    UNI = UNI
    SURR = SURR
    EXOTIC = EXOTIC
    PRINT = [chr(i) for i in range(32, 127)]
    TOKEN = list("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"
                 "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
    DIGITS = list('0123456789')
    LOWER = list('abcdefghijklmnopqrstuvwxyz')

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.labels = []

    def t(self, quick, thorough):
        return thorough if self.thorough else quick

    def _uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if not n else '%s#%d' % (name, n)

    def text(self, name, maxlen, alphabet, minlen=0):
        """a string of any length minlen..maxlen"""
        n = self.choice(name + '.len', range(minlen, maxlen + 1))
        return self.str(name, n, alphabet)

    def data(self, name, maxlen, alphabet=None, minlen=0):
        n = self.choice(name + '.len', range(minlen, maxlen + 1))
        return self.bytes(name, n, alphabet)

    def interleave(self, name, make, label):
        """Two threads at once: at any one line of the code under test that
        the first executes, the second gets its turn and runs to its end (or
        until it has to wait for the first).  `make` returns two functions
        that share what they work on, afresh each time.  Both have to return
        what they return when the other comes later.
        """
        a, _ = make()
        count = [0]
        want_a = _traced(a, count, None, None)
        _, b = make()
        want_b = b()
        for k in self._points(name, count[0]):
            a, b = make()
            other = _Other(b)
            got_a = _traced(a, [0], k, other.turn)
            got_b = other.result()
            self.check(got_a == want_a and got_b == want_b, label)


class ConcSx(Base):
    symbolic = False
    nearby = False        # look for the violation at nearby points too

    def __init__(self, model, tier='quick'):
        Base.__init__(self, tier)
        self.model = model
        self.names = {}

    def _get(self, name):
        name = self._uniq(name)
        if name not in self.model:
            raise Diverged(name)
        return self.model[name]

    def str(self, name, n, alphabet=None):
        v = self._get(name)
        if len(v) != n:
            raise Diverged(name)
        return v

    def bytes(self, name, n, alphabet=None):
        v = self._get(name)
        if len(v) != n:
            raise Diverged(name)
        return v

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name)
        if not 0 <= i < len(options):
            raise Diverged(name)
        return options[i]

    def _points(self, name, n):
        # the instrumented code may have a few lines more or less
        i = self._get(name)
        yield i
        if self.nearby:
            for k in range(1, n + 1):
                if k != i:
                    yield k

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=''):
        self.labels.append(label)
        if not cond:
            raise Violated(label, detail)

    def fail(self, label, detail=''):
        self.labels.append(label)
        raise Violated(label, detail)

    def reach(self, label):
        self.labels.append('@' + label)


class SymSx(Base):
    symbolic = True

    def __init__(self, tier='quick'):
        from . import core
        Base.__init__(self, tier)
        self.E = core.E
        self.names = {}
        self.inputs = []      # (name, kind, payload)
        self.candidates = []  # (label, model)

    def str(self, name, n, alphabet=None):
        from . import values as V
        from .core import Dom
        name = self._uniq(name)
        codes = _codes(alphabet if alphabet is not None else UNI)
        items = []
        for i in range(n):
            v = self.E.new_var('%s[%d]' % (name, i), codes)
            items.append(V.Ch(v, v.dom.ident))
        self.inputs.append((name, 'str', [i.var.i for i in items]))
        return V.mk_str(tuple(items))

    def bytes(self, name, n, alphabet=None):
        from . import values as V
        name = self._uniq(name)
        codes = _codes(alphabet) if alphabet is not None else tuple(
            range(256))
        items = []
        for i in range(n):
            v = self.E.new_var('%s[%d]' % (name, i), codes)
            items.append(V.Ch(v, v.dom.ident))
        self.inputs.append((name, 'bytes', [i.var.i for i in items]))
        return V.mk_bytes(tuple(items))

    def int(self, name, lo, hi):
        from . import values as V
        name = self._uniq(name)
        if lo is not None and hi is not None and hi - lo <= 300:
            v = self.E.new_var(name, range(lo, hi + 1))
            self.inputs.append((name, 'int', v.i))
            return V.mk_int_ch(V.Ch(v, v.dom.ident))
        v = self.E.new_var(name, None, lo, hi)
        self.inputs.append((name, 'int', v.i))
        return V.SymInt(None, v.z, frozenset((v,)))

    def bool(self, name):
        from .core import SymBool
        name = self._uniq(name)
        v = self.E.new_var(name, (0, 1))
        self.inputs.append((name, 'int', v.i))
        return SymBool(((v, 2),))

    def choice(self, name, options):
        options = list(options)
        name = self._uniq(name)
        v = self.E.new_var(name, range(len(options)))
        self.inputs.append((name, 'int', v.i))
        # ascending order: small instances are explored first
        for i in range(len(options) - 1):
            from .core import sb_mask
            b = sb_mask(v, 1 << i)
            if b is True or (b is not False and self.E.decide(b)):
                return options[i]
        return options[-1]

    def _points(self, name, n):
        # 0: not at all
        return [self.choice(name, range(n + 1))]

    def assume(self, cond):
        from .core import SymBool
        if type(cond) is not SymBool:
            cond = bool(cond)
        self.E.assume(cond)

    def model_of(self, m):
        out = {}
        for name, kind, p in self.inputs:
            if kind == 'str':
                out[name] = ''.join(chr(m[i]) for i in p)
            elif kind == 'bytes':
                out[name] = bytes(m[i] for i in p)
            else:
                out[name] = m[p]
        return out

    def check(self, cond, label, detail=''):
        from .core import SymBool, sb_not
        E = self.E
        self.labels.append(label)
        E.stats['checks'] += 1
        if type(cond) is not SymBool:
            if not cond:
                m = E.model()
                if m is not None:
                    self.candidates.append((label, self.model_of(m)))
                raise Violated(label)
            return
        if E.pos < len(E.prefix):
            d = E.prefix[E.pos]
            E.pos += 1
            E.log.append(d)
            if d == 1:
                E.assume_true(cond)
            return
        E.stats['assert_queries'] += 1
        ct, cf = E.feasible(cond)
        if cf:
            neg = sb_not(cond)
            if neg is True:
                m = E.model()
            else:
                m = E.model(neg)
            if m is not None:
                self.candidates.append((label, self.model_of(m)))
            if not ct:
                raise Violated(label)
            E.pos += 1
            E.log.append(1)
            E.assume_true(cond)
        else:
            E.pos += 1
            E.log.append(3)

    def fail(self, label, detail=''):
        self.check(False, label)

    def reach(self, label):
        self.labels.append('@' + label)


def _traced(fn, count, at, turn):
    """call fn, counting the lines of the code under test that it executes,
    and call turn before line number `at`"""
    from .rp import REPO
    top = REPO + '/verktyg/'

    def line(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == at:
                turn()
        return line

    def call(frame, event, arg):
        name = frame.f_code.co_filename
        return line if name.startswith(top) else None
    old = sys.gettrace()
    sys.settrace(call)
    try:
        return fn()
    finally:
        sys.settrace(old)


class _Other(object):
    """the second thread"""

    def __init__(self, fn):
        self.fn = fn
        self.thread = None

    def run(self):
        try:
            self.got = self.fn()
            self.exc = None
        except BaseException as e:
            self.exc = e

    def waits(self):
        t = self.thread
        seen = None
        for i in range(3):
            frame = sys._current_frames().get(t.ident)
            try:
                with open('/proc/self/task/%d/stat' % t.native_id) as f:
                    state = f.read().rsplit(')', 1)[1].split()[0]
            except OSError:
                return False
            now = state, id(frame), frame and frame.f_lasti
            if state != 'S' or (seen and now != seen):
                return False
            seen = now
            t.join(0.008)
        return t.is_alive()

    def turn(self):
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()
        self.thread.join(0.02)
        while self.thread.is_alive() and not self.waits():
            self.thread.join(0.02)

    def result(self):
        if self.thread is None:
            return self.fn()
        self.thread.join()
        if self.exc is not None:
            raise self.exc
        return self.got


_CC = {}


def _codes(alphabet):
    if isinstance(alphabet, bytes):
        return tuple(sorted(set(alphabet)))
    k = id(alphabet)
    r = _CC.get(k)
    if r is None or r[0] is not alphabet:
        c = tuple(sorted({ord(x) if isinstance(x, str) else x
                          for x in alphabet}))
        r = _CC[k] = (alphabet, c)
    return r[1]
