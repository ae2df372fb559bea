"""Exceptions are rendered by the handler for the closest class in their
method resolution order that is acceptable to the client.

Outside the bounds: more than 3 handlers, deeper class hierarchies.
"""
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.exceptions import (
    HTTPException, NotFound, BadRequest, BadRequestKeyError,
)


class A(Exception):
    pass


class B(A):
    pass


class M(Exception):
    pass


class C(B, M):
    pass


CLASSES = [Exception, A, B, M, C, KeyError]


def h_lookup(sx):
    """up to 3 handlers of any of 5 classes and 3 content types, any raised
    class, 4 accept headers, flat or nested"""
    hs = []
    for i in range(sx.choice('n', range(sx.t(3, 4)))):
        cls = sx.choice('cls%d' % i, CLASSES[:5])
        ct = sx.choice('ct%d' % i, [None, 'text/html', 'text/json'])
        hs.append((cls, ct, object()))
    raised = sx.choice('raised', CLASSES)
    accept = sx.choice('accept', [None, 'text/html', 'text/json;q=0.5',
                                  'image/png'])
    handlers = [ExceptionHandler(c, a, content_type=ct)
                for c, ct, a in hs]
    if sx.bool('nested'):
        d = ExceptionDispatcher([ExceptionDispatcher(handlers)])
    else:
        d = ExceptionDispatcher()
        d.add_exception_handlers(*handlers)
    got = d.lookup(raised, accept=accept)
    want = None
    for cls in raised.__mro__:
        ok = [(ct is not None, n, a) for n, (c, ct, a) in enumerate(hs)
              if c is cls and (ct is None or accept is None or
                               accept.split(';')[0] == ct)]
        if ok:
            want = max(ok, key=lambda x: x[:2])[2]
            break
    sx.check(got is want, 'closest acceptable handler, last one wins')


def h_nested_all(sx):
    """every handler of a nested dispatcher stays reachable, in order"""
    n = sx.choice('n', range(1, 4))
    hs = [ExceptionHandler(sx.choice('c%d' % i, [A, B]), i)
          for i in range(n)]
    inner = ExceptionDispatcher(hs)
    listed = list(inner.get_exception_handlers())
    sx.check(len(listed) == n and all(h in listed for h in hs),
             'every handler is listed once')
    outer = ExceptionDispatcher([inner])
    for cls in (A, B, C, M):
        sx.check(inner.lookup(cls) == outer.lookup(cls),
                 'nesting changes nothing')


def h_http(sx):
    """http exceptions: multiple inheritance from KeyError included"""
    cls = sx.choice('cls', [HTTPException, BadRequest, KeyError, NotFound])
    raised = sx.choice('raised', [NotFound, BadRequest, BadRequestKeyError,
                                  KeyError])
    d = ExceptionDispatcher([ExceptionHandler(cls, 'h')])
    got = d.lookup(raised)
    sx.check((got == 'h') == issubclass(raised, cls),
             'a handler covers exactly its subclasses')


class P(Exception):
    pass


class L(P):
    pass


class R(P):
    pass


class D(L, R):
    pass


class G(D, KeyError):
    pass


def h_diamond(sx):
    """any two handlers in a hierarchy with a diamond, in both orders"""
    classes = [Exception, P, L, R, D, KeyError, LookupError]
    a = sx.choice('a', classes)
    b = sx.choice('b', classes)
    sx.assume(a is not b)
    raised = sx.choice('raised', [P, L, R, D, G])
    d = ExceptionDispatcher([ExceptionHandler(a, 'a'),
                             ExceptionHandler(b, 'b')])
    want = None
    for cls in raised.__mro__:
        if cls in (a, b):
            want = 'a' if cls is a else 'b'
            break
    sx.check(d.lookup(raised) == want, 'the nearest class')


class Marker(object):
    pass


class Marked(Marker, P):
    pass


class MarkedLate(P, Marker):
    pass


class Stop(Marker, BaseException):
    pass


def h_marker(sx):
    """handlers for classes which are no exceptions, for all exceptions, for
    all objects"""
    classes = [Marker, P, Exception, BaseException, object]
    a = sx.choice('a', classes)
    b = sx.choice('b', classes)
    sx.assume(a is not b)
    raised = sx.choice('raised', [P, L, Marked, MarkedLate, Stop, KeyError,
                                  KeyboardInterrupt])
    d = ExceptionDispatcher([ExceptionHandler(a, 'a'),
                             ExceptionHandler(b, 'b')])
    want = None
    for cls in raised.__mro__:
        if cls in (a, b):
            want = 'a' if cls is a else 'b'
            break
    sx.check(d.lookup(raised) == want, 'the nearest class')


def h_negotiated(sx):
    """handlers for two classes in two languages, charsets or types: those
    for farther classes are used when the nearer are not acceptable"""
    kind = sx.choice('kind', ['language', 'charset', 'content_type'])
    values = ['a/x', 'b/y'] if kind == 'content_type' else ['a', 'b']
    hs = []
    for i in range(sx.choice('n', [1, 2, 3])):
        hs.append((sx.choice('cls%d' % i, [A, B]),
                   sx.choice('val%d' % i, values + [None]), i))
    d = ExceptionDispatcher([
        ExceptionHandler(c, i, **({} if v is None else {kind: v}))
        for c, v, i in hs])
    accept = sx.choice('accept', [values[0], values[1], 'c/z'
                                  if kind == 'content_type' else 'c', None])
    raised = sx.choice('raised', [A, B])
    arg = {'language': 'accept_language', 'charset': 'accept_charset',
           'content_type': 'accept'}[kind]
    got = d.lookup(raised, **{arg: accept})
    want = None
    for cls in raised.__mro__:
        best = None
        for c, v, i in hs:
            if c is cls and (v is None or accept is None or v == accept):
                # named ones before those which are not
                if best is None or (v is not None) >= best[0]:
                    best = (v is not None, i)
        if best is not None:
            want = best[1]
            break
    sx.check(got == want, 'the nearest that is acceptable')


def h_separate(sx):
    """dispatchers built from others and extended afterwards: each has
    exactly its own handlers"""
    inner = ExceptionDispatcher()
    if sx.bool('before'):
        inner.add_exception_handlers(ExceptionHandler(A, 'inner'))
    how = sx.choice('how', ['given', 'added', 'two'])
    if how == 'given':
        outer = ExceptionDispatcher([inner])
    elif how == 'added':
        outer = ExceptionDispatcher()
        outer.add_exception_handlers(inner)
    else:
        outer = ExceptionDispatcher([
            inner, ExceptionDispatcher([ExceptionHandler(M, 'm')])])
    had = inner.lookup(A)
    outer.add_exception_handlers(ExceptionHandler(A, 'outer'))
    sx.check(inner.lookup(A) == had, 'the inner one is left alone')
    sx.check(outer.lookup(A) == 'outer' and outer.lookup(C) == 'outer',
             'the outer one has the new handler')
    sx.check(outer.lookup(M) == ('m' if how == 'two' else None), 'only its')
    sx.check(ExceptionDispatcher().lookup(A) is None,
             'a new one has no handlers')
    inner.add_exception_handlers(ExceptionHandler(KeyError, 'late'))
    sx.check(inner.lookup(KeyError) == 'late', 'added to the inner one')
    sx.check(len(list(outer.get_exception_handlers()))
             == (how == 'two') + 1 + (had is not None), 'all listed once')


def h_history(sx):
    """handlers added and looked up in turns are found like those of a new
    dispatcher: 3 handlers of 4 classes and 2 content types, 2 classes and 3
    accept headers"""
    d = ExceptionDispatcher()
    hs = []
    for i in range(3):
        cls = sx.choice('cls%d' % i, [Exception, A, B, M])
        ct = sx.choice('ct%d' % i, [None, 'text/html'])
        hs.append(ExceptionHandler(cls, i, content_type=ct))
        d.add_exception_handlers(hs[-1])
        for accept in sx.choice('accept%d' % i, [
                ['text/html', 'text/json'], ['image/png', 'text/html']]):
            for raised in (C, B):
                sx.check(d.lookup(raised, accept=accept) ==
                         ExceptionDispatcher(hs).lookup(
                             raised, accept=accept),
                         'whatever was looked up before')


def h_threads(sx):
    """two threads looking up handlers, the second at any line of the
    first"""
    d = ExceptionDispatcher([
        ExceptionHandler(A, 'a'), ExceptionHandler(M, 'm'),
        ExceptionHandler(B, 'b', content_type='text/html'),
        ExceptionHandler(Exception, 'e'),
        ExceptionHandler(Exception, 'h', content_type='text/html'),
    ])
    todo = [(A, None), (C, 'text/html'), (C, 'text/css'), (KeyError, None),
            (ValueError, 'text/html')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)

    def both():
        return ((lambda: d.lookup(one[0], accept=one[1] or '')),
                (lambda: d.lookup(two[0], accept=two[1] or '')))
    sx.interleave('at', both, 'both threads get their own handler')
