"""Source instrumentation.

Reads the *current* source of a module, rewrites the operations that CPython
would run in C on built-in types (calls, subscripts, ``in``, ``==``, ``%``,
f-strings, displays) into hook calls, and executes the result as a private
copy of the module.  Nothing is written to disk and ``sys.modules`` is not
touched, so the unmodified modules stay importable next to it.
"""
import ast
import builtins
import importlib.util
import os
import sys
import types
import warnings

from .core import EngineExc

NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.cls = []
        self.tmp = 0

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, args, kw=None):
        return ast.Call(func=self._name(fn), args=args, keywords=kw or [])

    def mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__') and self.cls:
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, attr)
        return attr

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        flat = []
        for s in node.body:
            flat.extend(s if isinstance(s, list) else [s])
        node.body = flat
        return node

    def visit_FunctionDef(self, node):
        # annotations are not behaviour
        node.returns = None
        for a in (node.args.args + node.args.posonlyargs +
                  node.args.kwonlyargs):
            a.annotation = None
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                a.annotation = None
        self.generic_visit(node)
        if node.name == '__bool__' and self.cls:
            # the interpreter insists on a real bool here
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = ast.IfExp(
                        test=n.value, body=ast.Constant(value=True),
                        orelse=ast.Constant(value=False))
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        # the annotation of a class attribute may matter (dataclasses):
        # keep it untransformed
        ann = node.annotation
        node.annotation = ast.Constant(value=None)
        self.generic_visit(node)
        node.annotation = ann
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            if f.id == 'super':
                return node
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        args = [self.visit(a) for a in node.args]
        kws = []
        for k in node.keywords:
            v = self.visit(k.value)
            if k.arg is None:
                v = self._call('__vkw__', [v])
            kws.append(ast.keyword(arg=k.arg, value=v))
        if isinstance(f, ast.Attribute):
            new = self._call('__vm__', [
                self.visit(f.value),
                ast.Constant(value=self.mangle(f.attr))] + args, kws)
        else:
            new = self._call('__vc__', [self.visit(f)] + args, kws)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        if len(node.ops) != 1:
            self.generic_visit(node)
            return node
        op = node.ops[0]
        hook = {ast.In: '__vin__', ast.NotIn: '__vnotin__',
                ast.Eq: '__veq__', ast.NotEq: '__vne__',
                ast.Is: '__vis__', ast.IsNot: '__visnot__'}.get(type(op))
        if isinstance(op, (ast.Is, ast.IsNot)):
            # only truth values are told apart by value
            for x in (node.left, node.comparators[0]):
                if isinstance(x, ast.Constant) and not isinstance(
                        x.value, bool):
                    hook = None
        self.generic_visit(node)
        if hook is None:
            return node
        return ast.copy_location(
            self._call(hook, [node.left, node.comparators[0]]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        hook = {ast.Mod: '__vmod__', ast.BitOr: '__vor__',
                ast.BitAnd: '__vand__', ast.BitXor: '__vxor__',
                ast.Sub: '__vsub__'}.get(type(node.op))
        if hook is None:
            return node
        return ast.copy_location(
            self._call(hook, [node.left, node.right]), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Slice):
            return node
        if isinstance(node.slice, ast.Tuple) and any(
                isinstance(e, ast.Slice) for e in node.slice.elts):
            return node
        return ast.copy_location(
            self._call('__vget__', [node.value, node.slice]), node)

    def visit_Assign(self, node):
        if (len(node.targets) == 1 and
                isinstance(node.targets[0], ast.Subscript) and
                not isinstance(node.targets[0].slice, ast.Slice)):
            t = node.targets[0]
            new = ast.Expr(value=self._call('__vset__', [
                self.visit(t.value), self.visit(t.slice),
                self.visit(node.value)]))
            return ast.copy_location(new, node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(
                t.slice, ast.Slice):
            self.tmp += 1
            a, b = '__sxa%d' % self.tmp, '__sxb%d' % self.tmp
            st = [
                ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())],
                           value=self.visit(t.value)),
                ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())],
                           value=self.visit(t.slice)),
            ]
            val = self.visit_BinOp(ast.copy_location(ast.BinOp(
                left=self._call('__vget__', [self._name(a), self._name(b)]),
                op=node.op, right=node.value), node))
            st.append(ast.Expr(value=self._call('__vset__', [
                self._name(a), self._name(b), val])))
            return [ast.copy_location(s, node) for s in st]
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[t], value=self._call('__vmod__', [
                    self._name(t.id), node.value])), node)
        if isinstance(node.op, ast.BitOr) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[t], value=self._call('__vior__', [
                    self._name(t.id), node.value])), node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                out.append(ast.Expr(value=self._call('__vdel__', [
                    self.visit(t.value), self.visit(t.slice)])))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return [ast.copy_location(o, node) for o in out]

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(value='')
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(self._call('__vfv__', [
                    self.visit(v.value), ast.Constant(value=v.conversion),
                    spec]))
        return ast.copy_location(self._call('__vfs__', parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(self._call('__vmkset__', [
            ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant)
               for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(self._call('__vmkdict__', [
            ast.List(elts=items, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__vmkset__', [
            ast.ListComp(elt=node.elt, generators=node.generators)]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__vmkdict__', [
            ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value],
                                       ctx=ast.Load()),
                         generators=node.generators)]), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        broad = False
        for h in node.handlers:
            if h.type is None:
                broad = True
            else:
                for n in ast.walk(h.type):
                    if isinstance(n, ast.Name) and n.id == 'BaseException':
                        broad = True
        if broad:
            node.handlers.insert(0, ast.copy_location(ast.ExceptHandler(
                type=self._name('__EngineExc__'), name=None,
                body=[ast.Raise(exc=None, cause=None)]), node))
        return node


class FlattenBodies(ast.NodeTransformer):
    pass


# modules executed from instrumented source; everything else is real
PKG = 'verktyg'
STDLIB = {
    'urllib.parse', 'urllib.request:parse_http_list', 'posixpath',
    'genericpath', 'fnmatch', 'string', 'uuid', 'email.utils',
    'email._parseaddr', 'base64', 'mimetypes', 'html',
    'http.cookies', 'quopri', 'textwrap', 'json', 'json.encoder',
    'json.decoder', 'json.scanner', 'wsgiref.headers',
}
ALIAS = {'datetime': '_pydatetime'}
NEVER = {
    'threading', 'logging', 'calendar', 'ast', 'tokenize', 'pprint', 'warnings', 'importlib', 'abc', 'weakref',
    'inspect', 'typing', 'types', 'enum', 'os', 'subprocess', 'traceback',
    'linecache', 'sys', 'functools', 'contextlib', 'codecs', 're',
    'collections', 'tempfile', 'locale', 'copyreg', '_weakrefset', 'random',
    'hashlib', 'hmac', 'io', '_pyio', 'unittest', 'builtins', 'dataclasses',
    'importlib._bootstrap', 'importlib._bootstrap_external', 'site',
    'multiprocessing', 'z3', 'queue', 'socket', 'ssl', 'selectors',
    'http.client', 'http.server', 'socketserver', 'pkgutil', 'zipimport',
}

INST = {}          # name -> instrumented module
ENCODED = {}       # name -> path of source read
CODE_CACHE = {}    # path -> code object


def _find(name):
    base = os.path.join(os.path.dirname(os.__file__), *name.split('.'))
    if os.path.exists(base + '.py'):
        return base + '.py', False
    if os.path.exists(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    spec = importlib.util.find_spec(name)
    if spec is None or not spec.origin or not spec.origin.endswith('.py'):
        return None, None
    return spec.origin, spec.submodule_search_locations is not None


def transform_source(src, filename):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, filename)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, filename, 'exec', dont_inherit=True)


def make_builtins(importer):
    from . import hooks
    b = dict(vars(builtins))
    b.update(hooks.HOOKS)
    b['__EngineExc__'] = EngineExc
    b['__import__'] = importer
    return b


REPO = os.environ.get('SYMX_REPO', '/repo')


def _locate(name):
    """(path, is_package) of an instrumented module"""
    if name == PKG or name.startswith(PKG + '.'):
        base = os.path.join(REPO, *name.split('.'))
        p = os.path.join(base, '__init__.py')
        if os.path.exists(p):
            return p, True
        p = base + '.py'
        if os.path.exists(p):
            return p, False
        return None, None
    return _find(name)


def is_ours(name):
    return (name == PKG or name.startswith(PKG + '.') or name in STDLIB or
            name in ALIAS)


def load(name):
    real = ALIAS.get(name, name)
    mod = INST.get(real)
    if mod is not None:
        return mod
    if '.' in real and is_ours(real.rpartition('.')[0]) and (
            real.startswith(PKG)):
        load(real.rpartition('.')[0])
        mod = INST.get(real)
        if mod is not None:
            return mod
    path, ispkg = _locate(real)
    if path is None:
        raise ModuleNotFoundError('No module named %r' % name, name=name)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    ENCODED[real] = path
    code = transform_source(src, path)
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__name__ = name
    mod.__dict__['__symx__'] = True
    if ispkg:
        mod.__path__ = [os.path.dirname(path)]
        mod.__package__ = name
    else:
        mod.__package__ = name.rpartition('.')[0]
    mod.__dict__['__builtins__'] = make_builtins(importer)
    INST[real] = mod
    try:
        exec(code, mod.__dict__)
    except BaseException:
        INST.pop(real, None)
        raise
    if '.' in name and is_ours(name.rpartition('.')[0]):
        parent = INST.get(name.rpartition('.')[0])
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], mod)
    return mod


def importer(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or ''
        parts = pkg.split('.')
        if level > 1:
            parts = parts[:-(level - 1)]
        absname = '.'.join(parts + ([name] if name else []))
    else:
        absname = name
    top = absname.split('.')[0]
    if top == PKG:
        mod = load(absname)
        if fromlist:
            for x in fromlist:
                if x != '*' and not hasattr(mod, x):
                    try:
                        load(absname + '.' + x)
                    except ModuleNotFoundError:
                        pass
            return mod
        return load(top)
    if is_ours(absname):
        if fromlist:
            return load(absname)
        if '.' not in absname:
            return load(absname)
        # "import urllib.parse": a proxy package whose submodule is ours
        real = builtins.__import__(absname)
        return PkgProxy(real, absname)
    if level:
        return builtins.__import__(name, globals, locals, fromlist, level)
    real = builtins.__import__(absname, globals, locals, fromlist, 0)
    if fromlist:
        subs = [x for x in fromlist if is_ours(absname + '.' + x)]
        if subs:
            return PkgProxy(real, *[absname + '.' + s for s in subs])
    return real


class PkgProxy(object):
    """a real package with some submodules replaced by instrumented ones"""
    _subs = {}

    def __init__(self, real, *subs):
        self.__dict__['_real'] = real
        d = PkgProxy._subs.setdefault(real.__name__, {})
        for s in subs:
            rest = s[len(real.__name__) + 1:]
            if '.' not in rest:
                d[rest] = s

    def __getattr__(self, n):
        d = PkgProxy._subs[self._real.__name__]
        if n in d:
            return load(d[n])
        return getattr(self._real, n)


_MAPPED = {}


def counterpart(f):
    """instrumented version of an uninstrumented pure-Python function"""
    key = f.__code__
    if key in _MAPPED:
        return _MAPPED[key]
    res = None
    mod = f.__module__
    q = f.__qualname__
    if (mod and '<' not in q and mod not in NEVER and
            mod.split('.')[0] not in NEVER and
            not mod.startswith('symx') and mod != '__main__'):
        if mod == 'datetime':
            mod = '_pydatetime'
        try:
            m = load(mod)
            o = m
            for part in q.split('.'):
                o = o.__dict__[part] if isinstance(
                    o, (type, types.ModuleType)) else getattr(o, part)
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, property):
                o = None
            while hasattr(o, '__wrapped__') and not isinstance(
                    o, types.FunctionType):
                o = o.__wrapped__
            if isinstance(o, types.FunctionType):
                res = o
        except EngineExc:
            raise
        except Exception:
            res = None
    _MAPPED[key] = res
    return res


# ---- module state: restored before every path

_SNAP = []


def snapshot():
    """remember the mutable module- and class-level containers"""
    _SNAP.clear()
    seen = set()

    def add(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if type(o) is dict:
            _SNAP.append((o, dict(o)))
        elif type(o) is list:
            _SNAP.append((o, list(o)))
        elif type(o) is set:
            _SNAP.append((o, set(o)))
    for name, mod in list(INST.items()):
        if not (name == PKG or name.startswith(PKG + '.')):
            continue
        for k, v in list(vars(mod).items()):
            if k == '__builtins__':
                continue
            if type(v) in (dict, list, set):
                add(v)
            elif isinstance(v, type) and v.__module__ == mod.__name__:
                for k2, v2 in list(vars(v).items()):
                    if type(v2) in (dict, list, set):
                        add(v2)
        _GLOB.append((mod.__dict__, dict(mod.__dict__)))


_GLOB = []


def restore():
    for o, c in _SNAP:
        if type(o) is dict:
            if len(o) != len(c) or o != c:
                o.clear()
                o.update(c)
        elif type(o) is list:
            if o != c:
                o[:] = c
        else:
            if o != c:
                o.clear()
                o.update(c)
    for g, c in _GLOB:
        for k, v in c.items():
            if g.get(k) is not v:
                g[k] = v
