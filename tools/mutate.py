"""Mutation testing of the checks: mutate.py FILE... [--max N] [-o OUT]

Generates small changes of the source, keeps those with which the tests of
/repo pass, and runs the checks whose evidence lists the changed function.
Prints the changes no check notices.  Not part of any check.
"""
import argparse
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('MUTWORK', '/tmp/mutwork')
warnings.simplefilter('ignore')


def covered(evdir):
    enc = {}
    cost = {}
    for f in glob.glob(evdir + '/C*.json'):
        d = json.load(open(f))
        for x in d['coverage']['functions_encoded']:
            enc.setdefault(x.replace('.<locals>', ''), set()).add(
                d['property'])
        cost[d['property']] = d['coverage']['paths']
    return enc, cost


CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


class Gen(object):
    def __init__(self, src, rel, ops=1):
        self.ops = ops
        self.src = src
        self.lines = src.split('\n')
        self.rel = rel
        self.out = []          # (function, lineno, description, new source)

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def off(self, line, col):
        return sum(len(x) + 1 for x in self.lines[:line - 1]) + len(
            self.lines[line - 1].encode()[:col].decode())

    def rep(self, n, new, what):
        a = self.off(n.lineno, n.col_offset)
        b = self.off(n.end_lineno, n.end_col_offset)
        s = self.src[:a] + new + self.src[b:]
        try:
            ast.parse(s)
        except SyntaxError:
            return
        self.out.append((self.fn, n.lineno, '%s: %s -> %s' % (
            what, ' '.join(self.src[a:b].split())[:80],
            ' '.join(new.split())[:80]), s))

    def visit(self, n, fn=''):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = fn + '.' + c.name if fn else c.name
                if c.name == '__repr__':
                    continue
                self.node(c, q)
                self.visit(c, q)
            else:
                self.node(c, fn)
                self.visit(c, fn)

    def subtle(self, n):
        """the changes that only unusual values notice"""
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.seg(n.left), self.seg(n.comparators[0])
            none = isinstance(n.comparators[0], ast.Constant) and (
                n.comparators[0].value is None)
            if none and isinstance(n.ops[0], ast.Is):
                self.rep(n, '(not %s)' % a, 'falsy')
            elif none and isinstance(n.ops[0], ast.IsNot):
                self.rep(n, '(%s)' % a, 'falsy')
            elif isinstance(n.ops[0], ast.Eq):
                self.rep(n, '(%s is %s)' % (a, b), 'identity')
        elif isinstance(n, (ast.If, ast.While)):
            t = n.test
            if isinstance(t, (ast.Name, ast.Attribute)):
                self.rep(t, '%s is not None' % self.seg(t), 'none')
            elif isinstance(t, ast.UnaryOp) and isinstance(
                    t.operand, (ast.Name, ast.Attribute)):
                self.rep(t, '%s is None' % self.seg(t.operand), 'none')
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and (
                len(n.values) == 2):
            a, b = self.seg(n.values[0]), self.seg(n.values[1])
            self.rep(n, '(%s if %s is not None else %s)' % (a, a, b), 'none')
        elif isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else (
                n.func.attr if isinstance(n.func, ast.Attribute) else '')
            args = [self.seg(x) for x in n.args] + [
                self.seg(k) if hasattr(k, 'lineno') else ''
                for k in n.keywords]
            f = self.seg(n.func)
            if name == 'isinstance':
                self.rep(n, '(type(%s) is %s)' % (args[0], args[1]),
                         'isinstance')
                t = n.args[1]
                if isinstance(t, ast.Tuple):
                    for i in range(len(t.elts)):
                        self.rep(t, '(' + ', '.join(
                            self.seg(e) for j, e in enumerate(t.elts)
                            if j != i) + ',)', 'isinstance')
                return
            if isinstance(n.func, ast.Name) and len(args) == 1 and name in (
                    'list', 'dict', 'tuple', 'sorted', 'reversed', 'set',
                    'frozenset', 'str', 'int', 'bytes', 'iter'):
                self.rep(n, '(%s)' % args[0], 'conversion')
            if name in ('all', 'any', 'min', 'max'):
                self.rep(n.func, {'all': 'any', 'any': 'all', 'min': 'max',
                                  'max': 'min'}[name], 'swap')
            if name == 'get' and len(args) == 2:
                self.rep(n, '(%s(%s) or %s)' % (f, args[0], args[1]),
                         'default')
            if len(args) > 1 or n.keywords:
                if len(n.args) == 0 or n.keywords:
                    for i in range(len(n.args), len(args)):
                        self.rep(n, '%s(%s)' % (f, ', '.join(
                            x for j, x in enumerate(args) if j != i)),
                            'drop argument')
                elif name not in ('get', 'getattr'):
                    self.rep(n, '%s(%s)' % (f, ', '.join(args[:-1])),
                             'drop argument')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and (
                0 < len(n.value) < 30 and '\n' not in n.value):
            v = n.value
            for w in (v[1:], v[:-1]):
                if w != v:
                    self.rep(n, repr(w), 'string')
        elif isinstance(n, (ast.FunctionDef,)):
            for d in n.args.defaults:
                if isinstance(d, ast.Constant) and d.value is None:
                    self.rep(d, "''", 'default')
                elif isinstance(d, ast.Constant) and d.value in (
                        'replace', 'strict', 'ignore'):
                    self.rep(d, {"replace": "'ignore'", "strict": "'replace'",
                                 "ignore": "'replace'"}[d.value], 'default')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (
                n.attr in ('charset', 'url_charset', 'encoding_errors',
                           'errors')):
            self.rep(n, "'utf-8'" if 'charset' in n.attr else "'replace'",
                     'attribute')
        elif isinstance(n, ast.For):
            if not isinstance(n.iter, ast.Call) or True:
                it = self.seg(n.iter)
                self.rep(n.iter, 'list(%s)[:1]' % it, 'loop')
                self.rep(n.iter, 'reversed(list(%s))' % it, 'loop')
        elif isinstance(n, ast.Return) and isinstance(
                n.value, ast.Constant):
            v = n.value.value
            if v is None:
                self.rep(n.value, "''", 'return')
        if isinstance(n, ast.FunctionDef):
            for a, b in zip(n.body, n.body[1:]):
                if not isinstance(a, (ast.Expr, ast.Assign, ast.If)) or (
                        not isinstance(b, (ast.Expr, ast.Assign, ast.If))):
                    continue
                if isinstance(a, ast.Expr) and isinstance(
                        a.value, ast.Constant):
                    continue
                x = self.off(a.lineno, a.col_offset)
                y = self.off(a.end_lineno, a.end_col_offset)
                z = self.off(b.lineno, b.col_offset)
                w = self.off(b.end_lineno, b.end_col_offset)
                t = (self.src[:x] + self.src[z:w] + self.src[y:z]
                     + self.src[x:y] + self.src[w:])
                try:
                    ast.parse(t)
                except SyntaxError:
                    continue
                self.out.append((self.fn, a.lineno, 'swap statements: %s' %
                                 ' '.join(self.src[x:w].split())[:120], t))

    def node(self, n, fn):
        self.fn = fn
        if not fn:
            return
        if self.ops == 2:
            return self.subtle(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.seg(n.left), self.seg(n.comparators[0])
            self.rep(n, '(%s %s %s)' % (a, CMP[type(n.ops[0])], b), 'cmp')
        elif isinstance(n, ast.BoolOp):
            vs = [self.seg(v) for v in n.values]
            op = ' and ' if isinstance(n.op, ast.Or) else ' or '
            self.rep(n, '(' + op.join('(%s)' % v for v in vs) + ')', 'bool')
            if len(vs) > 1:
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                for i in range(len(vs)):
                    self.rep(n, '(' + op.join(
                        '(%s)' % v for j, v in enumerate(vs) if j != i) + ')',
                        'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.rep(n, '(%s)' % self.seg(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.While)):
            t = n.test
            if not isinstance(t, (ast.Compare, ast.UnaryOp)) and not (
                    isinstance(t, ast.Constant)):
                self.rep(t, '(not (%s))' % self.seg(t), 'negate')
        elif isinstance(n, ast.IfExp):
            self.rep(n, '(%s)' % self.seg(n.body), 'ifexp')
            self.rep(n, '(%s)' % self.seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.rep(n, repr(not n.value), 'const')
            elif isinstance(n.value, int):
                self.rep(n, repr(n.value + 1), 'const')
                if n.value > 0:
                    self.rep(n, repr(n.value - 1), 'const')
        elif isinstance(n, ast.BinOp):
            a, b = self.seg(n.left), self.seg(n.right)
            if isinstance(n.op, ast.Add):
                self.rep(n, '(%s - %s)' % (a, b), 'binop')
                self.rep(n, '(%s)' % a, 'binop')
            elif isinstance(n.op, ast.Sub):
                self.rep(n, '(%s + %s)' % (a, b), 'binop')
        elif isinstance(n, ast.Expr) and not isinstance(
                n.value, (ast.Constant, ast.Yield)):
            self.rep(n, 'pass', 'drop')
        elif isinstance(n, ast.AugAssign):
            self.rep(n, 'pass', 'drop')
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, 'pass', 'drop')
        elif isinstance(n, (ast.Continue, ast.Break)):
            self.rep(n, 'pass', 'drop')
        elif isinstance(n, ast.Return) and n.value is not None and (
                not isinstance(n.value, ast.Constant)):
            self.rep(n, 'return None', 'return')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            m = n.func.attr
            if m in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'copy',
                     'title', 'encode', 'decode', 'replace'):
                self.rep(n, self.seg(n.func.value), 'drop call')
            swap = {'rsplit': 'split', 'split': 'rsplit',
                    'partition': 'rpartition', 'rpartition': 'partition',
                    'find': 'rfind', 'startswith': 'endswith',
                    'endswith': 'startswith', 'append': 'extend',
                    'strip': 'rstrip', 'lstrip': 'strip', 'rstrip': 'strip',
                    'setdefault': '__setitem__'}.get(m)
            if swap and not (m in ('split', 'rsplit') and len(n.args) < 2):
                self.rep(n.func, self.seg(n.func.value) + '.' + swap, 'method')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
        elif isinstance(n, ast.ExceptHandler) and isinstance(
                n.type, ast.Tuple) and len(n.type.elts) > 1:
            for i in range(len(n.type.elts)):
                self.rep(n.type, '(' + ', '.join(
                    self.seg(e) for j, e in enumerate(n.type.elts)
                    if j != i) + ',)', 'except')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None:
                self.rep(s.lower, '(%s) + 1' % self.seg(s.lower), 'slice')
            if s.upper is not None:
                self.rep(s.upper, '(%s) - 1' % self.seg(s.upper), 'slice')


def run(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])


def tests_pass(repo):
    rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                   '-p', 'no:cacheprovider', 'verktyg'], repo, 60,
                  PYTHONPATH=repo)
    return rc == 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--max', type=int, default=10 ** 6)
    ap.add_argument('--ev', default='/tmp/w/ev')
    ap.add_argument('-o', default='/tmp/w/mutants.jsonl')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--fn')
    ap.add_argument('--ops', type=int, default=1)
    ap.add_argument('--parallel', type=int, default=3)
    a = ap.parse_args()
    enc, cost = covered(a.ev)
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    for i in range(a.j):
        subprocess.check_call(['git', 'clone', '-q', '/repo',
                               '%s/%d' % (WORK, i)])
    done = set()
    if os.path.exists(a.o):
        for line in open(a.o):
            d = json.loads(line)
            done.add((d['file'], d['line'], d['what']))
    muts = []
    for rel in a.files:
        src = open('/repo/' + rel).read()
        g = Gen(src, rel, a.ops)
        g.visit(ast.parse(src))
        ms = [(rel,) + m for m in g.out if not a.fn or a.fn in m[0]]
        random.Random(1).shuffle(ms)
        muts.extend(ms[:a.max])
    muts = [m for m in muts if (m[0], m[2], m[3]) not in done]
    print(len(muts), 'mutants', flush=True)
    free = list(range(a.j))

    def test(m):
        i = free.pop()
        try:
            repo = '%s/%d' % (WORK, i)
            path = os.path.join(repo, m[0])
            orig = open(path).read()
            open(path, 'w').write(m[4])
            ok = tests_pass(repo)
            open(path, 'w').write(orig)
            return ok
        finally:
            free.append(i)
    out = open(a.o, 'a')
    with ThreadPoolExecutor(a.j) as ex:
        alive = []
        for m, ok in zip(muts, ex.map(test, muts)):
            if ok:
                alive.append(m)
            else:
                out.write(json.dumps({'file': m[0], 'fn': m[1], 'line': m[2],
                                      'what': m[3], 'result': 'tests'})
                          + '\n')
    print(len(alive), 'pass the tests', flush=True)
    free = list(range(a.j))
    missed = []

    def judge(m):
        rel, fn, line, what, src = m
        pids = set()
        q = fn
        while q and not pids:
            pids = set(enc.get(rel + ':' + q, ()))
            q = q.rpartition('.')[0]
        if not pids:
            for k, v in enc.items():
                if k.startswith('%s:%s.' % (rel, fn)):
                    pids |= v
        i = free.pop()
        repo = '%s/%d' % (WORK, i)
        path = os.path.join(repo, rel)
        orig = open(path).read()
        open(path, 'w').write(src)
        result = 'missed'
        for pid in sorted(pids, key=lambda p: cost[p]):
            rc, o = run(['./check', pid, '--budget', '200'], ROOT, 400,
                        SYMX_REPO=repo, SYMX_EVIDENCE='/tmp/w/mutev/%d' % i)
            if rc == 1:
                result = pid
                break
            if rc != 0:
                result = 'error ' + pid
        open(path, 'w').write(orig)
        free.append(i)
        out.write(json.dumps({'file': rel, 'fn': fn, 'line': line,
                              'what': what, 'result': result,
                              'tried': sorted(pids)}) + '\n')
        out.flush()
        if result == 'missed' or result.startswith('error'):
            missed.append(m)
            print('%s %s:%d %s | %s | %s' % (result, rel, line, fn, what,
                                             ' '.join(sorted(pids))),
                  flush=True)
    with ThreadPoolExecutor(a.parallel) as ex:
        list(ex.map(judge, alive))
    print('missed', len(missed), 'of', len(alive))


main()
