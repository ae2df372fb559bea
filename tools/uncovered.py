"""Functions of /repo that no check's evidence lists: uncovered.py EVDIR"""
import ast
import glob
import json
import os
import sys

enc = {}
for f in glob.glob(sys.argv[1] + '/C*.json'):
    d = json.load(open(f))
    for x in d['coverage']['functions_encoded']:
        enc.setdefault(x.replace('.<locals>', ''), set()).add(d['property'])


def walk(rel, n, pre):
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            q = pre + c.name
            if isinstance(c, ast.FunctionDef) and not c.name == '__repr__':
                if rel + ':' + q not in enc:
                    print(rel + ':' + q)
            walk(rel, c, q + '.')
        else:
            walk(rel, c, pre)


for root, _, fs in os.walk('/repo/verktyg'):
    if 'testsuite' in root:
        continue
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(root, f)
            walk(os.path.relpath(p, '/repo'), ast.parse(open(p).read()), '')
