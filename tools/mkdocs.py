"""Writes properties.jsonl, MANIFEST.json and the per-property part of
DESIGN.md from the entries below and the harnesses in props/."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, how,
         thorough=900):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=over, qtext=' '.join(qtext.split()),
                  why=' '.join(why.split()), files=files, mech=mech,
                  how=' '.join(how.split()), thorough=thorough))


exec(open(os.path.join(ROOT, 'tools', 'entries.py')).read())

NA = []
NA_IDS = {n['property'] for n in NA}


def harnesses(pid):
    with open(os.path.join(ROOT, 'props', pid.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    return ast.get_docstring(tree) or '', [
        (n.name, ' '.join((ast.get_docstring(n) or '').split()))
        for n in tree.body
        if isinstance(n, ast.FunctionDef) and n.name.startswith('h_')]


def seeds():
    out = ['| bug | property | needs | caught by |\n|---|---|---|---|\n']
    d = os.path.join(ROOT, 'seeded')
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
    for sid in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, sid, 'meta.json')))
        out.append('| %s | %s | %s | %s |\n' % (
            sid, m['property'], ' '.join(m['needs'].split()).replace(
                '|', '/'), caught.get(sid, 'not run')))
    return ''.join(out)


def main():
    checks = []
    lines = []
    design = []
    for p in P:
        if not os.path.exists(os.path.join(
                ROOT, 'props', p['id'].lower() + '.py')):
            print('no harness yet:', p['id'])
            continue
        assert len(p['title']) <= 80, p['title']
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                'hook_needed': None,
            }}))
        cmd = './check %s --tier %s'
        checks.append({
            'property': p['id'],
            'quick_cmd': cmd % (p['id'], 'quick'),
            'thorough_cmd': cmd % (p['id'], 'thorough'),
            'technique': 'bounded symbolic execution of the Python source '
            'with z3 deciding branches and assertions; counterexamples '
            'replayed on the real code',
            'level': 'model_checking',
            'level_note': 'Every value within the bounds of props/%s.py '
            '(also listed in the evidence) is decided by the solver over '
            'the code as it is in /repo now; nothing is claimed outside '
            'them. Trusted: the symx instrumentation and its models of '
            'built-in types, CPython and z3; each path is cross-checked by '
            'running one of its models on the unmodified code.'
            % p['id'].lower(),
        })
        mod, hs = harnesses(p['id'])
        design.append('### %s %s\n\n%s\n\n%s\n\nBounds and assumptions: %s\n'
                      % (p['id'], p['title'], p['statement'], p['how'],
                         ' '.join(mod.split())))
        design.append('\n'.join('- `%s`: %s' % h for h in hs) + '\n')
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': NA,
        'notes': 'No hooks in /repo: the checks rewrite the source in '
        'memory. See DESIGN.md.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    path = os.path.join(ROOT, 'DESIGN.md')
    try:
        with open(path) as f:
            s = f.read()
    except OSError:
        s = ''
    a, b = '<!-- properties:begin -->\n', '<!-- properties:end -->\n'
    if a in s:
        s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(design) + '\n' + (
            s[s.index(b):])
        a, b = '<!-- seeds:begin -->\n', '<!-- seeds:end -->\n'
        s = s[:s.index(a) + len(a)] + seeds() + s[s.index(b):]
        with open(path, 'w') as f:
            f.write(s)


main()
