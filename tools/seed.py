"""Plant a bug: seed.py ID PROPERTY <<< spec

spec:
    needs: ...
    breaks: ...
    @@ FILE
    old
    =====
    new
    @@ FILE ...
    @@@ demo
    python code; exits nonzero / raises if the bug is there

Works in scratch copies of /repo, keeps the bug only if the tests pass with
it and the demonstration tells the two trees apart.
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedwork'
BASE = '23fa41c'


def run(cmd, cwd, timeout=300):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1')
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True,
                              timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, 'timeout')


def main():
    sid, prop = sys.argv[1:3]
    spec = sys.stdin.read()
    head, demo = spec.split('@@@ demo\n')
    parts = re.split(r'^@@ ', head, flags=re.M)
    meta = {'property': prop}
    for line in parts[0].splitlines():
        k, _, v = line.partition(':')
        if k.strip():
            meta[{'breaks': 'what_it_breaks'}.get(k.strip(), k.strip())] = (
                v.strip())
    d = os.path.join(WORK, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo = d + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    for p in parts[1:]:
        name, _, body = p.partition('\n')
        old, new = body.split('\n=====\n') if '\n=====\n' in body else (
            body.split('\n=====')[0], '')
        old, new = old.strip('\n'), new.strip('\n')
        path = os.path.join(repo, name.strip())
        s = open(path).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(path, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
    name = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            name = line[6:]
            base_src = subprocess.check_output(
                ['git', 'show', BASE + ':' + name], cwd=repo,
                text=True).splitlines()
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:].strip() and line[1:] not in base_src:
                print('WARNING not an original line:', line)
    out = d + '/seed'
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(
        '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
        'exec timeout 60 /opt/venv/bin/python '
        '"$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump(meta, open(out + '/meta.json', 'w'), indent=1)
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '--timeout=120', 'verktyg/testsuite'], repo)
    ok = r.returncode == 0
    if not ok:
        print("TESTS FAIL " + r.stdout[-300:])
    r = run(['sh', out + '/demo.sh'], repo)
    if r.returncode == 0:
        ok = False
        print('demo passes with the patch')
    else:
        print('patched:', r.returncode, r.stdout.strip()[-200:])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    r = run(['sh', out + '/demo.sh'], repo)
    if r.returncode:
        ok = False
        print('demo fails on the clean tree', r.stdout[-300:])
    if ok:
        dst = os.path.join(ROOT, 'seeded', sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print('KEPT', sid)
    shutil.rmtree(d)


main()
