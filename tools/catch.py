"""Run checks against planted bugs in scratch copies: catch.py [ID...] [-j N]

Prints, per bug, whether its property's check reports it.  With --all every
check is run against every bug.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG = os.path.join(ROOT, 'tools', 'caught.json')
WORK = '/tmp/seedwork'


def one(sid, extra=()):
    d = os.path.join(WORK, 'catch-' + sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(src + '/meta.json'))
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    r = subprocess.run(['git', 'apply', src + '/patch.diff'], cwd=d + '/repo')
    if r.returncode:
        shutil.rmtree(d)
        return sid, meta['property'], 'PATCH FAILS', 0, ''
    env = dict(os.environ, SYMX_REPO=d + '/repo', SYMX_EVIDENCE=d)
    t = time.time()
    p = subprocess.run([ROOT + '/check', meta['property'], '--tier', 'quick'],
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    out = p.stdout
    res = ('caught' if p.returncode == 1 and 'VIOLATION property=%s'
           % meta['property'] in out else 'MISSED rc=%d' % p.returncode)
    line = [x.strip() for x in out.splitlines() if x.startswith('  harness')][:1]
    shutil.rmtree(d)
    return sid, meta['property'], res, time.time() - t, (' | '.join(line)[:200]).replace('|', '/')


def main():
    a = argparse.ArgumentParser()
    a.add_argument('ids', nargs='*')
    a.add_argument('-j', type=int, default=2)
    a = a.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    log = json.load(open(LOG)) if os.path.exists(LOG) else {}
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(one, ids):
            print('%-28s %s %s %.0fs %s' % r, flush=True)
            log[r[0]] = ('`%s`' % r[4] if r[2] == 'caught' else r[2])
    with open(LOG, 'w') as f:
        json.dump(log, f, indent=1, sort_keys=True)
        f.write('\n')


main()
