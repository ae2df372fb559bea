"""Plant many bugs: seedall.py FILE, where each starts with '## ID PROPERTY'"""
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import os

HERE = os.path.dirname(os.path.abspath(__file__))
txt = open(sys.argv[1]).read()
parts = re.split(r'^## (\S+) (\S+)\n', txt, flags=re.M)[1:]


def one(i):
    sid, prop, body = parts[i:i + 3]
    if os.path.exists(os.path.join(HERE, '..', 'seeded', sid)):
        return sid, 'exists'
    p = subprocess.run([sys.executable, '-W', 'ignore',
                        HERE + '/seed.py', sid, prop],
                       input=body, capture_output=True, text=True)
    o = p.stdout + p.stderr
    return sid, " ".join(re.findall(r"KEPT|WARNING.*|TESTS FAIL|FAILED .*|demo .*|.*(?:not found|times|rror:).*", o)) or o[-600:]


with ThreadPoolExecutor(4) as ex:
    for sid, out in ex.map(one, range(0, len(parts), 3)):
        print(sid, '|', out, flush=True)
