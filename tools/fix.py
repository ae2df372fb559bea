"""fix.py FILE MSG <<< old\n=====\nnew"""
import sys, subprocess
f, msg = sys.argv[1:3]
edits = sys.stdin.read().split('\n#####\n')
p = '/repo/' + f
s = open(p).read()
for e in edits:
    old, new = e.split('\n=====\n')
    old = old.strip('\n'); new = new.rstrip('\n').lstrip('\n')
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, 'w').write(s)
r = subprocess.run(['bash', '-c', 'bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1; tail -1 /tmp/w/test.log; python3 - <<X\nimport json\nb=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open("/tmp/w/out.json"))\nimport sys\nbp=set(b.get("passed") or b.get("stable") or b)\nop=set(o.get("passed"))\nprint("lost",sorted(bp-op)[:5], len(bp))\nsys.exit(bool(bp-op))\nX'])
if r.returncode:
    print('TESTS FAIL; reverting'); subprocess.run(['git','-C','/repo','checkout','--',f]); sys.exit(1)
subprocess.run(['git','-C','/repo','commit','-qam','fix: '+msg])
subprocess.run(['git','-C','/repo','log','--oneline','-1'])
