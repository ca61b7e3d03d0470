#!/usr/bin/env python3
"""plant.py ID... [--no-check]: for each seeded bug, in a scratch copy of /repo bind-mounted over
/repo in a private mount namespace: demo passes without it; with it the tree builds, the stable tests pass,
the demo fails, and (unless --no-check) what the property's quick check says."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not ids: ids = sorted(os.listdir(V + '/seeded'))
pre = []
for i in ids:
    d = V + '/seeded/' + i; w = '/tmp/plant_' + i; prop = json.load(open(d + '/meta.json'))['property']
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, errors='replace', timeout=300)
    shutil.rmtree(w, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', w], check=True)
    sh = f'''mount --bind {w} /repo || exit 90
cd /repo; git apply {d}/patch.diff || exit 91
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || exit 92
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); p=set(json.load(open('/tmp/plant.json'))['passed'])
s=b.get('stable') or b.get('passed') or b
m=[t for t in s if t not in p]
print('TESTS', 'ok' if not m else 'MISSING %s' % m[:5])
X
timeout 300 bash {d}/demo.sh > /tmp/plant.demo 2>&1; echo "DEMO $?"; tail -3 /tmp/plant.demo
'''
    if '--no-check' not in sys.argv: sh += f'cd {V}; python3 check.py {prop} --tier quick > /tmp/plant.check 2>&1; echo "CHECK $?"; grep -E "^(violated|VIOLATION|check error)" /tmp/plant.check | cut -c1-400\n'
    r = subprocess.run(['unshare', '-m', 'bash', '-c', sh], capture_output=True, text=True, errors='replace')
    print('==', i, prop, 'clean-demo', r0.returncode, 'rc', r.returncode); print(r.stdout, r.stderr[-500:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
