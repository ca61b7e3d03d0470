"""Helper to write a seeded bug: bug(id, property, [(file, old, new)...], needs, breaks, demo_cpp or demo_sh)."""
import os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP_SH = '''#!/bin/bash
# Builds the demonstration against the library in /repo/_build and runs it in a scratch directory.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -r -- "$T"' EXIT
L=/repo/_build/ringing/.libs
g++ -std=gnu++17 -w -O1 -g -I/repo -I/repo/_build -I/usr/include/libgdome -I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include -I/usr/include/libxml2 -o "$T/demo" "$D/demo.cpp" $L/libringing.a $L/libringingcore.a -lgdome -lxml2 -lglib-2.0 || { echo "demo does not compile"; exit 3; }
cd "$T" && timeout 60 ./demo
'''
def bug(id, prop, edits, needs, breaks, cpp=None, sh=None, extra={}):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='wt'); os.rmdir(wt)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p, encoding='latin-1', newline='').read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, check=True).stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if cpp: open(os.path.join(d, 'demo.cpp'), 'w').write(cpp); sh = sh or CPP_SH
    open(os.path.join(d, 'demo.sh'), 'w').write(sh); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for k, v in extra.items(): open(os.path.join(d, k), 'w').write(v)
