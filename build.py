#!/usr/bin/env python3
"""Builds simulation harnesses from /repo's current working tree.

Objects are cached under /verif/build keyed by content (command line, source and
every /repo or /verif header it includes), so a changed tree is always rebuilt
and an unchanged one never is, whatever the file times say.
"""
import sys, os, json, hashlib, subprocess, fcntl, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
GDOME = ['-I/usr/include/libgdome', '-I/usr/include/glib-2.0',
         '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-I/usr/include/libxml2']
LIBS = ['-lgdome', '-lxml2', '-lglib-2.0', '-lreadline', '-ltermcap', '-ldl']

# harness -> (app dir or None, scenario sources)
HARNESS = {
    'lib':         (None, []),
}
_h = os.path.join(VERIF, 'harness.json')
if os.path.exists(_h):
    HARNESS = {k: tuple(v) for k, v in json.load(open(_h)).items()}

def sha(b):
    return hashlib.sha256(b).hexdigest()

_hcache = {}
def fhash(p):
    if p not in _hcache:
        try: _hcache[p] = sha(open(p, 'rb').read())
        except OSError: _hcache[p] = None
    return _hcache[p]

def gen_config(bdir):
    """config header, and gsiril's init.dat made the way its Makefile makes it."""
    inc = os.path.join(bdir, 'inc', 'ringing'); os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(VERIF, 'config/ringing/common-am.h')).read()
    tmpl = os.path.join(REPO, 'ringing/common-am.h.in')
    if os.path.exists(tmpl):
        vals = json.load(open(os.path.join(VERIF, 'config/values.json')))
        t = open(tmpl).read()
        for k, v in vals.items(): t = t.replace('@%s@' % k, v)
        if not re.search(r'^\s*#\s*define\s+\w+\s+@', t, re.M): src = t
    put(os.path.join(inc, 'common-am.h'), src)
    out = []
    init = os.path.join(REPO, 'apps/gsiril/init/gsiril.init')
    if os.path.exists(init):
        awk = os.path.join(REPO, 'apps/gsiril/escape.awk')
        r = subprocess.run(['awk', '-f', awk, init], capture_output=True, check=True)
        put(os.path.join(bdir, 'inc', 'init.dat'), r.stdout.decode('latin-1'))

def put(p, s):
    b = s.encode('latin-1')
    try:
        if open(p, 'rb').read() == b: return
    except OSError: pass
    with open(p, 'wb') as f: f.write(b)
    _hcache.pop(p, None)

class Failed(Exception): pass

def compile_one(src, obj, flags):
    cmd = ['g++'] + flags + ['-c', src, '-o', obj]
    meta = obj + '.json'
    want = sha(json.dumps(cmd).encode())
    try:
        m = json.load(open(meta))
        if m['cmd'] == want and os.path.exists(obj) and all(fhash(p) == h for p, h in m['deps'].items()):
            return False
    except (OSError, ValueError, KeyError): pass
    dep = obj + '.d'
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ['-MMD', '-MF', dep], capture_output=True, text=True)
    if r.returncode:
        raise Failed('compile failed: %s\n%s' % (' '.join(cmd), r.stderr[-6000:]))
    if '-DSIM_APP' in flags:   # a program's main() stays a main() (it may end without a return), under another name
        r = subprocess.run(['objcopy', '--redefine-sym', 'main=_Z8app_mainiPPc', obj], capture_output=True, text=True)
        if r.returncode: raise Failed('objcopy failed: %s' % r.stderr)
    toks = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
    deps = {p: fhash(p) for p in toks if p.startswith((REPO, VERIF, BUILD)) }
    json.dump({'cmd': want, 'deps': deps}, open(meta, 'w'))
    return True

def lib_sources():
    am = open(os.path.join(REPO, 'ringing/Makefile.am')).read().replace('\\\n', ' ')
    names = []
    for v in ('libringingcore_la_SOURCES', 'libringing_la_SOURCES'):
        mm = re.search(r'^%s\s*=(.*)$' % v, am, re.M)
        if mm: names += [x for x in mm.group(1).split() if x.endswith('.cpp')]
    names.append('dom_gdome.cpp')
    return sorted(set(os.path.join(REPO, 'ringing', n) for n in names))

def app_sources(app):
    d = os.path.join(REPO, 'apps', app)
    am = open(os.path.join(d, 'Makefile.am')).read().replace('\\\n', ' ')
    mm = re.search(r'^%s_SOURCES\s*=(.*)$' % (app if app != 'utils' else 'libstuff_a'), am, re.M)
    return [os.path.join(d, x) for x in mm.group(1).split() if x.endswith('.cpp')]

def util_sources():
    d = os.path.join(REPO, 'apps', 'utils')
    return sorted(glob.glob(os.path.join(d, '*.cpp')))

def build(names, asan=False, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    _hcache.clear()
    gen_config(BUILD)
    var = 'asan' if asan else 'plain'
    base = ['-std=gnu++17', '-g1', '-O1', '-w', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO, '-I' + os.path.join(BUILD, 'inc')] + GDOME
    if asan: base += ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,signed-integer-overflow,shift,float-cast-overflow,enum,bool,float-divide-by-zero', '-fno-sanitize-recover=undefined', '-DSIM_ASAN']
    jobs, outs = [], {}
    def add(src, sub, extra=()):
        obj = os.path.join(BUILD, var, sub, os.path.basename(src).replace('.cpp', '.o'))
        jobs.append((src, obj, base + list(extra))); return obj
    seen = {}
    def once(key, f):
        if key not in seen: seen[key] = f()
        return seen[key]
    for n in names:
        app, scen = HARNESS[n]
        o = once('sim', lambda: [add(s, 'sim') for s in sorted(glob.glob(VERIF + '/sim/*.cpp'))])[:]
        o += [once('scen' + s, lambda s=s: add(os.path.join(VERIF, 'scen', s), 'scen/' + n, ['-I' + VERIF + '/sim', '-I' + VERIF + '/scen', '-I' + REPO + '/apps/utils'] + (['-I' + REPO + '/apps/' + app] if app else []))) for s in scen]
        o += once('lib', lambda: [add(s, 'lib', []) for s in lib_sources()])
        if app:
            o += once('utils', lambda: [add(s, 'utils', ['-I' + REPO + '/apps/utils']) for s in util_sources()])
            if app != 'utils':
                o += once('app' + app, lambda: [add(s, 'app_' + app, ['-DSIM_APP', '-I' + REPO + '/apps/utils', '-I' + REPO + '/apps/' + app]) for s in app_sources(app)])
        outs[n] = o
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: compile_one(*j), jobs))
    bins = {}
    for n in names:
        b = os.path.join(BUILD, var, 'bin', n); os.makedirs(os.path.dirname(b), exist_ok=True)
        key = sha(json.dumps([(p, fhash(p + '.json'), fhash(p)) for p in outs[n]]).encode())
        kf = b + '.key'
        if not (os.path.exists(b) and os.path.exists(kf) and open(kf).read() == key):
            tmp = b + '.tmp'
            cmd = ['g++', '-rdynamic'] + (['-fsanitize=address,undefined'] if asan else []) + ['-o', tmp] + outs[n] + LIBS
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise Failed('link failed: %s' % r.stderr[-6000:])
            os.replace(tmp, b); open(kf, 'w').write(key)
        bins[n] = b
    if verbose: print('compiled %d of %d objects' % (sum(rs), len(rs)))
    return bins

if __name__ == '__main__':
    asan = '--asan' in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or list(HARNESS)
    try:
        for n, b in build(names, asan, True).items(): print(n, b)
        if '--quick' in sys.argv:   # setup: also the sanitizer builds the checks use
            conf = json.load(open(os.path.join(VERIF, 'checks.json')))
            an = sorted({p['harness'] for c in conf.values() for p in c['parts'] if p.get('asan')})
            if an: build(an, True, True)
    except Failed as e:
        print(e); sys.exit(2)
