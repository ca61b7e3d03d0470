#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: build, simulate, gate, report.

Exit 0: the property held on every simulated run.  Exit 1 (with a VIOLATION
line): it does not, and the replay file named reproduces it exactly in a fresh
process.  Anything else: the check itself failed and says nothing.
"""
import sys, os, json, subprocess, time, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.rstrip('\n')
            m = re.match(r'known: property=(\S+) key=(\S+) match="(.*?)" (.*)$', ln)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, 'checks.json')))[prop]
    known = known_findings(prop)
    runs = os.path.join(VERIF, 'runs'); os.makedirs(runs, exist_ok=True)
    good = []; seen = set(); seen_known = set(); errors = []; parts = []
    agg = {'counts': {}, 'faults': {}, 'probes': {}, 'scen': {}, 'distinct': {}, 'samples': [], 'elapsed': 0.0}
    mult = float(os.environ.get('SIM_TIME_SCALE', '1'))
    for part in conf['parts']:
        h = part['harness']; asan = part.get('asan', False)
        if part.get('tier') and part['tier'] != tier: continue
        try: binp = B.build([h], asan)[h]
        except B.Failed as e:
            print('check error: build failed'); print(str(e)[-3000:]); return 2
        d = os.path.join(runs, '%s.%s.%s%s' % (prop, tier, h, '.asan' if asan else ''))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        kf = os.path.join(d, 'known.txt')
        with open(kf, 'w') as f:
            for k in known: f.write('%s\t%s\n' % (k[0], k[1]))
        secs = (part['quick_s'] if tier == 'quick' else part['thorough_s']) * mult
        minr = part.get('min_runs', 400) if tier == 'quick' else part.get('min_runs', 400) * 5
        cmd = [binp, '--property', prop, '--seed', str(seed), '--secs', str(secs), '--max-secs', str(secs * 4 + 60), '--min-runs', str(minr), '--jobs', '8', '--dir', d, '--known', kf, '--max-violations', '2']
        if tier == 'thorough': cmd.append('--thorough')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1')
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env)
        el = 0; viol = []
        for ln in r.stdout.split('\n'):
            f = ln.split(' ')
            if ln.startswith('VIOLATION '):
                path, p, key, msg = ln[10:].split('\t', 3); viol.append((path, key, msg))
            elif ln.startswith('KNOWN '): seen_known.add(ln[6:])
            elif ln.startswith('HARNESS_ERROR'): errors.append(ln)
            elif ln.startswith('SAMPLE '): agg['samples'].append(ln[7:1200])
            elif f[0] in ('FAULT', 'PROBE', 'SCEN', 'DISTINCT') and len(f) == 3:
                k = {'FAULT': 'faults', 'PROBE': 'probes', 'SCEN': 'scen', 'DISTINCT': 'distinct'}[f[0]]
                agg[k][f[1]] = agg[k].get(f[1], 0) + int(f[2])
            elif f[0] in ('RUNS', 'DISCARDS', 'NONTRIVIAL', 'STEPS', 'SIMUS', 'DET') and len(f) == 2:
                agg['counts'][f[0]] = agg['counts'].get(f[0], 0) + int(f[1])
            elif f[0] == 'ELAPSED': el = float(f[1])
        agg['elapsed'] += el
        if r.returncode or 'DONE ok' not in r.stdout:
            errors.append('harness %s ended with %d: %s' % (h, r.returncode, (r.stdout + r.stderr)[-500:]))
        # gate: a fresh process must reproduce each violation exactly from its replay file
        for path, key, msg in viol:
            if key in seen: continue
            ok = True
            for _ in range(2):
                rr = subprocess.run([binp, '--replay', path, '--dir', os.path.dirname(path)], capture_output=True, text=True, errors='replace', env=env)
                if 'REPLAY exact' not in rr.stdout: ok = False; errors.append('replay of %s did not reproduce: %s' % (path, rr.stdout[-300:])); break
            if ok: seen.add(key); good.append((path, key, msg))
            if len(good) >= 4 or time.time() - t0 > 500: break
        if good: break   # the verdict is settled: the remaining parts would not change it
    for k in known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k[2], k[0]))
    c = agg['counts']; wall = time.time() - t0
    evals = c.get('RUNS', 0); hours = max(agg['elapsed'], 1e-6) / 3600
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': conf['level'],
          'coverage': {
              'evaluations': evals, 'distinct_nontrivial': agg['distinct'].get('ntshapes', 0),
              'rule': conf['rule'] + ' A run counts as non-trivial when it reached the check its scenario marks as such; distinct = different hash of its sequence of operation and fault kinds.',
              'samples': agg['samples'][:6],
              'runs_per_hour': int(evals / hours), 'seeds_per_hour': int(evals / hours),
              'nontrivial_runs': c.get('NONTRIVIAL', 0), 'vacuous_runs_discarded': c.get('DISCARDS', 0),
              'events': c.get('STEPS', 0), 'simulated_seconds': c.get('SIMUS', 0) / 1e6,
              'determinism_rechecks': c.get('DET', 0),
              'faults_injected': agg['faults'], 'runs_per_scenario': agg['scen'], 'situations_reached': agg['probes'],
              'distinct_interleavings': agg['distinct'].get('shapes', 0), 'distinct_states': agg['distinct'].get('states', 0),
              'state_measure': conf.get('state_measure', 'hash of the abstract state each scenario reports (client positions, fault armed or not, kinds of object)'),
              'real_components': conf['real'], 'simulated_components': conf['stub'],
              'known_findings_seen': sorted(seen_known)},
          'assumptions': conf.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(good)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for path, key, msg in good:
        print('violated: %s: %s' % (key, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d runs (%d non-trivial), %d distinct interleavings, %d states, %.1f s' % (prop, tier, evals, c.get('NONTRIVIAL', 0), agg['distinct'].get('shapes', 0), agg['distinct'].get('states', 0), wall))
    if good: return 1
    if errors:
        for e in errors: print('check error:', e)
        return 2
    if evals == 0 or c.get('NONTRIVIAL', 0) == 0:
        print('check error: nothing was exercised'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
