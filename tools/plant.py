#!/usr/bin/env python3
"""Build and try planted bugs.  usage: plant.py SEEDS.py [id...]
SEEDS.py defines S = [dict(id, prop, file, edits=[(old,new),...] or files={f:[(old,new)]}, needs, breaks, demo)].
Works in the scratch copy /tmp/wt: applies, rebuilds, runs the tests, the demo with and without, and the check."""
import sys, os, json, subprocess, runpy
WT = os.environ.get('WT', '/tmp/wt'); VP = os.environ.get('WTVP', '/tmp/vpwt')
SEED = '/verif/seeded'
DEMO_SH = r'''#!/bin/bash
# Exit 0 when the property's behaviour holds, nonzero when it does not. Run with cwd /repo after build.sh.
here="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T=$(mktemp -d) || exit 3
g++ -std=gnu++14 -O1 -g -w @FLAGS@ -I"$R/export" -I"$R/include" -I"$R/src" -I/opt/vp/compat/include -I/usr/include/Imath -I/usr/include/hdf5/serial "$here/demo.cpp" @SRC@ -o "$T/demo" -L"$R/_build" -lField3D -lhdf5_serial -lImath-3_1 -lboost_thread -lboost_regex -lboost_system -lboost_filesystem -lpthread > "$T/log" 2>&1
rc=$?
if [ $rc -eq 0 ]; then
  (cd "$T" && LD_LIBRARY_PATH="$R/_build" timeout 120 "$T/demo" "$T")
  rc=$?
else
  cat "$T/log"; rc=3
fi
rm -r -f -- "$T"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    o = '/tmp/vpwt/out.%d.json' % os.getpid()
    r = sh('bash %s/test.sh %s' % (VP, o))
    d = json.load(open(o))
    p = set(d.get('passed', [])) if isinstance(d.get('passed'), list) else {k for k, v in d.items() if v in (True, 'passed', 'pass')}
    return sorted(stable - p)
def main():
    S = runpy.run_path(sys.argv[1])['S']; want = set(sys.argv[2:])
    for s in S:
        if want and s['id'] not in want: continue
        sh('git -C %s checkout -q -- .' % WT)
        files = s.get('files') or {s['file']: s['edits']}
        ok = True
        for f, ed in files.items():
            t = open(WT + '/' + f).read()
            for a, b in ed:
                if t.count(a) != 1: print(s['id'], 'MATCH', t.count(a), repr(a[:60])); ok = False; break
                t = t.replace(a, b)
            if ok: open(WT + '/' + f, 'w').write(t)
        if not ok: continue
        d = SEED + '/' + s['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C %s diff' % WT, shell=True, stdout=subprocess.PIPE, text=True).stdout)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH.replace('@FLAGS@', s.get('flags', '')).replace('@SRC@', s.get('src', ''))); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash %s/build.sh' % VP)
        if b.returncode: print(s['id'], 'BUILD FAILED', b.stdout[-1500:]); continue
        dm = sh('bash %s/demo.sh' % d, cwd=WT)
        t = tests() if '-notest' not in sys.argv else ['?']
        base = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('SYM_REPO=%s timeout 900 python3 /verif/checks/run.py %s' % (WT, s['prop']), cwd='/verif')
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        good = dm.returncode not in (0, 3) and base.returncode == 0 and not t
        print(s['id'], 'VALID' if good else 'INVALID', 'demo', base.returncode, '->', dm.returncode, 'tests-broken', t[:3], 'check rc', c.returncode, v[:1], flush=True)
        if not good: print('   base:', base.stdout[-500:], '\n   demo:', dm.stdout[-500:])
        if not v: print('   check tail:', c.stdout[-1500:], flush=True)
    sh('git -C %s checkout -q -- .' % WT)
main()
