#!/usr/bin/env python3
"""plant.py SPEC: write the bugs described in SPEC under seeded/.   plant.py --try ID...: confirm them and run the check.
Development aid only; no check reads it."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
SH = '''#!/bin/bash
# exit 0 if the library behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
g++ -std=c++17 -O1 -w -I_build/include -I/usr/include/hdf5/serial "$D/demo.cpp" _build/liboxsx.a -Wl,-rpath,$H $H/libhdf5_cpp.so $H/libhdf5.so -larmadillo -lgsl -lgslcblas -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo > out.txt 2>&1; rc=$?; grep '^FAILED' out.txt; exit $rc
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("\\nFAILED: %s\\n", #c); bad = 1; } } while (0)
#define THROWS(e) do { bool t_ = false; try { e; } catch (...) { t_ = true; } if (!t_) { printf("\\nFAILED: no exception from %s\\n", #e); bad = 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
'''
def write(spec):
    ids = []
    for b in re.split(r'^=== ', open(spec).read(), flags=re.M)[1:]:
        head, *secs = re.split(r'^--- *', b, flags=re.M); i, prop = [x.strip() for x in head.split('|')][:2]
        edits = []; f = old = None; d = {}
        for s in secs:
            n, _, t = s.partition('\n'); n = n.strip(); t = t[:-1] if t.endswith('\n') else t
            if n.startswith('old'): f = n.split()[1]; old = t
            elif n == 'new': edits.append((f, old, t))
            else: d[n] = t
        for f, o, n in edits:
            p = '/repo/src/' + f; s = open(p).read(); 
            if s.count(o) != 1: sh('git -C /repo checkout -- .'); sys.exit('%s: %d matches in %s' % (i, s.count(o), f))
            open(p, 'w').write(s.replace(o, n))
        os.makedirs(S + '/' + i, exist_ok=True); D = S + '/' + i
        open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout); sh('git -C /repo checkout -- .')
        open(D + '/demo.cpp', 'w').write(PRE + d['demo'].replace('MAIN', 'int main() {') + '\nreturn bad; }\n'); open(D + '/demo.sh', 'w').write(SH); os.chmod(D + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': ' '.join(d['needs'].split()), 'what_it_breaks': ' '.join(d['breaks'].split())}, open(D + '/meta.json', 'w'), indent=1); ids.append(i)
    return ids
def attempt(ids):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok = True; res = {}
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo not clean')
    for i in ids:
        D = S + '/' + i; prop = json.load(open(D + '/meta.json'))['property']
        try:
            a = sh('git -C /repo apply %s/patch.diff' % D)
            if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
            b = sh('bash /opt/vp/test.sh /tmp/plant.json', cwd='/repo'); r = json.load(open('/tmp/plant.json')); passed = set(r.get('passed', []) if isinstance(r, dict) else [])
            miss = stable - passed; dm = sh('bash %s/demo.sh' % D, cwd='/repo'); c = sh('%s/bin/check %s --tier quick' % (V, prop), env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally: sh('git -C /repo checkout -- .')
        vio = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        res[i] = (len(miss), dm.returncode, c.returncode); print(i, prop, 'tests-broken=%d' % len(miss), sorted(miss)[:2], 'demo=%d' % dm.returncode, 'CAUGHT' if c.returncode == 1 and vio else 'MISSED rc=%d' % c.returncode, dm.stdout.strip().splitlines()[:2], flush=True)
    sh('bash /opt/vp/build.sh', cwd='/repo')
    for i in ids:
        r = sh('bash %s/%s/demo.sh' % (S, i), cwd='/repo')
        if r.returncode: print(i, 'DEMO FAILS ON CLEAN', r.stdout[-500:])
if __name__ == '__main__':
    if sys.argv[1] == '--try': attempt(sys.argv[2:] or sorted(os.listdir(S)))
    else: attempt(write(sys.argv[1]))
