#!/usr/bin/env python3
"""trybugs.py SPEC [DIR]: try quick bug sketches (plant.py's format, demo not needed) in a scratch copy; prints which checks see them.
Development aid only; no check reads it."""
import os, re, subprocess, sys, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = int(os.environ.get('TRY_WORKERS', '3')); J = str(max(1, 8 // W))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
D = sys.argv[2] if len(sys.argv) > 2 else '/tmp/trybugs'; os.makedirs(D, exist_ok=True)
bugs = []
for b in re.split(r'^=== ', open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, *secs = re.split(r'^--- *', b, flags=re.M); i, props = [x.strip() for x in head.split('|')][:2]; edits = []; f = old = None
    for s in secs:
        n, _, t = s.partition('\n'); n = n.strip(); t = t[:-1] if t.endswith('\n') else t
        if n.startswith('old'): f = n.split()[1]; old = t
        elif n == 'new': edits.append((f, old, t))
    ok = True
    for f, o, n in edits:
        c = os.path.exists('/repo/src/' + f) and open('/repo/src/' + f).read().count(o)
        if c != 1: print(i, '%d matches in %s' % (c, f)); ok = False
    if ok: bugs.append((i, props.split(), edits))
q = queue.Queue(); [q.put(b) for b in bugs]
def work(w):
    R = '%s/repo%d' % (D, w)
    if not os.path.exists(R): sh('cp -a /repo ' + R)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
    while True:
        try: i, props, edits = q.get_nowait()
        except queue.Empty: return
        for f, o, n in edits:
            p = R + '/src/' + f; s = open(p).read(); open(p, 'w').write(s.replace(o, n))
        out = []
        for p in props:
            c = sh('%s/bin/check %s --tier quick' % (V, p), env=dict(os.environ, VERIF_REPO=R, VERIF_BUILD='%s/b%d' % (D, w), VERIF_JOBS=J, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s:%s' % (p, 'CAUGHT' if c.returncode == 1 and v else 'MISSED' if c.returncode == 0 else 'rc=%d %s' % (c.returncode, c.stdout[-600:])))
        print(i, *out, flush=True); sh('git checkout -q -- .', cwd=R)
T = [threading.Thread(target=work, args=(w,)) for w in range(W)]; [t.start() for t in T]; [t.join() for t in T]
