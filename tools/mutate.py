#!/usr/bin/env python3
"""Mutation analysis of the checks: small changes to /repo's sources, each tried against the checks that
encode the changed file. Works on scratch copies only.

usage: mutate.py OUTDIR [--n N] [--seed S] [--workers W] [--jobs J per check] [--cap most checks per mutant] [--files a.cpp b.hpp] [--only keys.txt] [--skip OUTDIR] [--budget s]
OUTDIR/killed.txt, OUTDIR/survivors.txt, OUTDIR/invalid.txt
"""
import argparse, glob, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = [('Low', 'High'), ('Min', 'Max'), ('min', 'max'), ('lower', 'upper'), ('Rows', 'Cols'), ('row', 'col'), ('first', 'second'), ('begin()', 'end()'), ('true', 'false'), ('fMean1', 'fMean2'), ('sigma_hi', 'sigma_lo'), ('fDistObs', 'fTransObs'), ('i', 'j'), ('front', 'back'), ('old_', 'new_')]
OPS = [(' <= ', ' < '), (' >= ', ' > '), (' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), (' += ', ' -= '), (' += ', ' = '), (' -= ', ' += '), (' *= ', ' /= '), (' /= ', ' *= '), (' *= ', ' = '), (' && ', ' || '), (' || ', ' && ')]
def code(line):
    s = line.strip()
    return s and not s.startswith(('//', '*', '/*', '#')) and 'cout' not in s and '<<' not in s and 'std::setw' not in s
def mutants(path):
    ls = open(path, errors='replace').read().split('\n'); out = []; com = False
    for k, l in enumerate(ls):
        if '/*' in l and '*/' not in l: com = True
        if com:
            if '*/' in l: com = False
            continue
        if not code(l): continue
        c = l.split('//')[0]; q = re.sub(r'"[^"]*"', lambda m: '"' + '~' * (len(m.group(0)) - 2) + '"', c)
        def put(n, why):
            if n != l: out.append((k, l, n, why))
        if 'throw' not in q:
            for a, b in OPS:
                for m in re.finditer(re.escape(a), q): put(c[:m.start()] + b + c[m.end():], a.strip() + ' to ' + b.strip())
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', q):
                v = int(m.group(1)); put(c[:m.start()] + str(v + 1) + c[m.end():], '%d to %d' % (v, v + 1))
                if v: put(c[:m.start()] + str(v - 1) + c[m.end():], '%d to %d' % (v, v - 1))
            for m in re.finditer(r'(?<![\w.])0?\.5(?!\d)', q): put(c[:m.start()] + '0.25' + c[m.end():], 'half to quarter')
            m = re.match(r'^(\s*(?:\} *)?(?:else )?if \()(.*)(\).*)$', q)
            if m:
                a, z = m.start(2), m.end(2)
                put(c[:a] + 'true' + c[z:], 'condition true'); put(c[:a] + 'false' + c[z:], 'condition false')
            for m in re.finditer(r'!(?=[\w(])', q): put(c[:m.start()] + c[m.end():], 'negation dropped')
            for a, b in SWAP:
                for x, y in ((a, b), (b, a)):
                    pat = r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(x) if len(x) < 3 or x in ('true', 'false') else re.escape(x)
                    for m in re.finditer(pat, q): put(c[:m.start()] + y + c[m.end():], x + ' to ' + y)
            if re.match(r'^\s+[\w.\->\[\]()*:]+ *(=|\+=|-=|\*=|/=)[^=].*;\s*$', q) or re.match(r'^\s+(delete )?[\w.\->:\[\]]+(\(.*\))?;\s*$', q) and not re.match(r'^\s+(return|break|continue|else|public|private)\b', q) and ('(' in q or 'delete' in q or '++' in q):
                put('    ;', 'statement deleted')
            if re.match(r'^\s+(break|continue);', q): put('    ;', 'statement deleted')
        elif q.strip().startswith('throw') and q.rstrip().endswith(';'): put('    ;', 'throw deleted')
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('--n', type=int, default=200); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--workers', type=int, default=8); ap.add_argument('--files', nargs='*'); ap.add_argument('--budget', type=float, default=60); ap.add_argument('--skip'); ap.add_argument('--only', help='file of keys, e.g. survivors.txt of an earlier run'); ap.add_argument('--jobs', default='1'); ap.add_argument('--cap', type=int, default=7)
    a = ap.parse_args(); os.makedirs(a.out, exist_ok=True)
    src = '/repo/src'; deps = {}; spec = {}
    inc = ' '.join('-I' + d for d in [V + '/stubs', V + '/engine', V + '/harness'] + sorted({r for r, _, f in os.walk(src) if any(x.endswith(('.h', '.hpp')) for x in f)}))
    allf = {os.path.basename(p): p for p in glob.glob(src + '/*/*.cpp')}
    headers = {}
    for h in sorted(glob.glob(V + '/harness/C*.cpp')):
        pid = os.path.basename(h)[:3]; m = re.search(r'^// *SRC: *(.*)$', open(h).read(), re.M)
        spec[pid] = len(m.group(1).split()) if m else 99
        for s in (m.group(1).split() if m else []):
            deps.setdefault(s, []).append(pid)
        r = subprocess.run('clang++-18 -std=c++17 %s -MM %s' % (inc, h), shell=True, capture_output=True, text=True).stdout
        for f in re.findall(r'/repo/src/\S+', r): headers.setdefault(os.path.basename(f), []).append(pid)
    files = [p for p in glob.glob(src + '/*/*.cpp') + glob.glob(src + '/*/*.hpp') + glob.glob(src + '/*/*.h') if (not a.files or os.path.basename(p) in a.files) and (os.path.basename(p) in deps or os.path.basename(p) in headers)]
    todo = [(p,) + m for p in sorted(files) for m in mutants(p)]
    if a.only:
        keys = {l.split(' || ')[0] for l in open(a.only)}; todo = [t for t in todo if '%s:%d %s [%s] %s' % (os.path.basename(t[0]), t[1] + 1, t[4], t[2].strip(), t[3].strip()) in keys]
    random.Random(a.seed).shuffle(todo); total = len(todo); todo = todo[:a.n]
    done = set()
    if a.skip:
        for f in glob.glob(a.skip + '/*.txt'): done |= {l.split(' || ')[0] for l in open(f)}
    cost = {}
    for e in glob.glob(V + '/evidence/C*.json'):
        import json
        try: cost[os.path.basename(e)[:3]] = json.load(open(e))['wall_s']
        except Exception: pass
    print('%d mutants in %d files, trying %d' % (total, len(files), len(todo)), flush=True); lock = threading.Lock(); t0 = time.time(); cnt = {'killed': 0, 'survivors': 0, 'invalid': 0}
    def work(w):
        d = os.path.join(a.out, 'w%d' % w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(src, d + '/repo/src'); os.makedirs(d + '/v')
        for x in ('bin', 'harness', 'engine', 'stubs', 'known_findings.txt'): (shutil.copytree if os.path.isdir(V + '/' + x) else shutil.copy)(V + '/' + x, d + '/v/' + x)
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/b', VERIF_JOBS=a.jobs)
        while True:
            with lock:
                if not todo: return
                p, k, l, n, why = todo.pop()
            key = '%s:%d %s [%s] %s' % (os.path.basename(p), k + 1, why, l.strip(), n.strip())
            if key in done: continue
            q = d + '/repo' + p[len('/repo'):]; o = open(p, errors='replace').read(); s = o.split('\n'); s[k] = n; open(q, 'w').write('\n'.join(s))
            ids = list(dict.fromkeys(deps.get(os.path.basename(p), []) + headers.get(os.path.basename(p), [])))
            ids = sorted(ids, key=lambda i: (spec.get(i, 99) if len(ids) > 4 else 0, cost.get(i, 10)))[:a.cap]  # the most specific checks first
            res = 'survivors'; by = ''; inc = ''
            for i in ids:
                try: r = subprocess.run([d + '/v/bin/check', i, '--budget', str(a.budget)], env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired: inc += ' %s:timeout' % i; continue
                if r.returncode == 1: res, by = 'killed', i; break
                if r.returncode == 2 and 'compiling' in r.stderr: res = 'invalid'; break
                if r.returncode or 'incomplete:' in r.stdout: inc += ' %s:rc%d%s' % (i, r.returncode, ' incomplete' if 'incomplete:' in r.stdout else '')
            open(q, 'w').write(o)
            with lock:
                cnt[res] += 1; open(os.path.join(a.out, res + '.txt'), 'a').write('%s || %s%s\n' % (key, by or ','.join(ids), inc)); print('%ds %s %s' % (time.time() - t0, cnt, res + ' ' + key if res == 'survivors' else ''), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    for w in range(a.workers): shutil.rmtree(os.path.join(a.out, 'w%d' % w), ignore_errors=True)
main()
