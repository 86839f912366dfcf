#!/usr/bin/env python3
# writes DESIGN.md from tools/design_head.md, the harness heads, seeded/ and tools/design_tail.md
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read()]
notes = dict(re.findall(r'^(C\d+): (.*)$', open(V + '/tools/design_oracles.txt').read(), re.M))
out.append('\n## 3. Properties: what decides each\n\nAll are decided by the method above; `tools/mkdesign.py` copies bounds from the harness heads.\n')
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; t = open('%s/harness/%s.cpp' % (V, i)).read()
    g = lambda k: '; '.join(re.findall(r'^// %s: *(.*)$' % k, t, re.M)) or '-'
    hs = re.findall(r'^SX_HARNESS\((\w+)\)', t, re.M)
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* sources encoded: %s\n* oracle: %s\n* harnesses: %s\n* bounds: %s\n* outside: %s' % (g('SRC'), notes.get(i, '-'), ', '.join(hs), g('BOUNDS'), g('OUTSIDE')))
    if g('ASSUME') != '-': out.append('* assumptions: %s' % g('ASSUME'))
    out.append('* planted bugs caught: %s\n' % (', '.join('%s' % s for s, _ in seeds.get(i, [])) or '-'))
out.append('## 4. Planted bugs\n\n%d changes under `seeded/`, each confirmed: applies, builds, breaks no stable test, its demonstration fails with it and passes without it. Every one is caught by its property\'s quick check.\n\n| bug | needs |\n|---|---|' % sum(map(len, seeds.values())))
for i in sorted(seeds):
    for s, d in seeds[i]: out.append('| %s | %s |' % (s, d['needs'].replace('|', '/')))
out.append('\n' + open(V + '/tools/design_tail.md').read())
fx = [l.strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
out.append('\n## 6. Defects found and repaired in /repo\n\nEach is a `fix:` commit; the checks report it again on the old code.\n')
out += ['* %s' % re.sub(r'fixed: property=(\S+) (\S+) not so before: (.*)', r'\1, `\2`: \3', l) for l in fx]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
