#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl, properties, PBT_SUB lines and seeded/ (run by hand; the output is committed)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
targets = {l.split()[0]: l.split() for l in open(V + '/harness/targets') if l.strip()}
subs = {}
for f in glob.glob(V + '/harness/*.cpp'):
    for m in re.finditer(r'^PBT_SUB\("(C\d+)", "([^"]+)", "((?:[^"\\]|\\.)*)", (\d+), (\d+)', open(f).read(), re.M):
        subs.setdefault(m[1], []).append(m.groups()[1:])
costs = {}
try: costs = json.load(open(V + '/tools/costs.json'))
except Exception: pass
out = []
for p in props:
    i = p['id']
    if i not in man: continue
    c = man[i]; t = targets[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Method: {c['technique']} (`harness/{t[1]}.cpp`" + (", also run under ThreadSanitizer" if len(t) > 2 else '') + ").")
    out.append(f"* Quantified {p['quantifier']['text']}.")
    for s in subs.get(i, []):
        out.append(f"* Generator `{s[0]}` ({int(s[2]):,} cases quick, {int(s[3]):,} thorough): {s[1]}.")
    out.append(f"* Bounds: {c['level_note']}")
    if i in costs: out.append(f"* Cost of the quick check: about {costs[i]} s including an incremental build.")
    out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}\n")
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
res = {}
try: res = json.load(open(V + '/tools/caught.json'))
except Exception: pass
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(n, m['property'])} |")
s = open(V + '/tools/DESIGN.tmpl').read().replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
print(len(s), 'bytes')
