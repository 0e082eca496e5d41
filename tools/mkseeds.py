#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds/*.py (each defines S(id, prop, kit, edits, demo, needs, breaks))."""
import json, os, subprocess, sys, tempfile, shutil, glob
V = '/verif'; R = os.environ.get('REPO', '/repo'); BASE = '9858c0c'
SEEDS = {}
def S(id, prop, kit, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, kit=kit, edits=edits, demo=demo, needs=needs, breaks=breaks)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'S': S})
KIT = {'codec': ['pbt.hpp'], 'mb': ['pbt.hpp', 'mbkit.hpp', 'world.hpp'], 'ua': ['pbt.hpp', 'uakit.hpp', 'world.hpp'], 'plain': ['pbt.hpp'], 'rx': ['pbt.hpp', 'rxkit.hpp'], 'app': ['pbt.hpp', 'appkit.hpp'], 'log': ['pbt.hpp', 'logkit.hpp'], 'proto': ['pbt.hpp', 'protokit.hpp', 'world.hpp']}
def gen(id):
    s = SEEDS[id]
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.remove(f'{d}/{f}')
    t = tempfile.mkdtemp()
    try:
        for side in 'ab': os.makedirs(f'{t}/{side}')
        done = {}
        for e in s['edits']:
            path, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
            src = done.get(path) or open(f'{R}/{path}').read()
            c = src.count(old)
            if nth is None:
                if c != 1: raise SystemExit(f'{id}: {path}: pattern occurs {c} times:\n{old}')
                src = src.replace(old, new)
            else:
                parts = src.split(old)
                src = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            done[path] = src
        p = ''
        for path, src in done.items():
            for side, txt in (('a', open(f'{R}/{path}').read()), ('b', src)):
                os.makedirs(os.path.dirname(f'{t}/{side}/{path}'), exist_ok=True)
                open(f'{t}/{side}/{path}', 'w').write(txt)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True)
        p = r.stdout
        # the changed lines must be the original repository's
        base = []
        for path in done:
            base += subprocess.run(['git', '-C', R, 'show', f'{BASE}:{path}'], capture_output=True, text=True).stdout.split('\n')
        removed = [l[1:] for l in p.split('\n') if l.startswith('-') and not l.startswith('---')]
        if removed and not any(l.strip() and l in base for l in removed): print(f'WARNING {id}: no removed line is in the base tree')
        open(f'{d}/patch.diff', 'w').write(p)
    finally:
        shutil.rmtree(t)
    for k in KIT[s['kit']]:
        shutil.copy(f'{V}/harness/world.hpp' if k == 'world.hpp' else f'{V}/tools/kit/{k}', f'{d}/{k}')
    shutil.copy(f'{V}/tools/kit/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
    inc = {'codec': '#include "pbt.hpp"\n#include "OpcUaBinaryCodec.hpp"\n#include "Logger.hpp"\nusing namespace app::ua;\n', 'mb': '#include "mbkit.hpp"\n', 'ua': '#include "uakit.hpp"\n', 'plain': '#include "pbt.hpp"\n', 'rx': '#include "rxkit.hpp"\n', 'app': '#include "appkit.hpp"\n', 'log': '#include "logkit.hpp"\n', 'proto': '#include "protokit.hpp"\n'}[s['kit']]
    body = s['demo'].strip('\n')
    if 'int main' not in body: body = 'int main()\n{\n' + '\n'.join('    ' + l for l in body.split('\n')) + '\n    return 0;\n}'
    open(f'{d}/demo.cpp', 'w').write(inc + body + '\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
ids = sys.argv[1:] or list(SEEDS)
for i in ids: gen(i)
print('generated', len(ids))
