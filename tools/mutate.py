#!/usr/bin/env python3
"""mutate.py REPO OUT SECONDS [WORKERS] [PATH-REGEX]: mutation testing of the checks.
Takes a copy of REPO's sources, makes one small change at a time (in random order), rebuilds the harnesses that
contain the file and runs their quick properties.  OUT gets one JSON line per change: killed (by what) or survived."""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, OUT, SECS = sys.argv[1], sys.argv[2], int(sys.argv[3])
NW = int(sys.argv[4]) if len(sys.argv) > 4 else 2
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
W = os.environ.get('MUT', '/tmp/mut')
HAND = os.environ.get('HAND')      # a file with changes written by hand: H(property, file, old, new[, file, old, new ...])
DIRS = {'logger': ['common/logger'], 'codec': ['common/logger', 'common/ua/common'], 'modbus': ['common/logger', 'modbus'],
        'ua': ['common/logger', 'common/ua/common', 'ua'], 'proto': ['common/logger', 'common/ua'],
        'reactor': ['common/logger', 'common/reactor'],
        'app': ['common/logger', 'common/reactor', 'common/ua/common', 'ua', 'modbus', 'controller', 'connector', 'detector', 'Deployer.cpp']}
PROPS = {}
for l in open(V + '/harness/targets'):
    f = l.split()
    if f: PROPS.setdefault(f[1], []).append(f[0])
SAN = '-fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=all'

def sources(app):
    r = []
    for d, _, fs in os.walk(app):
        if '/ut' in d or '/mock' in d: continue
        for f in fs:
            if f.endswith(('.cpp', '.hpp')) and f != 'main.cpp': r.append(os.path.join(d, f))
    return sorted(r)

def mutants(app):
    out = []
    for p in sources(app):
        rel = os.path.relpath(p, app)
        if not RX.search(rel): continue
        lines = open(p).read().split('\n')
        comment = False
        for n, l in enumerate(lines):
            s = l.strip()
            if '/*' in s: comment = True
            if '*/' in s: comment = False; continue
            if comment or not s or s.startswith(('//', '#', 'namespace', 'using', 'friend', 'class', 'struct', 'template', 'public', 'private', 'enum')) or 'LM(' in s or 'static_assert' in s: continue
            def add(new, why):
                if new != l: out.append((rel, n, l, new, why))
            for m in re.finditer(r' (<=|>=|==|!=|<|>) ', l):
                for r in {'<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<='], '>=': ['>'], '==': ['!='], '!=': ['==']}[m[1]]:
                    add(l[:m.start(1)] + r + l[m.end(1):], m[1] + '->' + r)
            for a, b in (('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('true', 'false'), ('false', 'true'), (' << ', ' >> '), (' & ', ' | '), (' += ', ' = '), (' -= ', ' += ')):
                for m in re.finditer(re.escape(a), l): add(l[:m.start()] + b + l[m.end():], a.strip() + '->' + b.strip())
            for m in re.finditer(r'\bnot ', l): add(l[:m.start()] + l[m.end():], 'not removed')
            for m in re.finditer(r'(?<![\w.\[])(0x[0-9a-fA-F]+|\d+)(?![\w.])', l):
                v = int(m[1], 0)
                add(l[:m.start()] + str(v + 1) + l[m.end():], f'{v}->{v+1}')
                if v > 1: add(l[:m.start()] + str(v - 1) + l[m.end():], f'{v}->{v-1}')
            if s.endswith(';') and p.endswith('.cpp') and l.startswith('    ') and not re.match(r'(return|break|continue|throw)\b', s):
                if re.match(r'[\w:.\->\[\]\*\(\)]+(\(.*\))?;$', s) or re.search(r'[\w\]\)] [+|&-]?= ', s) and not re.match(r'(auto|const|std::|int|bool|char|unsigned|\w+ (const )?&?\w+ =)', s):
                    add(re.match(r'\s*', l)[0] + ';', 'statement removed')
            if s == 'break;': add(l.replace('break;', '[[fallthrough]];'), 'break removed') if False else None
            m = re.match(r'(\s*)if \((.*)\)$', l)
            if m: add(f'{m[1]}if (true || ({m[2]}))', 'if true'); add(f'{m[1]}if (false && ({m[2]}))', 'if false')
            m = re.match(r'(\s*)return (Result::\w+|\w+::Result::\w+);$', l)
            if m:
                for r in ('done', 'noerror', 'error'): add(f"{m[1]}return {m[2].rsplit('::', 1)[0]}::{r};", 'return ' + r)
    return out

class Worker:
    def __init__(self, k):
        self.k = k; self.d = f'{W}/w{k}'; self.repo = self.d + '/repo'; self.app = self.repo + '/src/app'
        shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        shutil.copytree(REPO + '/src', self.repo + '/src')
        shutil.copytree(V + '/harness', self.d + '/harness'); shutil.copytree(V + '/engine', self.d + '/engine')
        inc = []
        for d, _, _ in sorted(os.walk(self.app)):
            if not re.search(r'/ut(/|$)', d): inc.append('-I' + d)
        n = ['ninja_required_version = 1.3']
        for h, dirs in DIRS.items():
            st = f'-I{self.d}/harness/stub ' if h == 'app' else ''
            n.append(f'rule cc_{h}\n command = g++ -std=c++20 -O1 -g1 -fno-omit-frame-pointer {SAN} -w -MMD -MF $out.d {st}-I{self.d}/engine -I{self.d}/harness {" ".join(inc)} -c $in -o $out\n depfile = $out.d\n deps = gcc')
            files = []
            for d in dirs:
                p = f'{self.app}/{d}'
                files += [p] if p.endswith('.cpp') else [s for s in sources(p) if s.endswith('.cpp')]
            if h == 'app': files = [f for f in files if not f.endswith('/Reactor.cpp')]
            files += [f'{self.d}/engine/pbt.cpp', f'{self.d}/harness/{h}.cpp']
            objs = []
            for f in sorted(set(files)):
                o = f'{self.d}/o/{h}/' + os.path.relpath(f, self.d).replace('/', '_') + '.o'
                objs.append(o); n.append(f'build {o}: cc_{h} {f}')
            n.append(f'rule ld_{h}\n command = g++ {SAN} $in -o $out -lpthread\nbuild {self.d}/{h}: ld_{h} {" ".join(objs)}')
            n.append(f'build {h}: phony {self.d}/{h}')
        open(self.d + '/build.ninja', 'w').write('\n'.join(n) + '\n')
    def ninja(self, *t): return subprocess.run(['ninja', '-C', self.d, '-j', '4', *t], capture_output=True, text=True)
    def harnesses(self, rel):
        if rel.endswith('.hpp'): return None
        return [h for h, ds in DIRS.items() if any(rel == d or rel.startswith(d + '/') for d in ds)]
    def test(self, m):
        rel, n, old, new, why = m
        p = f'{self.app}/{rel}'
        src = open(p).read(); lines = src.split('\n'); lines[n] = new
        open(p, 'w').write('\n'.join(lines))
        try:
            hs = self.harnesses(rel)
            order = ['codec', 'logger', 'proto', 'modbus', 'ua', 'reactor', 'app']
            if hs is None:      # a header: everything whose rebuild is not empty
                hs = [h for h in order if 'no work' not in self.ninja('-n', h).stdout]
            hs = [h for h in order if h in hs]
            if rel.startswith('common/logger'): hs = ['logger']
            if not hs: return 'unused', ''
            if rel.split('/')[0] in ('common', 'ua', 'modbus') and hs != ['app']: hs = [h for h in hs if h != 'app']
            for h in hs:
                r = self.ninja(h)
                if r.returncode:
                    return ('nocompile', '') if 'error:' in r.stdout else ('nolink', r.stdout[-300:])
                for prop in PROPS[h]:
                    try: r = subprocess.run([f'{self.d}/{h}', '--prop', prop, '--tier', 'quick', '--seed', '1', '--replay-dir', self.d, '--evidence', self.d + '/e.json'], capture_output=True, text=True, timeout=400, cwd=self.d)
                    except subprocess.TimeoutExpired: return 'killed', prop + ' timeout'
                    if r.returncode: return 'killed', prop
            return 'survived', ' '.join(hs)
        finally:
            open(p, 'w').write(src)

if HAND:
    todo = []
    def H(prop, *edits): todo.append((prop, [edits[i:i + 3] for i in range(0, len(edits), 3)]))
    exec(open(HAND).read())
    def hand(k):
        w = Worker(k)
        while True:
            with lock:
                if not todo: return
                prop, edits = todo.pop(0)
            saved = {}
            try:
                st = ''
                for f, old, new in edits:
                    c = [p for p in sources(w.app) if p.endswith('/' + f)]
                    if len(c) != 1: st = f'{f}: {len(c)} files'; break
                    t = open(c[0]).read(); saved.setdefault(c[0], t)
                    at = 0
                    if old.startswith('@'): at, old = int(old[1]), old[2:]
                    pos = -1
                    for _ in range(at + 1): pos = t.find(old, pos + 1)
                    if pos < 0: st = f'{f}: not found: {old[:60]}'; break
                    open(c[0], 'w').write(t[:pos] + new + t[pos + len(old):])
                if not st:
                    h = prop if prop in PROPS else [h for h, ps in PROPS.items() if prop in ps][0]
                    r = w.ninja(h)
                    if r.returncode: st = 'nocompile ' + r.stdout[-600:]
                    else:
                        try:
                            for q in PROPS[h] if prop == h else [prop]:
                                r = subprocess.run([f'{w.d}/{h}', '--prop', q, '--tier', 'quick', '--seed', '1', '--replay-dir', w.d, '--evidence', w.d + '/e.json'], capture_output=True, text=True, timeout=400, cwd=w.d); st = 'killed by ' + q if r.returncode else 'SURVIVED'
                                if r.returncode: break
                        except subprocess.TimeoutExpired: st = 'killed (timeout)'
            finally:
                for p, t in saved.items(): open(p, 'w').write(t)
            with lock:
                open(OUT, 'a').write(f'{st} {prop} {edits}\n')
    lock = threading.Lock()
    ts = [threading.Thread(target=hand, args=(k,)) for k in range(NW)]
    [t.start() for t in ts]; [t.join() for t in ts]
    sys.exit()
muts = mutants(REPO + '/src/app')
random.seed(int(os.environ.get('MSEED', '1'))); random.shuffle(muts)
print(len(muts), 'possible changes', flush=True)
done = set()
if os.path.exists(OUT):
    for l in open(OUT): j = json.loads(l); done.add((j['file'], j['line'], j['new']))
muts = [m for m in muts if (m[0], m[1] + 1, m[3].strip()) not in done]
lock = threading.Lock(); end = time.time() + SECS
def run(k):
    w = Worker(k)
    r = w.ninja()
    if r.returncode: print(r.stdout[-2000:]); return
    while time.time() < end:
        with lock:
            if not muts: return
            m = muts.pop()
        t = time.time()
        try: st, by = w.test(m)
        except Exception as e: st, by = 'exception', repr(e)
        with lock:
            open(OUT, 'a').write(json.dumps(dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), why=m[4], result=st, by=by, secs=round(time.time() - t))) + '\n')
ts = [threading.Thread(target=run, args=(k,)) for k in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
