#!/usr/bin/env python3
"""Line mutants of a scratch copy of /repo, for measuring the checks. Never run by a check.
usage: mutate.py WORKER NWORKERS OUT.jsonl [FILTER]   (works in /tmp/mut/wN: repo/ and verif/)"""
import sys, re, os, subprocess, json, hashlib, shutil, time, signal
W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FILTER = sys.argv[4] if len(sys.argv) > 4 else ''
BASE = f'/tmp/mut/w{W}'
ORDER = 'C01 C02 C07 C03 C05 C20 C21 C22 C23 C17 C09 C16 C10 C14 C15 C12 C08 C06 C13 C18 C04 C11 C19'.split()
def sh(c, t=900, **k):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, 'timeout'
    return p.returncode, o
def setup():
    if os.path.exists(BASE): return
    os.makedirs(BASE)
    sh(f'git -C /repo archive HEAD | tar x -C {BASE} --one-top-level=repo; cp /repo/Cargo.lock {BASE}/repo/ 2>/dev/null; mkdir {BASE}/verif; git -C /verif archive HEAD | tar x -C {BASE}/verif')
    for f in ['verif/harness/Cargo.toml', 'verif/build.sh'] + ['verif/harness/src/' + x for x in os.listdir(f'{BASE}/verif/harness/src')]:
        p = f'{BASE}/{f}'; s = open(p).read(); t = s.replace('/repo/', f'{BASE}/repo/').replace('"/repo"', f'"{BASE}/repo"').replace('cd /repo ', f'cd {BASE}/repo ')
        if s != t: open(p, 'w').write(t)
OPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
 (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' \+= ', [' -= ', ' = ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
 (r'\b0\b', ['1']), (r'\b1\b', ['2', '0']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\.update\((\w+)\)', ['.update(Range::empty(\\1.offset))']),
 (r'Some\((\w+)\)$', ['None']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_empty\(\)', ['.len() == 1']), (r'\.next_offset\(\)', ['.offset']), (r'\.offset\b', ['.next_offset()']),
 (r'\.ends_with\(', ['.starts_with(']), (r'\?;$', [';']), (r"'(.)'", ["'~'"]), (r'"([^"]*)"', ['"~\\1"', '""']), (r'#\[inline\(always\)\]', []) ]
def mutants():
    r = []
    for root, _, fs in os.walk(f'{BASE}/repo/src'):
        if '/target' in root: continue
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            p = os.path.join(root, f); rel = os.path.relpath(p, f'{BASE}/repo')
            if FILTER and not re.search(FILTER, rel): continue
            L = open(p).read().split('\n')
            for i, l in enumerate(L):
                if '#[cfg(test)]' in l: break
                c = l.split('//')[0]
                if not c.strip() or c.strip().startswith(('use ', '#', '*', '/')): continue
                seen = {l}
                for pat, reps in OPS:
                    for m in re.finditer(pat, c):
                        for rp in reps:
                            n = l[:m.start()] + m.expand(rp) + l[m.end():]
                            if n not in seen: seen.add(n); r.append((rel, i, n))
                if re.match(r'^\s*[a-z_.&*]+.*;$', c) and not re.match(r'^\s*(let|return|use|pub|type|fn|mod)\b', c):
                    r.append((rel, i, re.match(r'^\s*', l).group() + '();' if False else ''))
                m = re.match(r'^(\s*)return (Ok|Err|None|Some|true|false)', c)
                if m and c.rstrip().endswith(';'): r.append((rel, i, ''))
    return sorted(r, key=lambda m: hashlib.md5(repr(m).encode()).hexdigest())
setup()
done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
ms = mutants(); print(len(ms), 'mutants', flush=True)
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{BASE}/tt', RUSTFLAGS='-Awarnings')
base = json.load(open('/opt/vp/BASELINE.json')); 
for k, (f, i, n) in enumerate(ms):
    if k % N != W or (f, i + 1, n) in done: continue
    p = f'{BASE}/repo/{f}'; src = open(p).read(); L = src.split('\n'); old = L[i]; L[i] = n
    open(p, 'w').write('\n'.join(L)); t0 = time.time(); res = None; sig = ''
    try:
        rc, o = sh(f'cd {BASE}/repo && cargo test --offline --no-run 2>&1', 300, env=env)
        if rc: res = 'nocompile'
        else:
            rc, o = sh(f'cd {BASE}/repo && ulimit -v 6000000 && cargo test --offline -- --test-threads 8 2>&1', 40, env=env)
            if rc == 0 and 'search' in f: rc, o = sh(f'cd {BASE}/repo/src/search && cargo test --offline 2>&1', 60, env=env)
            if rc: res = 'tests'
        if res is None:
            res = 'SURVIVED'
            for c in ORDER:
                rc, o = sh(f'cd {BASE}/verif && bash check.sh {c} quick 2>&1', 600)
                if rc == 1: res = c; sig = [x for x in o.split('\n') if x.startswith('signature')][:1]; break
                if rc not in (0, 1): res = f'ERR{rc}:{c}'; sig = o[-300:]; break
    finally: open(p, 'w').write(src)
    open(OUT, 'a').write(json.dumps({'file': f, 'line': i + 1, 'old': old, 'new': n, 'res': res, 'sig': sig, 't': round(time.time() - t0, 1)}) + '\n')
