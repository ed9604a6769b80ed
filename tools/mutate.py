#!/usr/bin/env python3
"""Developer tool: how many one-line changes of the library do the quick checks notice?

  mutate.py WORKERS COUNT SEED OUT [path-filter]

Works in copies under /tmp/mut, never in /repo. Each change is tried against the checks of the
properties that name the file; OUT gets one JSON line per change."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
W, COUNT, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILTER = sys.argv[5] if len(sys.argv) > 5 else ''
BASE = '/tmp/mut'
MAP = [('src/aes', 'C01 C04'), ('src/des', 'C02 C04'), ('src/sm4', 'C03 C04'), ('src/md5', 'C10 C14'), ('src/sha/', 'C10 C11 C14'), ('src/sm3', 'C10 C14'),
       ('src/sha3', 'C12 C13 C14'), ('src/keccak', 'C12 C13 C14'), ('src/hmac', 'C15 C14'), ('src/cmac', 'C16 C14'), ('src/zuc', 'C17 C18 C14'),
       ('src/cipher_mode', 'C05 C06 C07 C08 C09 C36 C31'),
       ('src/rsa/oaep', 'C21 C35 C36 C30 C31 C34 C32'), ('src/rsa/pkcs1', 'C22 C23 C35 C36 C30 C31 C34 C32'), ('src/rsa/pss', 'C24 C35 C36 C30 C31 C34 C32'), ('src/rsa/sig', 'C35 C23 C24'),
       ('src/rsa', 'C20 C36 C19 C32 C22 C21 C31 C34 C30'), ('src/dsa/sig', 'C35 C25 C27'), ('src/dsa', 'C25 C35 C36 C32 C31 C30 C34 C26'),
       ('src/ecdsa', 'C35 C36 C30 C31 C32 C27 C34'), ('src/elliptic/p', 'C28 C32 C34'), ('src/elliptic/key', 'C35 C29 C32'), ('src/elliptic', 'C29 C28 C32 C27'), ('src/', 'C31 C36 C35 C34')]
def cands():
    out = []
    for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'src'], text=True).split():
        if not f.endswith('.rs') or 'test' in f or 'const_tables' in f or 'kdf' in f or FILTER not in f:
            continue
        if f in ('src/md5/md5_amd64.rs', 'src/sha/sha1_amd64.rs', 'src/sha/sha256_amd64.rs'):
            continue
        lines = open('/repo/' + f).read().split('\n')
        skip = False
        for n, l in enumerate(lines):
            s = l.strip()
            if '#[cfg(test)]' in l:
                break
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('///'):
                continue
            code = l.split('//')[0]
            if code.count('"') >= 2:
                q = [m.span() for m in re.finditer(r'"[^"]*"', code)]
            else:
                q = []
            def add(a, b, new, op):
                if any(x <= a < y for x, y in q):
                    return
                out.append((f, n, l, l[:a] + new + l[b:], op))
            for m in re.finditer(r' (<=|>=|<|>|==|!=|&&|\|\|) ', code):
                t = m.group(1)
                for new in {'<=': ['<'], '>=': ['>'], '<': ['<='], '>': ['>='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}[t]:
                    add(m.start(1), m.end(1), new, 'cond')
            for m in re.finditer(r' (\+|-|\*|/|%|&|\||\^|<<|>>|\+=|-=|\^=|&=|\|=) ', code):
                t = m.group(1)
                new = {'+': '-', '-': '+', '*': '+', '/': '*', '%': '/', '&': '|', '|': '^', '^': '|', '<<': '>>', '>>': '<<', '+=': '-=', '-=': '+=', '^=': '|=', '&=': '|=', '|=': '^='}[t]
                if t in ('+',) and ('where' in code or 'impl' in code or ':' in code and 'let' not in code and '=' not in code):
                    continue
                add(m.start(1), m.end(1), new, 'arith')
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=(?:u8|u16|u32|u64|usize|i32|i64)?(?![\w.]*[\w]))', code):
                t = m.group(1)
                v = int(t, 0)
                fmt = (lambda x: hex(x)) if t.startswith('0x') else str
                add(m.start(1), m.end(1), fmt(v + 1), 'const')
                if v > 0:
                    add(m.start(1), m.end(1), fmt(v - 1), 'const')
            for m in re.finditer(r'\b(true|false)\b', code):
                add(m.start(1), m.end(1), 'false' if m.group(1) == 'true' else 'true', 'bool')
            if s.endswith(';') and not re.match(r'(let|return|use|pub|const|static|type|mod|break|continue|extern|\})', s) and code.count('(') == code.count(')') and code.count('{') == code.count('}'):
                i = len(l) - len(l.lstrip())
                out.append((f, n, l, l[:i] + '();', 'drop'))
    return out
def prep(w):
    d = '%s/%d' % (BASE, w)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    shutil.copytree('/verif/harness', d + '/harness')
    shutil.copytree('/verif/shadow', d + '/shadow')
    for f in ('harness/Cargo.toml', 'shadow/Cargo.toml'):
        p = d + '/' + f
        t = open(p).read().replace('"/repo', '"%s/repo' % d).replace('opt-level = 3', 'opt-level = 2').replace('debug = "line-tables-only"', 'debug = false')
        open(p, 'w').write(t)
    return d
def run(cmd, cwd, t, cpus):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', VERIF_MAX_BROKEN='1', VERIF_THREADS=str(len(cpus.split(','))))
    try:
        p = subprocess.run(['taskset', '-c', cpus] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', ''
lock = threading.Lock()
def work(w, q):
    n = 8 // max(W, 4)
    cpus = ','.join(str(w * n + i) for i in range(n))
    d = prep(w)
    build = ['cargo', 'build', '--release', '--offline', '-q', '--manifest-path', d + '/harness/Cargo.toml', '--target-dir', d + '/target']
    rc, o = run(build, d, 1800, cpus)
    assert rc == 0, o
    while True:
        try:
            f, n, old, new, op = q.get_nowait()
        except queue.Empty:
            return
        p = d + '/repo/' + f
        src = open(p).read()
        lines = src.split('\n')
        assert lines[n] == old
        lines[n] = new
        open(p, 'w').write('\n'.join(lines))
        t0 = time.time()
        res = {'file': f, 'line': n + 1, 'old': old.strip(), 'new': new.strip(), 'op': op}
        rc, o = run(build, d, 600, cpus)
        if rc != 0:
            res['verdict'] = 'no-build'
        else:
            ids = next(v for k, v in MAP if f.startswith(k)).split()
            res['verdict'] = 'SURVIVED'
            res['other'] = []
            for i in ids:
                rc, o = run([d + '/target/release/vharness', 'check', i, '--seed', '1', '--tier', 'quick', '--out', d + '/r.json'], d, {'C26': 900, 'C27': 400}.get(i, 240), cpus)
                if rc == 1 or (isinstance(rc, int) and rc < 0):
                    res['verdict'] = 'caught ' + i
                    break
                if rc != 0:
                    res['other'].append([i, rc, o[-200:]])
        res['s'] = round(time.time() - t0)
        open(p, 'w').write(src)
        with lock:
            open(OUT, 'a').write(json.dumps(res) + '\n')
c = cands()
random.Random(SEED).shuffle(c)
by = {}
for x in c:
    by.setdefault(x[0], []).append(x)
# share the trials over the files by the square root of their number of candidates
tot = sum(len(v) ** .5 for v in by.values())
pick = []
for f, v in by.items():
    pick += v[:max(3, round(COUNT * len(v) ** .5 / tot))]
random.Random(SEED + 1).shuffle(pick)
print(len(c), 'candidates', len(pick), 'chosen', {k: len(v) for k, v in by.items()})
q = queue.Queue()
for x in pick:
    q.put(x)
ts = [threading.Thread(target=work, args=(w, q)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(BASE)
