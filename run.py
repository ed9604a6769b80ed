#!/usr/bin/env python3
"""Runs one check: builds the harness from /repo's working tree, runs the monitored workload,
writes the evidence file and turns what the monitors saw into an exit code.

exit 0  the property held on everything that was observed
exit 1  a monitor saw the property broken (a VIOLATION line names the replay file)
exit 2  no verdict: build failure, time-out, missing observations, error of the harness
"""
import concurrent.futures, hashlib, json, os, re, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(V, 'target')
WORK = os.path.join(V, 'work')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
TRIPLE = 'x86_64-unknown-linux-gnu'
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE}


def note(msg):
    print(msg, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'MIRIFLAGS'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE='0',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='0')
    e.update(kw)
    return e


class NoVerdict(Exception):
    pass


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise NoVerdict('time limit of %d s reached: %s' % (timeout, ' '.join(cmd[:6])))


def tree_hash():
    h = hashlib.sha256()
    for root in ('/repo', os.path.join(V, 'harness'), os.path.join(V, 'shadow')):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('.git', 'target'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock', '.in')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def fresh(stamp, clean):
    """Makes sure nothing built from other sources is reused, whatever the time stamps say."""
    stamp = os.path.join(TARGET, 'sources-' + stamp)
    now = tree_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return lambda: None
    for p in ('rcrypto', 'rcrypto_portable', 'vharness'):
        clean(p)

    def done():
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(now)
    return done


def same_edition():
    """The shadow crate follows the language edition of the library."""
    path = os.path.join(V, 'shadow', 'Cargo.toml')
    try:
        now = re.search(r'(?m)^\s*edition\s*=.*$', open('/repo/Cargo.toml').read())
    except OSError:
        return
    text = open(path).read()
    if now and now.group(0).strip() not in text:
        with open(path, 'w') as f:
            f.write(re.sub(r'(?m)^edition.*$', now.group(0).strip(), text))


def build(profile='release', asan=False):
    same_edition()
    e, extra = env(), []
    if asan:
        e = env(RUSTC_BOOTSTRAP='1', RUSTFLAGS='-Zsanitizer=address', CARGO_TARGET_DIR=TARGET + '/asan')
        extra = ['--target', TRIPLE]
    home = os.path.join(V, 'harness')
    done = fresh(profile + '-asan' * asan,
                 lambda p: sh(['cargo', 'clean', '--offline', '--profile', profile, '-p', p] + extra, 60, cwd=home, env=e))
    cmd = ['cargo', 'build', '--offline', '--locked', '--profile', profile] + extra
    r = sh(cmd, 800, cwd=home, env=e)
    if r.returncode != 0 and b'lock file' in r.stderr:
        # the library's own version number has changed
        cmd.remove('--locked')
        r = sh(cmd, 800, cwd=home, env=e)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode(errors='replace')[-4000:])
        raise NoVerdict('the harness does not build against /repo')
    done()
    return os.path.join(e['CARGO_TARGET_DIR'], TRIPLE if asan else '', profile, 'vharness')


def load_known(pid):
    """Findings listed for this property: (signature, detail pattern, text)."""
    out = []
    path = os.path.join(V, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sig=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def evidence(pid, level, coverage, assumptions, wall, violations):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage,
                   'assumptions': assumptions, 'wall_s': round(wall, 3), 'violations': violations}, f, indent=1)
        f.write('\n')


def replay(pid, name, lines):
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    p = os.path.join(V, 'replays', '%s-%s-seed%d-%s.txt' % (pid, TIER, SEED, re.sub(r'[^A-Za-z0-9_.-]', '_', name)))
    with open(p, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return p


def verdict(pid, broken):
    """broken: list of (signature, detail, replay name, replay lines). Returns the number of violations."""
    known = load_known(pid)
    seen, bad = set(), 0
    for sig, detail, name, lines in broken:
        k = next((k for k in known if k[0] == sig and k[1].search(detail)), None)
        if k:
            if k[2] not in seen:
                seen.add(k[2])
                note('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
            continue
        bad += 1
        if bad <= 5:
            note('%s: %s' % (sig, detail[:600]))
            note('VIOLATION property=%s replay=%s' % (pid, replay(pid, name, lines)))
    return bad


def run_harness(binary, args, limit, extra=None):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, 'result-%d.json' % os.getpid())
    if os.path.exists(out):
        os.remove(out)
    r = sh([binary] + args + ['--seed', str(SEED), '--tier', TIER, '--out', out], limit, env=env(**(extra or {})), cwd=V)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        finally:
            os.remove(out)
    return r, res


def crashed(r):
    if r.returncode >= 0:
        return None
    err = r.stderr.decode(errors='replace')
    s = -r.returncode
    if s in CRASH and 'memory allocation of' not in err:
        return '%s: %s' % (signal.Signals(s).name, err[-500:])
    raise NoVerdict('the harness was ended by signal %d' % s)


def check(pid):
    t0 = time.time()
    binary = build()
    r, res = run_harness(binary, ['check', pid], 840 if TIER == 'quick' else 6 * 3600)
    cmd = 'VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py check %s' % (SEED, TIER, V, pid)
    c = crashed(r)
    if c:
        evidence(pid, 'exploration', {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the process under observation crashed', 'samples': [c]},
                 [], time.time() - t0, 1)
        n = verdict(pid, [('crash', c, 'crash', ['the process running the workload crashed: ' + c, 'run again: ' + cmd])])
        return 1 if n else 0
    if res is None or r.returncode not in (0, 1, 3):
        sys.stderr.write(r.stderr.decode(errors='replace')[-3000:])
        raise NoVerdict('the harness ended with code %d' % r.returncode)
    broken = []
    for b in res['broken']:
        broken.append((b['sig'], b['detail'], '%s-%d' % (b['job'], b['index']),
                       ['property %s broken in job %s[%d]: %s' % (pid, b['job'], b['index'], b['sig']), b['detail'],
                        'run again: %s check %s --seed %d --tier %s --job %s --index %d' % (binary, pid, SEED, TIER, b['job'], b['index'])]))
    n = verdict(pid, broken)
    evidence(pid, 'exploration',
             {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': res['rule'],
              'samples': res['samples'], 'workload_runs': res['jobs_run'], 'observed_events': res['events']},
             res['assumptions'], time.time() - t0, n)
    if n:
        return 1
    if res['harness_errors']:
        for m in res['harness_errors'][:5]:
            sys.stderr.write('harness error: %s\n' % m)
        raise NoVerdict('the harness failed')
    if res['missing_events']:
        raise NoVerdict('never observed: ' + ', '.join(res['missing_events']))
    if res['evaluations'] == 0:
        raise NoVerdict('nothing was evaluated')
    note('%s held: %d evaluations, %d distinct, %d kinds of events, %.1f s' %
         (pid, res['evaluations'], res['distinct_nontrivial'], len(res['events']), time.time() - t0))
    return 0


class Sweep:
    """What one run of all workloads left in its log."""
    def __init__(self, path):
        self.open, self.ends, self.done = [], {}, None
        if not os.path.exists(path):
            return
        for line in open(path, errors='replace'):
            f = line.rstrip('\n').split(' ')
            if f[0] == 'start' and len(f) == 3:
                self.open.append((f[1], int(f[2])))
            elif f[0] == 'end' and len(f) >= 8:
                k = (f[1], int(f[2]))
                self.open.remove(k)
                self.ends[k] = {'evals': int(f[3]), 'distinct': int(f[4]), 'transcript': f[5], 'sig': f[7], 'detail': ' '.join(f[8:])}
            elif f[0] == 'done':
                self.done = [int(x) for x in f[1:]]


def sweep(binary, name, args, limit, extra=None):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, 'sweep-%s-%d.log' % (name, os.getpid()))
    cmd = [binary, 'sweep', '--seed', str(SEED), '--tier', TIER, '--out', out] + args
    try:
        return sh(cmd, limit, env=env(**(extra or {})), cwd=V), Sweep(out)
    finally:
        if os.path.exists(out):
            os.remove(out)


def per_property(*sweeps):
    n = {}
    for s in sweeps:
        for (job, _), e in s.ends.items():
            c = n.setdefault(job, [0, 0])
            c[0] += 1
            c[1] += e['evals']
    return {k: '%d runs, %d evaluations' % tuple(v) for k, v in sorted(n.items())}


def check_profiles(pid):
    """C34: panics in either build, and runs whose results differ between the builds."""
    t0 = time.time()
    first, second = build('release'), build('unchecked')
    budget = 280 if TIER == 'quick' else 9000
    broken, got = [], []
    for binary, name in ((first, 'checked'), (second, 'unchecked')):
        r, s = sweep(binary, name, ['--cap', '250', '--deadline', str(budget)], budget + 200)
        c = crashed(r)
        if c:
            broken.append(('crash', '%s build: %s while running %s' % (name, c, s.open), 'crash-' + name,
                           ['the %s build crashed: %s' % (name, c), 'runs under way: %s' % s.open]))
        elif s.done is None:
            sys.stderr.write(r.stderr.decode(errors='replace')[-3000:])
            raise NoVerdict('the sweep of the %s build did not finish' % name)
        got.append(s)

    def again(k):
        return ['run again: %s sweep --only %s --index %d --seed %d --tier %s' % (b, k[0], k[1], SEED, TIER) for b in (first, second)]
    a, b = got
    both = sorted(set(a.ends) & set(b.ends))
    for s, name in ((a, 'checked'), (b, 'unchecked')):
        for k, e in sorted(s.ends.items()):
            if e['sig'] == 'harness':
                raise NoVerdict('harness error in %s[%d]: %s' % (k[0], k[1], e['detail']))
            if e['sig'].startswith('panic:'):
                broken.append((e['sig'], '%s build, %s[%d]: %s' % (name, k[0], k[1], e['detail']), 'panic-%s-%d' % k, [e['detail']] + again(k)))
    for k in both:
        x, y = a.ends[k], b.ends[k]
        if x['sig'].startswith('panic:') or y['sig'].startswith('panic:'):
            continue
        if x['sig'] != y['sig']:
            broken.append(('profile:' + k[0], '%s[%d] ends with "%s %s" in the checked and with "%s %s" in the unchecked build' %
                           (k[0], k[1], x['sig'], x['detail'][:200], y['sig'], y['detail'][:200]), 'profile-%s-%d' % k, again(k)))
        elif x['sig'] == 'held' and x['transcript'] != y['transcript']:
            broken.append(('profile:' + k[0], '%s[%d]: the builds give different results' % k, 'profile-%s-%d' % k, again(k)))
    n = verdict(pid, broken)
    total = sum(e['evals'] for s in got for e in s.ends.values())
    evidence(pid, 'exploration',
             {'evaluations': total, 'distinct_nontrivial': a.done[2] if a.done else 0,
              'rule': 'an evaluation is one monitored call or comparison in one of the two builds; distinct inputs of the checked build are counted once; each of the %d runs made by both builds must end the same way with the same transcript' % len(both),
              'samples': ['%s[%d]: %s, transcript %s in both builds' % (k[0], k[1], a.ends[k]['sig'], a.ends[k]['transcript']) for k in both[:20]],
              'runs_compared': len(both), 'workloads': per_property(a, b)},
             ['the two builds are the checked one of the test suite and the same with arithmetic and debug assertions off'],
             time.time() - t0, n)
    if n:
        return 1
    if len(both) < 100:
        raise NoVerdict('only %d runs could be compared' % len(both))
    note('%s held: %d runs compared, %d evaluations, %.1f s' % (pid, len(both), total, time.time() - t0))
    return 0


ASAN = 'exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0:symbolize=1'
MIRI_JOBS = ([('C34/block', i) for i in range(7)] + [('C34/rsa', 0), ('C34/ec', 0), ('C34/ec', 1), ('C34/rsa', 1)] +
             [('C34/modes', i) for i in range(12)] + [('C34/zuc', i) for i in range(4)] + [('C34/hash', i) for i in (0, 3, 5, 8, 24, 26)] +
             [('C34/ec', 2)] + [('C34/modes', i) for i in range(12, 24)])
MIRI_MORE = ([('C34/ec', i) for i in range(3, 8)] + [('C34/rsa', i) for i in range(2, 16)] + [('C34/modes', i) for i in range(24, 200)] +
             [('C34/block', i) for i in range(7, 40)] + [('C34/zuc', i) for i in range(4, 40)] + [('C34/hash', i) for i in range(16)] +
             [('C34/hash', 25)] + [('C06/stream', 0), ('C04/history', 0), ('C16/cmac', 0), ('C17/cipher', 0), ('C18/mac', 0)])


def frames(text):
    """Functions named in a report that belong to the library or its integer library."""
    out = []
    for m in re.finditer(r'(/repo/src/\S+?|/rmath-[0-9.]+/src/\S+?):(\d+)', text):
        out.append('%s:%s' % (m.group(1).lstrip('/'), m.group(2)))
    return out


def asan_report(r, s):
    err = r.stderr.decode(errors='replace')
    m = re.search(r'(ERROR: (?:AddressSanitizer|LeakSanitizer)[^\n]*)', err)
    if r.returncode != 77 and not m:
        c = crashed(r)
        if c:
            return ('asan:crash', c + ' while running %s' % s.open, 'crash', [c])
        if s.done is None:
            sys.stderr.write(err[-3000:])
            raise NoVerdict('the instrumented run ended with code %d' % r.returncode)
        return None
    head = m.group(1) if m else 'report without a heading'
    if 'has encountered a fatal error' in head or 'out of memory' in err or 'allocation-size-too-big' in head:
        raise NoVerdict('the sanitizer itself failed: ' + head)
    f = frames(err)
    if not f:
        sys.stderr.write(err[:4000])
        raise NoVerdict('a sanitizer report that does not name the library')
    kind = re.search(r'Sanitizer: (\S+)', head)
    return ('asan:%s:%s' % (kind.group(1) if kind else 'report', f[0]), '%s in %s' % (head, ', '.join(f[:4])), 'asan',
            ['runs under way: %s' % s.open] + err[:6000].splitlines())


def miri(args, limit):
    e = env(CARGO_TARGET_DIR=TARGET + '/miri', RUSTUP_TOOLCHAIN='nightly-' + TRIPLE, VERIF_THREADS='1',
            RUSTFLAGS='--cap-lints warn -C target-feature=+aes,+sse2,+ssse3,+sse4.1,+adx,+bmi1,+bmi2,+avx2',
            MIRIFLAGS='-Zmiri-tree-borrows -Zmiri-disable-isolation')
    return sh(['cargo', 'miri', 'run', '-q', '--offline', '--locked', '--'] + args, limit, cwd=os.path.join(V, 'harness'), env=e)


def miri_error(err):
    m = re.search(r'error: Undefined Behavior: ([^\n]*)\n\s*--> ([^\n]*)', err)
    return (m.group(1), m.group(2)) if m else None


def check_memory(pid):
    """C33: every workload under AddressSanitizer and LeakSanitizer, a small one in Miri."""
    t0 = time.time()
    quick = TIER == 'quick'
    binary = build(asan=True)
    notes, broken = [], []
    options = ASAN
    for what, word in (('overread', 'heap-buffer-overflow'), ('freed', 'heap-use-after-free')):
        r = sh([binary, 'canary', what], 60, env=env(ASAN_OPTIONS=ASAN + ':detect_leaks=0'))
        if word not in r.stderr.decode(errors='replace'):
            raise NoVerdict('AddressSanitizer is not at work: the deliberate %s went unnoticed' % what)
    r = sh([binary, 'canary', 'leak'], 60, env=env(ASAN_OPTIONS=ASAN + ':detect_leaks=1'))
    leaks = 'LeakSanitizer: detected memory leaks' in r.stderr.decode(errors='replace')
    if not leaks:
        notes.append('leak detection does not work here and was left out')
    options = ASAN + ':detect_leaks=%d' % leaks
    budget = 200 if quick else 6000
    args = ['--cap', '30', '--share', '4'] if quick else ['--cap', '80']
    r, s = sweep(binary, 'asan', args + ['--deadline', str(budget)], budget + 250, {'ASAN_OPTIONS': options})
    b = asan_report(r, s)
    if b:
        broken.append(b)
    for k, e in sorted(s.ends.items()):
        if e['sig'] == 'harness':
            raise NoVerdict('harness error in %s[%d]: %s' % (k[0], k[1], e['detail']))
    ok, late, odd = [], [], []
    try:
        done = fresh('miri', lambda p: sh(['cargo', 'clean', '--offline', '--target', TRIPLE, '-p', p], 60, cwd=os.path.join(V, 'harness'),
                                          env=env(CARGO_TARGET_DIR=TARGET + '/miri')))
        r = miri(['canary', 'alias'], 300)
        if miri_error(r.stderr.decode(errors='replace')) is None:
            raise NoVerdict('Miri does not notice the deliberate aliasing: ' + r.stderr.decode(errors='replace')[-300:])
        done()
    except NoVerdict as e:
        notes.append('Miri was left out: %s' % str(e)[:400])
    else:
        end = time.time() + (240 if quick else 9000)

        def one(job):
            left = end - time.time()
            if left < 5:
                return job, None
            try:
                return job, miri(['sweep', '--only', job[0], '--index', str(job[1]), '--seed', str(SEED), '--tier', TIER], left)
            except NoVerdict:
                return job, None
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as pool:
            for job, r in pool.map(one, MIRI_JOBS if quick else MIRI_JOBS + MIRI_MORE):
                name = '%s[%d]' % job
                if r is None:
                    late.append(name)
                    continue
                err = r.stderr.decode(errors='replace')
                ub = miri_error(err)
                if ub and not frames(err):
                    raise NoVerdict('Miri reports the harness itself: %s at %s' % ub)
                if ub:
                    site = (frames(ub[1]) or frames(err))[0]
                    broken.append(('miri:' + site, '%s at %s in %s' % (ub[0], site, name), 'miri-%s-%d' % job, err[:6000].splitlines()))
                elif 'error: memory leaked' in err:
                    broken.append(('miri:leak', 'memory leaked in %s' % name, 'miri-%s-%d' % job, err[:6000].splitlines()))
                elif r.returncode == 0:
                    ok.append(name)
                else:
                    odd.append('%s: %s' % (name, err[-200:]))
    n = verdict(pid, broken)
    if late:
        notes.append('%d Miri runs did not fit into the time' % len(late))
    if odd:
        notes.append('%d Miri runs ended without a verdict, e.g. %s' % (len(odd), odd[0]))
    total = sum(e['evals'] for e in s.ends.values())
    evidence(pid, 'exploration',
             {'evaluations': total, 'distinct_nontrivial': s.done[2] if s.done else 0,
              'rule': 'an evaluation is one monitored call in the instrumented process; distinct inputs are counted once; on top of them %d runs were interpreted by Miri' % len(ok),
              'samples': ['%s[%d] without a report' % k for k in sorted(s.ends)[:20]] + ['Miri: %s without a report' % x for x in ok[:20]],
              'instrumented_runs': len(s.ends), 'miri_runs': len(ok), 'leaks_checked': leaks, 'workloads': per_property(s), 'notes': notes},
             ['the standard library itself is not instrumented', 'Miri judges aliasing by Tree Borrows'], time.time() - t0, n)
    for x in notes:
        note('note: ' + x)
    if n:
        return 1
    if len(s.ends) < 100:
        raise NoVerdict('only %d instrumented runs' % len(s.ends))
    note('%s held: %d instrumented runs with %d evaluations, %d interpreted runs, %.1f s' % (pid, len(s.ends), total, len(ok), time.time() - t0))
    return 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        b = build()
        r = sh([b, 'selftest'], 300, env=env())
        sys.stdout.write(r.stdout.decode())
        return 0 if r.returncode == 0 else 2
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        return {'C33': check_memory, 'C34': check_profiles}.get(sys.argv[2], check)(sys.argv[2])
    sys.stderr.write('usage: run.py setup | run.py check ID\n')
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoVerdict as e:
        sys.stderr.write('no verdict: %s\n' % e)
        sys.exit(2)
