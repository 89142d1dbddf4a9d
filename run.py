#!/usr/bin/env python3
"""run.py check <ID>      run the monitors of one property (VERIF_TIER, VERIF_SEED)
   run.py replay <file>   re-run the case a replay file describes
   run.py build           build every variant (setup)

Builds the library from /repo's working tree (sources globbed as its
CMakeLists.txt does) into .build/, runs the monitor binary in shards, merges
the shard reports, matches violations against known_findings.json and writes
evidence/<ID>.json.  Exit 0: held; 1: VIOLATION line; 2: the check itself failed."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RV_REPO', '/repo')
BUILD = os.path.join(V, '.build')
JOBS = max(2, min(16, os.cpu_count() or 8))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


CXX = 'clang++'
BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer']
VARIANTS = {
    # library flags, harness flags, link flags
    'plain': (['-O2', '-fsanitize-coverage=trace-pc-guard'], ['-O2'], []),
    'asan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fsanitize-coverage=trace-pc-guard'],
             ['-O1', '-fsanitize=address', '-DRV_ASAN'], ['-fsanitize=address,undefined']),
    'tsan': (['-O1', '-fsanitize=thread'], ['-O1', '-fsanitize=thread', '-DRV_NOCOV', '-DRV_TSAN'], ['-fsanitize=thread', '-lpthread']),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def digest(paths, extra):
    h = hashlib.sha256(json.dumps(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build(variant, mains=('driver', )):
    """-> path of the monitor binary of this variant, built from the current tree"""
    lf, hf, ld = VARIANTS[variant]
    src = sorted(glob.glob(REPO + '/src/src/*.cpp'))
    allsrc = [p for p in glob.glob(REPO + '/src/**/*', recursive=True) if os.path.isfile(p) and '/test/' not in p[len(REPO):]]
    har = sorted(glob.glob(V + '/harness/*.cpp'))
    harh = glob.glob(V + '/harness/*.h')
    if not src:
        raise CheckError('no library sources under %s/src/src' % REPO)
    key = digest(allsrc + har + harh, [variant, lf, hf, ld, BASE, CXX, REPO])
    d = os.path.join(BUILD, '%s-%s' % (variant, key))
    exe = d + '/mon'
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, variant + '-*')):
        shutil.rmtree(old, ignore_errors=True)
    t = tempfile.mkdtemp(prefix=variant + '.', dir=BUILD)
    inc = ['-I' + REPO + '/src/include']
    jobs = [(s, t + '/lib_' + os.path.basename(s) + '.o', BASE + ['-w'] + lf + inc + ['-I' + REPO + '/src/src']) for s in src]
    jobs += [(s, t + '/h_' + os.path.basename(s) + '.o', BASE + ['-Wall', '-Wno-unused-function', '-Wno-unused-variable'] + hf + inc + ['-I' + V + '/harness']) for s in har]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        return j[0], sh([CXX] + j[2] + ['-c', j[0], '-o', j[1]])
    with ThreadPoolExecutor(JOBS) as ex:
        for s, r in ex.map(one, jobs):
            if r.returncode:
                raise CheckError('compiling %s failed:\n%s' % (s, r.stdout[-3000:]))
    r = sh([CXX, '-o', t + '/mon'] + [j[1] for j in jobs] + ld + ['-lpthread'])
    if r.returncode:
        raise CheckError('linking failed:\n' + r.stdout[-3000:])
    for j in jobs:
        os.unlink(j[1])
    os.rename(t, d)
    return exe


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:symbolize=1:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1',
}


VALGRIND = ['valgrind', '-q', '--error-exitcode=55', '--trace-children=no', '--child-silent-after-fork=no', '--undef-value-errors=yes', '--leak-check=no']


def run_shards(exe, prop, seed, n, thorough, block, tmp, wall, wrap=()):
    env = dict(os.environ)
    env.update(SAN_ENV)
    shards = min(JOBS, max(1, n))
    procs = []
    for i in range(shards):
        a, b = i * n // shards, (i + 1) * n // shards
        if a == b:
            continue
        out = '%s/%s.%d.json' % (tmp, prop.replace('/', '_'), i)
        cmd = list(wrap) + [exe, '--prop', prop, '--seed', str(seed), '--from', str(a), '--to', str(b), '--block', str(block), '--out', out, '--tmp', tmp, '--wall', str(wall)]
        if thorough:
            cmd.append('--thorough')
        procs.append((out, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = []
    for out, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise CheckError('monitor process failed (%s): %s' % (p.returncode, o[-2000:]))
        res.append(json.load(open(out)))
    return res


def merge(reps):
    m = {'cases': 0, 'inconclusive': 0, 'counters': {}, 'maxima': {}, 'samples': [], 'violations': [], 'hashes': set(), 'hits': 0, 'guards': 0}
    for r in reps:
        m['cases'] += r['cases']
        m['inconclusive'] += r['inconclusive']
        for k, v in r['counters'].items():
            m['counters'][k] = m['counters'].get(k, 0) + v
        for k, v in r['maxima'].items():
            m['maxima'][k] = max(v, m['maxima'].get(k, v))
        m['samples'] += r['samples']
        m['violations'] += r['violations']
        m['hashes'] |= set(r['hashes'])
        m['guards'] = max(m['guards'], r['guards'])
        m['hits'] |= int(r['hits'] or '0', 16) if r['hits'] else 0
    return m


def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid):
    if pid not in CHECKS:
        raise CheckError('unknown property ' + pid)
    spec = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='rv-%s-' % pid)
    parts, viols = {}, []
    try:
        for part in spec['parts']:
            n = part['thorough'] if thorough else part['quick']
            if not n:
                continue
            if 'script' in part:     # a monitor of its own (python), same report format
                import importlib
                rep = importlib.import_module(part['script']).run(REPO, V, tmp, seed, n, thorough)
                reps = [rep]
            else:
                vg = part['variant'] == 'valgrind'      # the plain build under memcheck
                exe = build('plain' if vg else part['variant'])
                reps = run_shards(exe, part['prop'], seed, n, thorough, part.get('block', 100), tmp, part.get('wall', 150), VALGRIND if vg else ())
            m = merge(reps)
            name = part['prop'] + '@' + part['variant']
            for v in m['violations']:
                viols.append((part, v))
            parts[name] = m
            # a run that observed nothing is an error of the check, not a pass
            for need, least in part.get('require', {}).items():
                if m['counters'].get(need, 0) < least and not m['violations']:
                    raise CheckError('%s: monitor observed too little: %s=%d < %d' % (name, need, m['counters'].get(need, 0), least))
            if m['inconclusive'] > max(2, m['cases'] // 50):
                raise CheckError('%s: %d of %d cases inconclusive' % (name, m['inconclusive'], m['cases']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in known_findings() if k['property'] == pid and k['status'] == 'known']
    new, seen = [], {}
    for part, v in viols:
        # a listed finding is one fixed input: monitor, case and what was observed
        k = next((k for k in known if (k['monitor'], k['case'], k['key']) == (part['prop'], v['case'], v['key'])), None)
        if k:
            seen[(k['monitor'], k['case'])] = k
        else:
            new.append((part, v))
    for k in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    dist = len(set().union(*[{(n, h) for h in m['hashes']} for n, m in parts.items()])) if parts else 0
    cov = {
        'evaluations': sum(m['cases'] for m in parts.values()),
        'distinct_nontrivial': dist,
        'rule': spec['rule'],
        'samples': [s for m in parts.values() for s in m['samples'][:3]][:6] or ['(no sample recorded)'],
        'observed': {n: dict(sorted(m['counters'].items())) for n, m in parts.items()},
        'maxima': {n: m['maxima'] for n, m in parts.items()},
        'inconclusive': sum(m['inconclusive'] for m in parts.values()),
        'library_code_edges_hit': {n: '%d of %d' % (bin(m['hits']).count('1'), m['guards']) for n, m in parts.items() if m['guards']},
        'known_findings_observed': ['%s case %d' % k for k in sorted(seen)],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (pid, cov['evaluations'], dist, len(new), ev['wall_s']))
    if new:
        os.makedirs(V + '/replays', exist_ok=True)
        for part, v in new[:5]:
            f = '%s/replays/%s-%s-%d-%d.json' % (V, pid, part['variant'], seed, v['case'])
            json.dump({'property': pid, 'monitor': part['prop'], 'variant': part['variant'], 'script': part.get('script'), 'seed': seed, 'case': v['case'], 'thorough': thorough, 'key': v['key'], 'what': v['msg']}, open(f, 'w'), indent=1)
            print('  %s: %s' % (v['key'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    return 0


def replay(path):
    r = json.load(open(path))
    if r.get('script'):
        import importlib
        return importlib.import_module(r['script']).replay(REPO, V, r)
    env = dict(os.environ)
    env.update(SAN_ENV)
    vg = r['variant'] == 'valgrind'
    cmd = (VALGRIND if vg else []) + [build('plain' if vg else r['variant']), '--prop', r['monitor'], '--seed', str(r['seed']), '--from', str(r['case']), '--to', str(r['case'] + 1), '--verbose']
    if r['thorough']:
        cmd.append('--thorough')
    print(' '.join(cmd), flush=True)
    return subprocess.run(cmd, env=env).returncode


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == 'check':
        return check(a[1])
    if len(a) == 2 and a[0] == 'replay':
        return replay(a[1])
    if a == ['build']:
        for v in VARIANTS:
            build(v)
        import c16
        c16.build(REPO, V)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        sys.exit(2)
