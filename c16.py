"""C16: the develop build against the normal build. Builds dev/dev.cpp twice,
plays the viewer on 127.0.0.1:5569 (one process at a time: the port is fixed in
the code) and compares the results of the two builds bit for bit."""
import glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor


def build(REPO, V):
    import run
    src = sorted(glob.glob(REPO + '/src/src/*.cpp'))
    du = sorted(glob.glob(REPO + '/debug_util/*.cpp'))
    allsrc = [p for p in glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/debug_util/*') if os.path.isfile(p) and '/test/' not in p[len(REPO):]]
    har = [V + '/dev/dev.cpp', V + '/harness/driver.cpp']
    qt = run.sh(['pkg-config', '--cflags', '--libs', 'Qt6Gui', 'Qt6Widgets', 'libcurl'])
    if qt.returncode:
        raise run.CheckError('Qt6 or libcurl not found: ' + qt.stdout)
    fl = qt.stdout.split()
    qc, ql = [x for x in fl if not x.startswith('-l')], [x for x in fl if x.startswith('-l')]
    key = run.digest(allsrc + har + glob.glob(V + '/harness/*.h'), ['dev3', REPO, run.CXX])
    d = os.path.join(run.BUILD, 'dev-' + key)
    if os.path.exists(d + '/dev'):
        return d
    os.makedirs(run.BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(run.BUILD, 'dev-*')):
        shutil.rmtree(old, ignore_errors=True)
    t = tempfile.mkdtemp(prefix='dev.', dir=run.BUILD)
    base = [run.CXX, '-std=c++17', '-g1', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-I' + REPO + '/src/include', '-I' + REPO + '/src/src', '-I' + V + '/harness']
    dev = base + ['-I' + REPO + '/debug_util'] + qc + ['-fPIC', '-DRIVER_GRAPHICS_DEBUG=1', '-DRIVER_DEVELOP_TEST=1']
    jobs, objs = [], {'dev': [], 'normal': []}
    for s in src + du + har:
        for which, cmd in (('dev', dev + (['-DRV_DEV', '-DRV_NOCOV'] if s in har else [])), ('normal', base + (['-DRV_NOCOV'] if s in har else []))):
            if which == 'normal' and s in du:
                continue
            o = '%s/%s_%s.o' % (t, which, os.path.basename(s))
            objs[which].append(o)
            jobs.append((s, cmd + ['-c', s, '-o', o]))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(run.JOBS) as ex:
        for s, r in ex.map(lambda j: (j[0], run.sh(j[1])), jobs):
            if r.returncode:
                raise run.CheckError('compiling %s for C16 failed:\n%s' % (s, r.stdout[-3000:]))
    for which, libs in (('normal', []), ('dev', ql)):
        r = run.sh([run.CXX, '-fsanitize=address', '-o', t + '/' + which] + objs[which] + libs + ['-lpthread'])
        if r.returncode:
            raise run.CheckError('linking %s failed:\n%s' % (which, r.stdout[-3000:]))
    for s, c in jobs:
        os.unlink(c[-1])
    os.rename(t, d)
    return d


def run(REPO, V, tmp, seed, n, thorough):
    import run as R
    d = build(REPO, V)
    env = {k: v for k, v in os.environ.items() if 'proxy' not in k.lower()}
    env['QT_QPA_PLATFORM'] = 'offscreen'
    env['HOME'] = tmp
    env.update(R.SAN_ENV)
    rep = {}
    for which, block in (('normal', 100), ('dev', 40)):
        out = '%s/c16.%s.json' % (tmp, which)
        cmd = [d + '/' + which, '--prop', 'C16', '--seed', str(seed), '--from', '0', '--to', str(n), '--block', str(block), '--out', out, '--tmp', tmp, '--wall', '120']
        if thorough:
            cmd.append('--thorough')
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode:
            raise R.CheckError('C16 %s monitor failed (%s): %s' % (which, p.returncode, p.stdout[-2000:]))
        rep[which] = json.load(open(out))
    r = rep['dev']
    if any('port 5569 is taken' in v['msg'] for v in r['violations']):
        raise R.CheckError('port 5569 is taken by another process')
    a = {int(h, 16) & 0xffffff: h for h in rep['normal']['hashes']}
    b = {int(h, 16) & 0xffffff: h for h in r['hashes']}
    same = 0
    for i in sorted(set(a) & set(b)):
        if a[i] != b[i]:
            r['violations'].append({'case': i, 'key': 'result', 'msg': 'the develop build computes another result than the normal build for case %d' % i})
        else:
            same += 1
    for v in rep['normal']['violations']:
        v['msg'] = '(normal build) ' + v['msg']
        r['violations'].append(v)
    r['violations'] = r['violations'][:5]
    r['counters']['results_equal_to_the_normal_build'] = same
    r['guards'], r['hits'] = 0, ''
    return r


def replay(REPO, V, r):
    import run as R
    d = build(REPO, V)
    env = {k: v for k, v in os.environ.items() if 'proxy' not in k.lower()}
    env['QT_QPA_PLATFORM'] = 'offscreen'
    env.update(R.SAN_ENV)
    for which in ('normal', 'dev'):
        print('--', which, 'build', flush=True)
        subprocess.run([d + '/' + which, '--prop', 'C16', '--seed', str(r['seed']), '--from', str(r['case']), '--to', str(r['case'] + 1), '--verbose'] + (['--thorough'] if r['thorough'] else []), env=env)
    return 0
