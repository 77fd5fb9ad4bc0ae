"""make or try a planted bug (development helper); works on copies of /repo

    seed.py try ID|all [CHECK ...]
"""
import json, os, re, subprocess, sys, shutil

SEEDED = '/verif/seeded'
TMP = '/tmp/seedcopy%d' % os.getpid()
DEMO = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy():
    shutil.rmtree(TMP, ignore_errors=True)
    sh('cp', '-a', '/repo', TMP)
    sh('git', '-C', TMP, 'checkout', '--', '.')
    sh('find', TMP, '-name', '__pycache__', '-exec', 'rm', '-rf', '{}', '+')


def tests():
    """stable tests which do not pass in the copy"""
    W = TMP + '/W'
    os.makedirs(W)
    kits = open('/opt/vp/run_kits.py').read().replace('/repo', TMP)
    open(W + '/kits.py', 'w').write(kits)
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    sh('/opt/venv/bin/python', W + '/kits.py', W + '/r', cwd=TMP, env=env)
    res = open(W + '/r').read() if os.path.isfile(W + '/r') else ''
    shutil.rmtree(W)
    return [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'PASS ' + x not in res]


def make(i, prop, edits, needs, breaks, demo):
    d = os.path.join(SEEDED, i)
    if os.path.isfile(os.path.join(d, 'patch.diff')):
        return
    copy()
    os.makedirs(d, exist_ok=True)
    for fn, old, new in edits:
        p = os.path.join(TMP, fn)
        s = open(p, encoding='utf8', newline='').read()
        assert s.count(old) == 1, (i, fn, s.count(old))
        open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
    diff = sh('git', '-C', TMP, 'diff').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(TMP)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy('/verif/tools/demo_lib.py', os.path.join(d, 'lib.py'))
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def attempt(i, checks):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    if checks == ['demo']:
        only, checks = True, []
    else:
        only, checks = False, checks or [prop]
    print('==', i, prop, flush=True)
    copy()
    try:
        a = sh('bash', os.path.join(d, 'demo.sh'), cwd=TMP)
        if a.returncode:
            print('  demo fails on the unchanged tree', a.stdout[-500:], a.stderr[-500:])
        r = sh('git', '-C', TMP, 'apply', os.path.join(d, 'patch.diff'))
        if r.returncode:
            print('  does not apply', r.stderr)
            return
        t = tests()
        if t:
            print('  tests fail:', t)
        b = sh('bash', os.path.join(d, 'demo.sh'), cwd=TMP)
        print('  demo with the patch: exit', b.returncode, b.stdout.strip()[-200:], b.stderr.strip()[-200:] if b.returncode and not b.stdout.strip() else '', flush=True)
        if only:
            return
        for c in checks:
            x = sh('python3-vt', '/verif/check.py', c, '--no-evidence', cwd='/verif', env=dict(os.environ, YUPP_REPO=TMP, VERIF_FIRST='1'))
            v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
            print('  check %s: exit %d, %d violations' % (c, x.returncode, len(v)))
            if not v:
                print(x.stdout[-600:], x.stderr[-300:], flush=True)
            else:
                j = x.stdout.splitlines()
                k = j.index(v[0])
                print('   ', '\n    '.join(j[max(0, k - 2):k + 1])[:500], flush=True)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'try':
        l = sys.argv[2:]
        if l[0] == 'all':
            for i in sorted(os.listdir(SEEDED)):
                if os.path.isdir(os.path.join(SEEDED, i)):
                    attempt(i, l[1:])
        else:
            attempt(l[0], l[1:])
