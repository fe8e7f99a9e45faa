#!/usr/bin/env python3
# seed.py DIR: confirms one planted change (/verif/seeded/<id>) on /repo: it applies, builds, passes the
# stable tests, its demonstration is quiet without and fails with it; then prints which checks report it.
# /repo is restored afterwards.
import json, os, subprocess, sys, glob

def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)

def main(d, tests=True):
    d = os.path.abspath(d)
    meta = json.load(open(d + '/meta.json'))
    assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip(), 'dirty /repo'
    ok = True
    r = sh(['bash', d + '/demo.sh'], cwd='/repo')
    if r.returncode != 0:
        print('demo fails on the unchanged tree', r.stdout[-1500:], r.stderr[-1500:]); ok = False
    a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode:
        print('does not apply', a.stderr); return False
    try:
        b = sh(['bash', '/opt/vp/build.sh'])
        if b.returncode:
            print('does not build', b.stderr); return False
        r = sh(['bash', d + '/demo.sh'], cwd='/repo')
        if r.returncode == 0:
            print('demo passes with the change'); ok = False
        if tests:
            sh(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'])
            base = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open('/tmp/seedtest.json'))
            bl = base['stable']
            passed = set(res['passed'])
            missing = [t for t in bl if t not in passed]
            if missing:
                print('breaks tests', missing[:5]); ok = False
        c = sh(['/verif/bin/kdcheck', '-prop', 'all' if os.environ.get('ALL') else meta['property'], '-verif', '/tmp/mv'])
        caught = [l.split('property=')[1].split()[0] for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    print(('ok  ' if ok else 'BAD ') + os.path.basename(d), meta['property'], 'CAUGHT' if meta['property'] in caught else 'missed', caught)
    return ok

if __name__ == '__main__':
    ds = sys.argv[1:] or sorted(glob.glob('/verif/seeded/*/'))
    bad = [d for d in ds if not main(d.rstrip('/'))]
    sys.exit(1 if bad else 0)
