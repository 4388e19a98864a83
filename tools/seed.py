"""python3-vt tools/seed.py ID PROP EDITS.py : create seeded/ID from an edit script and try it.

EDITS.py defines EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (python source run in /repo/poc).
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/repo/poc/vdaf_poc/'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    sid, prop, path = sys.argv[1:4]
    ns = {}
    exec(open(path).read(), ns)
    assert sh('git -C /repo status --porcelain').stdout == ''
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in ns['EDITS']:
            p = (BASE + f) if not f.startswith('/') else f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
cd poc && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python "$here/demo.py"
''')
    json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    try_seed(sid)


def try_seed(sid, check=True):
    d = os.path.join(ROOT, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    demo = 'cd /repo && timeout 300 bash %s/demo.sh' % d
    r0 = sh(demo).returncode
    assert sh('git -C /repo status --porcelain').stdout == ''
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stderr
        b = sh('bash /opt/vp/build.sh').returncode
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        r1 = sh(demo)
        c = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py %s' % (ROOT, prop)) if check else None
    finally:
        sh('git -C /repo checkout -- .')
    print('%s (%s): build=%d demo clean=%d patched=%d tests: %s | check exit=%s' % (
        sid, prop, b, r0, r1.returncode, t.stdout.strip().splitlines()[-1:], c.returncode if c else '-'))
    if r1.returncode == 0:
        print(r1.stdout, r1.stderr)
    if c:
        print('   ' + '\\n   '.join(l[:200] for l in c.stdout.strip().splitlines()[:6]))


if __name__ == '__main__':
    if len(sys.argv) == 2:
        try_seed(sys.argv[1])
    else:
        main()
