"""python3-vt tools/mut.py [-k NAME] [--kind bug|same] [-p PROP]: try the checks on edited scratch copies of the tree.

tools/mutants/*.py hold the edits: bug(NAME, PROPS, *EDITS) must be reported by one of PROPS, same(NAME, *EDITS) by none of the checks.
An edit is (file, old, new).
"""
import argparse
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTANTS = []


def bug(name, props, *edits):
    MUTANTS.append((name, 'bug', props.split(), edits))


def same(name, *edits):
    MUTANTS.append((name, 'same', [], edits))


def load():
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'mutants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug, 'same': same})


def claimed():
    return [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]


def attempt(m, props, tests, every):
    name, kind, own, edits = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        os.mkdir(d + '/repo')
        subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo' % d, shell=True, check=True)
        for f, a, b in edits:
            p = os.path.join(d, 'repo/poc/vdaf_poc', f)
            s = open(p).read()
            if s.count(a) != 1:
                return name, kind, 'BAD EDIT (%d matches of %r)' % (s.count(a), a[:60])
            open(p, 'w').write(s.replace(a, b))
        res = {}
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/evidence', VERIF_TIER='quick', VERIF_SEED='1')
        for p in props or own:
            r = subprocess.run(['timeout', '900', 'python3-vt', ROOT + '/check.py', p, '-j', '2', '--every', str(every)], capture_output=True, text=True, env=env, cwd=ROOT)
            u = [l for l in r.stdout.splitlines() if l.startswith(p + ':')]
            n = u[0].split(' undecided')[0].split()[-1] if u else '?'
            res[p] = '%d%s' % (r.returncode, '' if n == '0' else '(%s undecided)' % n)
        t = ''
        if tests:
            r = subprocess.run('PYTHONPATH=. timeout 600 /opt/venv/bin/python -m unittest -q 2>&1 | tail -1', shell=True, capture_output=True, text=True, cwd=d + '/repo/poc')
            t = ' tests: ' + r.stdout.strip()
        bad = [p for p, r in res.items() if r[0] != '0']
        ok = (any(r[0] == '1' for r in res.values()) if kind == 'bug' else not bad)
        und = ['%s=%s' % x for x in res.items() if 'undecided' in x[1] or x[1][0] not in '01']
        return name, kind, '%s %s %s%s' % ('ok ' if ok else 'MISSED' if kind == 'bug' else 'ALARM', ' '.join(bad), ' '.join(und), t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('--kind', default='')
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-e', type=int, default=1)
    ap.add_argument('-j', type=int, default=5)
    a = ap.parse_args()
    load()
    ms = [m for m in MUTANTS if a.k in m[0] and a.kind in m[1] and (not a.p or m[1] == 'same' or set(a.p.split()) & set(m[2]))]
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        fs = [ex.submit(attempt, m, (a.p.split() if a.p else claimed()) if m[1] == 'same' else [], a.t, a.e) for m in ms]
        for f in fs:
            print('%-44s %-5s %s' % f.result(), flush=True)


main()
