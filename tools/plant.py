#!/usr/bin/env python3
"""Validates planted bugs by hand: tools/plant.py [id ...]
For each seeded/<id>: in a scratch copy of /repo, demo passes unpatched; patch applies, builds, stable tests pass, demo fails; then the property's check
(run with TRIDENT_REPO on the patched copy) must report."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(c, cwd, t=900, env=None):
    p = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, errors='replace', timeout=t, env=env)
    return p.returncode, p.stdout + p.stderr


W = tempfile.mkdtemp(prefix='plant')
try:
    R = os.path.join(W, 'repo')
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    for i in (sys.argv[1:] or sorted(os.listdir(S))):
        d = os.path.join(S, i)
        D = os.path.join(W, 'demo')
        shutil.rmtree(D, ignore_errors=True)
        shutil.copytree(d, D)
        os.remove(os.path.join(D, 'patch.diff'))
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        a, o1 = sh('bash %s/demo.sh' % D, R, 300)
        x, o = sh('git apply %s/patch.diff' % d, R)
        assert x == 0, o
        b, o2 = sh('bash %s/demo.sh' % D, R, 300)
        c, o3 = sh('python3-vt check.py %s quick' % prop, V, env=dict(os.environ, TRIDENT_REPO=R))
        sh('git checkout -- . && git clean -fdq', R)
        v = [l for l in o3.split('\n') if l.startswith('VIOLATION')]
        print(i, prop, 'demo clean=%d patched=%d check=%d' % (a, b, c), v, '' if a == 0 and b != 0 else 'DEMO BAD\n' + o1[-800:] + o2[-800:], flush=True)
        if c not in (0, 1):
            print(o3[-1500:])
finally:
    shutil.rmtree(W, ignore_errors=True)
