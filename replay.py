#!/usr/bin/env python3-vt
"""replay.py <property> <driver.cpp> <args...>: rebuild one native driver from /repo's current tree and run it."""
import os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'props')]
from common import *
P = importlib.import_module(sys.argv[1])
wd = workdir()
try:
    for d in P.NATIVE:
        if d['src'] == sys.argv[2]:
            exe = os.path.join(wd, 'replay.exe')
            compile_native(os.path.join(VERIF, 'native', d['src']), exe, extra=[x.replace('$REPO', REPO) for x in d.get('extra', [])], defs=d.get('defs', ()), san=d.get('san', True), opt=d.get('opt', '-O1'))
            p = subprocess.run([exe] + sys.argv[3:], cwd=wd, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            sys.exit(p.returncode)
finally:
    shutil.rmtree(wd, ignore_errors=True)
