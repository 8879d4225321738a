#!/usr/bin/env python3-vt
"""Checks that the tools the framework needs are present. There is nothing to build ahead of time: every check
compiles the real sources itself."""
import subprocess, sys, shutil
import z3
for t in ['clang++', 'opt', 'g++', 'cvc5']:
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
s = z3.Solver(); x = z3.BitVec('x', 64); s.add(x & 1 == 0, x % 2 == 1)
assert s.check() == z3.unsat
print('tools present; z3', z3.get_version_string())
