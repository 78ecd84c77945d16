#!/usr/bin/env python3-vt
"""nothing to build ahead: every check extracts and compiles /repo itself; this only verifies the tools are present"""
import shutil, sys
import z3
for t in ('clang++-18', 'opt-18', 'g++', 'mpic++', 'mpiexec'):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
print('z3', z3.get_version_string())
