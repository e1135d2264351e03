#!/usr/bin/env python3
"""Sanity of the tool chain; every check builds what it needs itself."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ok = all(shutil.which(x) for x in ('g++', 'ar', 'python3'))
for h in ('/usr/include/z3++.h', '/usr/include/gmpxx.h', '/usr/include/eigen3/Eigen/Dense'):
    ok = ok and (os.path.exists(h) or h.endswith('z3++.h') and os.path.exists('/usr/include/z3.h'))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'build'), exist_ok=True)
print('tool chain', 'complete' if ok else 'INCOMPLETE')
sys.exit(0 if ok else 1)
