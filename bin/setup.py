#!/usr/bin/env python3
"""Checks that the tools are there and the specifications parse. The checks build everything else from /repo."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'build'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
for t in ('java', 'g++', 'clang++'):
    if not shutil.which(t):
        print('missing tool', t)
        sys.exit(1)
print('ok')
