#!/usr/bin/env python3
"""Checks the tools and the reference implementations (against hashlib, bignum code and RFC vectors)."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
for t in ('g++', 'nasm', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
d = tempfile.mkdtemp(prefix='milo_setup_')
try:
    subprocess.run(['g++', '-std=c++20', '-O2', '-w', '-o', d + '/t', V + '/lib/ref_selftest.cpp', V + '/lib/ref.cpp'], check=True)
    rc = subprocess.run([sys.executable, V + '/lib/ref_selftest.py', d + '/t']).returncode
finally:
    shutil.rmtree(d)
sys.exit(rc)
