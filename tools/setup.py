#!/usr/bin/env python3
"""Offline setup: nothing is compiled ahead; checks rebuild from /repo on every run.  Verifies the tools are there."""
import shutil, subprocess, sys
bad = []
for t in (('clang++-18', 'clang++'), ('llvm-link-18', 'llvm-link'), ('opt-18', 'opt'), ('g++',), ('cvc5',), ('objcopy',)):
    if not any(shutil.which(x) for x in t): bad.append(t[0])
r = subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, mpmath; print(z3.get_version_string())'], capture_output=True, text=True)
if r.returncode: bad.append('z3/mpmath python')
print('z3', r.stdout.strip(), 'missing:', bad)
sys.exit(1 if bad else 0)
