#!/usr/bin/env python3
"""Checks that the tools are there and that the specification typechecks. Builds nothing that outlives it."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def tc(f):
    return f, subprocess.run(['quint', 'typecheck', f], capture_output=True, text=True)
bad = 0
with ThreadPoolExecutor(8) as p:
    for f, r in p.map(tc, sorted(glob.glob(HERE + '/spec/*.qnt'))):
        if r.returncode:
            bad = 1
            print(f, r.stdout[-1500:], r.stderr[-1500:])
print('specification typechecks' if not bad else 'specification does not typecheck')
sys.exit(bad)
