#!/usr/bin/env python3
"""Checks that the tools the checks need are there and parses every specification module."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib")]
import common
spec = os.path.join(common.VERIF, "spec")
bad = 0
for m in sorted(os.listdir(spec)):
    if m.endswith(".tla"):
        r = subprocess.run(["java", "-cp", common.classpath(), "tla2sany.SANY", m], cwd=spec, capture_output=True, text=True)
        if r.returncode:
            print(m, r.stdout[-800:])
            bad = 1
sys.exit(bad)
