#!/usr/bin/env python3
"""setup: checks that the tools are there and that everything parses and compiles"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vlib import *
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".tla"):
        r = run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC)
        if r.returncode or "*** Errors" in r.stdout or "Fatal errors" in r.stdout:
            print(r.stdout[-3000:])
            sys.exit(1)
        print("parsed", f)
print("setup done")
