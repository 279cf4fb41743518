#!/usr/bin/env python3-vt
"""Checks that the tools the checks need are there, and warms the build cache (checks rebuild what is missing)."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("mpicxx", "mpirun", "g++"):
    if shutil.which(t) is None:
        sys.exit("missing tool: " + t)
import numpy, scipy
for c in sorted(glob.glob(os.path.join(V, "checks", "c*.py"))):
    r = subprocess.run([sys.executable, c, "--prepare"], cwd=V)
    if r.returncode:
        print("note: building for %s failed; the check will report it" % os.path.basename(c))
