#!/usr/bin/env python3
"""Checks that the tools the checks need are here, and that the engine builds."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++-18", "llvm-link-18", "make", "valgrind"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
b = tempfile.mkdtemp(prefix="symx_setup_")
rc = subprocess.call(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "B=" + b])
shutil.rmtree(b, ignore_errors=True)
sys.exit(rc)
