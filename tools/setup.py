#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing to build ahead: every check rebuilds from /repo."""
import os, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++-14", "python3"):
    if not shutil.which(t):
        print("missing tool:", t)
        sys.exit(1)
for d in ("evidence", "build"):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
print("ok")
