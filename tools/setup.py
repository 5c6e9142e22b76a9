#!/usr/bin/env python3
"""Builds the conformance programs once (each check builds what it needs again)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rc = 0
for d, args in (("harness", []), ("features/encode", []), ("features/digest", [])):
    p = os.path.join(V, d)
    rc |= subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", p + "/target", *args], cwd=p).returncode
sys.exit(min(rc, 1))
