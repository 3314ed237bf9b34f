#!/usr/bin/env python3
"""Nothing is installed: checks build what they need from /repo when they run. This verifies the toolchain."""
import subprocess, sys
for c in ("g++", "clang++"):
    r = subprocess.run([c, "--version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout.splitlines()[0] if r.stdout else "", r.returncode)
    if r.returncode:
        sys.exit(1)
