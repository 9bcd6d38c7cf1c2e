#!/usr/bin/env python3
"""setup_cmd: verifies that the toolchain the checks need is present (each check builds what it needs by itself)."""
import shutil, subprocess, sys
for t in ("g++", "ar", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print(subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
