#!/usr/bin/env python3
"""Checks that the tools are there and the specifications parse."""
import os, subprocess, sys
ROOT = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
bad = 0
for m in sorted(os.listdir(os.path.join(ROOT, "spec"))):
    if m.endswith(".tla"):
        p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", m],
                           cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True)
        if p.returncode: bad = 1; print(p.stdout[-2000:])
if subprocess.run(["g++", "--version"], capture_output=True).returncode: bad = 1
sys.exit(bad)
