#!/usr/bin/env python3
"""Builds the library and the conformance drivers (checks rebuild what they need by themselves)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.build([], False)
for f in sorted(os.listdir(os.path.join(build.VERIF, "spec"))):
    pass
print("setup done")
