#!/usr/bin/env python3
"""setup_cmd: build the compiler variants the checks use, so that they start warm (they rebuild by themselves on any change)"""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
from vp import wccbuild, registry
want = []
for pid in registry.MODULES:
    for b in registry.get(pid).builds:
        if b not in want:
            want.append(b)
for b in want:
    print(b, wccbuild.build(b), flush=True)
