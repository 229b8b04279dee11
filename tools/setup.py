#!/usr/bin/env python3
"""Sanity check of the tools every check needs, and compilation of the TLC operator overrides."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import core
for cmd in (["g++", "--version"], ["java", "-version"]):
    rc, o, e = core.run(cmd)
    if rc != 0:
        sys.exit("missing tool: " + cmd[0])
core.overrides_dir()
print("setup ok")
