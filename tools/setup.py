#!/usr/bin/env python3
"""Checks that the tools the framework needs are present, and warms the build of one harness."""
import os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
missing = [t for t in ("g++", "gcc", "clang++", "cmake", "git") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, V)
import build as B
from props import PROPS
B.build([(PROPS["C01"]["src"], "asan", [], "C01")])
print("ready")
