#!/usr/bin/env python3
"""Checks that the framework can build here (one small library from the working tree)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
import build
sys.path.insert(0, os.path.join(build.V, "harness"))
from registry import CHECKS
print(build.build(CHECKS["C01"]["parts"][0]["build"]))
