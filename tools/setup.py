#!/usr/bin/env python3
"""Setup: checks that the tools needed are there and warms the build (a check would build by itself as well)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import vrun
vrun.build_objs("asan")
vrun.build_objs("plain")
print("ok")
