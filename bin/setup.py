#!/usr/bin/env python3
"""Nothing has to be built beforehand (each check builds its drivers from /repo's working tree); look whether the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
ok = bool(shutil.which("g++")) and bool(shutil.which("java")) and bool(vlib.find_classpath())
print("tools present" if ok else "g++, java or TLC missing")
sys.exit(0 if ok else 1)
