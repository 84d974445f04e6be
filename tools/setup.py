#!/usr/bin/env python3
"""Checks that the tools the checks use are there; nothing has to be built beforehand."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib
ok = all(os.path.exists(j) for j in vlib.JARS.split(":"))
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
subprocess.run(["go", "version"], check=True)
sys.exit(0 if ok else 2)
