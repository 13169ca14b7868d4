#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain works; every check builds what it needs itself."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
subprocess.run(["java", "-version"], check=True, capture_output=True)
subprocess.run(["go", "version"], check=True, capture_output=True, env=vlib.goenv())
print("setup ok")
