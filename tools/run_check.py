#!/usr/bin/env python3
"""run_check.py <property id>: runs the check of one property (tier and seed from the environment)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
pid = sys.argv[1]
mod = importlib.import_module("checks." + pid)
vlib.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking"))
