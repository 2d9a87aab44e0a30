#!/usr/bin/env python3
"""checks/run.py <property>: runs the check of one property (see ../MANIFEST.json)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
sys.exit(engine.run_check(pid, mod.check))
