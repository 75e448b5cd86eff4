#!/usr/bin/env python3
"""run.py <property id>: decides one property (see MANIFEST.json)."""
import os, sys, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "tools"), os.path.join(VERIF, "checks")]
sys.dont_write_bytecode = True
import vlib
from registry import CHECKS
pid = sys.argv[1]
mod, fn, level = CHECKS[pid]
m = importlib.import_module(mod)
vlib.main(pid, getattr(m, fn), level)
