#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib

CHECKS = {}
for mod in ("lex", "parse", "gen", "cli", "misc"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), mod + ".py")):
        CHECKS.update(importlib.import_module(mod).CHECKS)

if __name__ == "__main__":
    sys.exit(lib.main(CHECKS))
