#!/usr/bin/env python3-vt
"""run.py <property id>: runs the check of one property."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

FAMILY = {"C": "circular", "F": "functions", "V": "varints", "M": "locks", "W": "movers", "A": "algebra",
          "S": "signals", "U": "meta", "E": "elementary", "P": "portable"}

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(FAMILY[prop[0]])
    level, fn = mod.CHECKS[prop]
    sys.exit(vlib.main(prop, level, fn))
