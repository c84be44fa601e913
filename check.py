#!/usr/bin/env python3
"""python3 check.py C01 [scenario-substring ...] [-v]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    from sa import core
    m = importlib.import_module("sa.checks." + prop.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    return core.main(prop, m.scenarios(tier), m.LEVEL, m.EXPLANATION, m.ASSUMPTIONS,
                     static=getattr(m, "static", None), argv=sys.argv[2:],
                     minimum=getattr(m, "MINIMUM", 1))


sys.exit(main())
