#!/usr/bin/env python3
"""regenerate MANIFEST.json from the check modules present"""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = json.load(open(os.path.join(here, "not_applicable.json"))) if os.path.exists(os.path.join(here, "not_applicable.json")) else {}
checks, na = [], []
for i in range(1, 21):
    p = "C%02d" % i
    if p in NA or not os.path.exists(os.path.join(here, "sa", "checks", p.lower() + ".py")):
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
        continue
    m = importlib.import_module("sa.checks." + p.lower())
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "technique": getattr(m, "TECHNIQUE", "static analysis: interprocedural path-sensitive abstract interpretation of the AST of /repo/pycaption (linear-form, string-template and finite-set domains)"),
        "level": m.LEVEL,
        "level_note": " ".join(m.EXPLANATION.split())[:900],
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
