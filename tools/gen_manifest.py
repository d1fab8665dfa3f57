#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C44": "Equivalence of print and re-parse quantifies over all texts of a context-dependent grammar combined with string replacement; deciding it needs running or symbolically executing both, which is outside static analysis. The parts a static argument reaches are C04, C06, C07, C08 and C25.",
    "C45": "The parser and the renderer recurse on the nesting depth by construction; how much stack a depth needs is a run-time quantity that no static argument on the source bounds.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
            "technique": m.TECHNIQUE, "level": "other",
            "level_note": getattr(m, "NOTE", "Decides the property's rules on every path of the functions listed in the evidence, from the type-checked MIR of the current tree; trusts the compiler's MIR, the models of std calls in lib/models.py and the property's formalisation."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet.")})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the type-checked program (MIR dumped by driver/, abstract interpretation in lib/). See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
