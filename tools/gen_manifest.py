#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import specs
NA = getattr(specs, "NOT_APPLICABLE", {})
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in specs.SPECS:
        s = specs.SPECS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
            technique="symbolic execution of the LLVM IR compiled from /repo's headers, assertions against an independent oracle decided by Z3 for all inputs within the bounds; counterexamples replayed on the native build",
            level="model_checking", level_note=s["bounds"]))
    else: na.append(dict(property=p, reason=NA.get(p, "the check for this property is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
