#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
import registry
props = [json.loads(x) for x in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        specs = sorted({c().trace for c in registry.PROPS[i]})
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + i,
            technique="TLA+ specification (%s) model-checked with TLC; TLC-generated and random call histories replayed into the real code; recorded traces validated against the specification" % ", ".join(s.replace("Trace", "") for s in specs),
            level="model_checking",
            level_note=registry.NOTES.get(i, "Exhaustive for the specification within small constants; every explored transition is replayed into the real code, longer histories are random (seeded). Trusts the driver's projection, TLC, gcc and ASan.")))
    else: na.append(dict(property=i, reason=registry.NA.get(i, "machinery not built yet")))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
    notes="No hooks: the drivers use the public API of the current /repo tree only."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
