#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a registered suite is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import SUITES
import suites_load  # noqa
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SUITES:
        f = SUITES[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique=getattr(f, "technique", "TLA+ specification checked with TLC; traces of the real code judged against it, behaviours generated from it replayed in the code"),
            level="model_checking",
            level_note=getattr(f, "note", "Bounded: every behaviour of a small model is checked with TLC and replayed in the code, random larger histories are judged by the same specification. Trusts the drivers' observers and the statement of meaning in spec/*.tla.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
