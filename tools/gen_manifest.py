#!/usr/bin/env python3
"""Writes MANIFEST.json from areas.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from areas import AREAS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in AREAS:
        a = AREAS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="TLA+ specification checked with TLC; conformance by TLC trace validation of recorded executions" + (" and replay of TLC-generated behaviours" if a.get("gen") else ""),
            level="model_checking",
            level_note=a.get("note", "The specification is explored exhaustively for small constants; every call recorded from the real code must be a step the specification allows. Executions that the drivers do not produce are not decided.")))
    else:
        na.append(dict(property=i, reason=os.environ.get("NA_REASON", "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: the public API exposes the abstract state", source_commits=[]),
         checks=checks, not_applicable=na, notes="All checks run check.py, which builds a harness against /repo's working tree, records executions and has TLC validate them against spec/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
