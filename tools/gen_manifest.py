#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist in lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

T = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check setup", checks=[], not_applicable=[],
         notes="TLA+ specifications (specs/*.tla) checked with TLC; conformance by replaying TLC-generated histories into "
               "the real code and validating the recorded traces with TLC. No hooks in /repo: the harness (harness/*.go) is "
               "laid over /repo as package zzverif with go build -overlay and uses exported API only.")
for p in props:
    if p in checks.CHECKS:
        tech, note = T.get(p, ("TLA+/TLC model checking with trace validation", "see DESIGN.md"))
        m["checks"].append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
                                evidence_file="evidence/%s.json" % p, technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
