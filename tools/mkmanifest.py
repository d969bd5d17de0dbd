#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the registry and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {p for ids in registry.MODULES.values() for p in ids}
NA = getattr(registry, "NOT_APPLICABLE", {})
TECH = getattr(registry, "TECH", {})
NOTE = getattr(registry, "NOTE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, TECH.get(i[0], "TLA+ specification, TLC model checking, trace validation of the implementation")),
                       "level": "model_checking",
                       "level_note": NOTE.get(i, NOTE.get(i[0], "exhaustive within the stated bound on the specification; sampled conformance on the implementation"))})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API and read public attributes", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC). Known findings in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
