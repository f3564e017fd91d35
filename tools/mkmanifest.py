#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those with a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
sys.dont_write_bytecode = True
import check
INFO = json.load(open(os.path.join(V, "tools", "manifest_info.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in check.CHECKS and i in INFO:
        m["checks"].append({"property": i, "quick_cmd": f"python3 driver/check.py {i}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 driver/check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": INFO[i]["technique"],
                            "level": check.CHECKS[i][1], "level_note": INFO[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = "Specifications in TLA+ (spec/), checked with TLC; bound to the code by replay and trace validation (harness/, driver/). No hooks in /repo."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
