#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has checks/<id>.py."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "TLA+ specification (TLC), model-generated scripts replayed on the code, trace validation"),
            "level": getattr(m, "LEVEL", "model_checking"),
            "level_note": getattr(m, "NOTE", "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: nodes are compiled unmodified against the deterministic ROS stand-in in rosstub/."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
