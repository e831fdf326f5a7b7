#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        b = c.get("bounds", {})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} --tier quick",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": c.get("technique", "stateless explicit-state model checking of the real code: exhaustive bounded enumeration of operation histories against a reference model"),
            "level": "model_checking",
            "level_note": (f"Bounds: {b.get('quick', b) if isinstance(b, dict) else b}. Every explored execution runs the code built from /repo with ASan and UBSan; the verdict covers the stated bound, nothing beyond it."
                           + (" Assumes: " + "; ".join(c["assumptions"]) + "." if c.get("assumptions") else "")),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "SPVGENTWO_VERIF_UNUSED", "enable": "no hooks: the checks build /repo's sources unmodified and use only its public interface", "source_commits": []},
     "notes": "run.py builds the harness and /repo's working tree on every call (objects are cached by content hash in /verif/build). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
