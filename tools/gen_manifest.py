#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props_cfg.py (single source of what is claimed)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_cfg import PROPS, NOT_CLAIMED
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": c.get("technique", "runtime monitoring: reference-model oracle over seeded workloads on the real library, under ASan/UBSan builds"),
        "level": c["level"],
        "level_note": c.get("note", "Holds on every execution observed: " + c["rule"] + ". No claim beyond the executions run.") + " Assumes: " + "; ".join(c.get("assumptions", ["little-endian IEEE-754 host"])) + ".",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT_CLAIMED.get(i, "check under construction")} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: everything is observed through the public API, file bytes, sanitizers, the replaced allocator and interposed I/O calls."}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
