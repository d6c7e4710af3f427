#!/usr/bin/env python3
"""write MANIFEST.json from the table of claimed properties"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tmfcheck import props

NA = {
    "N01": "quantifies over floating point rounding errors of runtime values; no sound static bound on them is in reach of a structural analysis (the structural half, C10, is claimed)",
    "N02": "geometric claim about runtime coordinates (polygon tiling); nothing in the shape of the code decides it",
    "N03": "compares byte counts that depend on runtime data and precision; not decidable from the structure of the code",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
claimed = [p for m in props.MODULES.values() for p in m.split()]
checks = []
for p in ids:
    if p not in claimed:
        continue
    try:
        props.generator(p)
    except Exception as ex:
        print("no generator for", p, ex)
        raise
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": props.TECH.get(p, props.TECH["*"]),
        "level": props.LEVEL.get(p, "other"),
        "level_note": props.NOTE.get(p, props.NOTE["*"]),
    })
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in claimed]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "static analysis only: the crate is type checked with a MIR-dumping compiler driver in two feature configurations and abstractly interpreted; nothing of /repo is executed"},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
