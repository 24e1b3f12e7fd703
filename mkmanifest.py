#!/usr/bin/env python3
"""Writes MANIFEST.json from verus/units.json, verus/assumptions.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
units = json.load(open(V + "/verus/units.json"))
A = json.load(open(V + "/verus/assumptions.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in A["not_applicable"]:
        na.append({"property": i, "reason": A["not_applicable"][i]})
        continue
    us = [u for u in units if i in units[u]]
    level = A["level"].get(i, "proof") if us else "exploration"
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "contracts on the functions extracted from /repo/src, discharged by Verus (units: %s)" % ", ".join(us) if us else "bounded search against an independent oracle (stand-in, not proved)",
        "level": level, "level_note": A["note"].get(i, "bounded search only"),
        **({"theorems": ["%s: %s" % (u, f) for u in us for f in units[u][i]]} if us else {}),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Proof-level checks also run a bounded search on the real crate; it is labelled bounded in the evidence and never counted as proved."},
          open(V + "/MANIFEST.json", "w"), indent=1)
