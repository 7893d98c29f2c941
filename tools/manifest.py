#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = json.load(open(os.path.join(V, "checks.json")))
out = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": "The check is not built yet."})
        continue
    out["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "technique": c.get("technique", "property-based testing against a reference model, with shrinking"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Random search, no proof: held on all generated cases of the run; "
                                    "sanitized (ASan, UBSan) build of /repo's working tree."),
    })
out["notes"] = ("One engine (harness/pbt*.{h,cc}) drives all the checks; check.py builds /repo's working tree "
                "into /verif/build. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
