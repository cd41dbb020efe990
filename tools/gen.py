#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from spec.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import NA, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        e = {k: p[k] for k in ("id", "title", "statement")}
        e["quantifier"] = {"over": p["over"], "text": p["quant"]}
        e["why_tests_cant"] = p["why"]
        e["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        fh.write(json.dumps(e, ensure_ascii=False) + "\n")
na = dict(NA)
assert set(na) <= set(ids)
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q lib rules check.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        }
        for p in PROPS
        if p["id"] not in na
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA],
    "notes": "Pure static analysis: every check parses /repo's current sources (Python ast; clang AST for C++) and never runs them.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
