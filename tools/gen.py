#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (dev tool, not used by the checks)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks link the crates of /repo unmodified", "source_commits": []},
     "checks": [], "not_applicable": NA,
     "notes": "Every check rebuilds the harness crate against /repo's working tree and enumerates its spaces exhaustively in forked workers; see DESIGN.md."}
for p in PROPS:
    if p["id"] in [n["property"] for n in NA]: continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh check {p['id']} quick", "thorough_cmd": f"bash run.sh check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
