#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json (run by hand after editing it)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = []
for name in sorted(os.listdir(os.path.join(here, "props"))):
    props.append(json.load(open(os.path.join(here, "props", name))))
TECH = "property-based testing: "
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
        "technique": TECH + p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    } for p in props if "technique" in p],
    "not_applicable": [{"property": p["id"], "reason": p["not_applicable"]} for p in props if "technique" not in p],
    "notes": "No hooks: everything the checks need of the crate is public. known-findings.txt lists the repaired and the recorded defects.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
