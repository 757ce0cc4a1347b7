"""Writes properties.jsonl and MANIFEST.json from mc/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from checks import CHECKS  # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = p["state"]
        a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["tests"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                 "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "model_checking",
                 "level_note": p["note"]} for p in PROPS if p["id"] in CHECKS],
     "not_applicable": NOT_APPLICABLE + [
         {"property": p["id"], "reason": "machinery not built yet"} for p in PROPS
         if p["id"] not in CHECKS and p["id"] not in [n["property"] for n in NOT_APPLICABLE]],
     "notes": "Generated by mc/gen.py from mc/props.py; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
