#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quantifier"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                         "observe_at": ["standard output of `april run`"], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
        s = "mc/%s.py" % p["id"].lower()
        if not os.path.exists(os.path.join(V, s)): continue
        checks.append({"property": p["id"], "quick_cmd": "python3 " + s, "thorough_cmd": "python3 %s --thorough" % s,
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
claimed = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": "its check is not built yet"} for p in PROPS if p["id"] not in claimed] + NOT_APPLICABLE
json.dump({"version": 1, "setup_cmd": "python3 mc/fw.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Every check builds /repo with /opt/vp/build.sh, enumerates its bounded space completely, and runs the real april on every member. "
                    "No hooks in /repo are needed. Known findings and repaired defects: known_findings.json."}, open(V + "/MANIFEST.json", "w"), indent=1)
