#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "knaster_graph/src/"
D = "knaster_core_dsp/src/"
C = "knaster_core/src/"
P = "knaster_primitives/src/"
props = []
def prop(id, title, statement, over, qtext, why, files, mech, built, tech, level_note, observe=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, built=built, tech=tech, level_note=level_note, observe=observe))
exec(open(os.path.join(ROOT, "tools", "table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props:
    if p["built"]:
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration", "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": "not claimed yet: the check is still being built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": "All checks are generated-input searches (harness/), see DESIGN.md. No hooks in /repo were needed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
