#!/usr/bin/env python3
"""Development aid: writes MANIFEST.json and properties.jsonl from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level_note, observe=None, level="exploration", state=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, level_note=level_note, observe=observe, level=level, state=state, thorough=thorough))
exec(open(os.path.join(ROOT, "tools", "properties.py")).read())
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": w, "where": x} for n, w, x in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
na = {i for i, _ in NA}
for p in P:
    if p["id"] in na: continue
    c = {"property": p["id"], "quick_cmd": f"bin/check.sh {p['id']} quick"}
    if p["thorough"]: c["thorough_cmd"] = f"bin/check.sh {p['id']} thorough"
    c.update(technique=p["technique"], level=p["level"], level_note=p["level_note"])
    m["checks"].append(c)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
