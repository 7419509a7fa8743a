#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 meta.py"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))

P = []   # claimed or not
def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, na=na, state=state, observe=observe))

exec(open(os.path.join(here, "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": " ".join(p["why"].split()), "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": " ".join(p["na"].split())})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
            "technique": " ".join(p["tech"].split()), "level": "other", "level_note": " ".join(p["note"].split())})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
