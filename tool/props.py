#!/usr/bin/env python3
"""Source of properties.jsonl and of the property part of MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(id, title, statement, over, qtext, why, files, mech, check=None, na=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                check=check, na=na, technique=technique, note=note)
PROPS = []
def prop(*a, **k): PROPS.append(P(*a, **k))
exec(open(os.path.join(V, "tool", "props_data.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
         "notes": "All checks are static analyses of /repo's sources (custom clang LibTooling exporter + Python analyses); no hooks in /repo. run.py parses every translation unit on each run, re-using parses of byte-identical inputs from /verif/.cache."}
    for p in PROPS:
        if p["na"]: m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
