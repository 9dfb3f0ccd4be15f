#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="other", hook=None, quick=True):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                       anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), technique, note, level))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                       anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), None, None, None))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NA}
for p, tech, note, level in PROPS:
    if tech is None:
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"],
                          "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                          "technique": tech, "level": level, "level_note": note})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
