#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P, CHK, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) if isinstance(m, str) else dict(name=m[0], where=m[1]) for m in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHK.append(dict(property=id, quick_cmd="./check %s quick" % id, thorough_cmd="./check %s thorough" % id, technique=technique, level="other", level_note=note))


exec(open(os.path.join(HERE, "props_table.py")).read())
P.sort(key=lambda p: p["id"]); CHK.sort(key=lambda p: p["property"]); NA.sort(key=lambda p: p["property"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="/usr/bin/python3 -m sv.build", checks=CHK, not_applicable=NA), f, indent=1)
    f.write("\n")
