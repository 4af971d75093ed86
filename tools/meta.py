#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, level="model_checking", technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _level=level, _tech=technique, _note=note, _na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    if p["_na"]:
        NA.append(dict(property=p["id"], reason=p["_na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 /verif/checks/run.py %s quick" % p["id"],
                       thorough_cmd="python3 /verif/checks/run.py %s thorough" % p["id"],
                       technique=p["_tech"], level=p["_level"], level_note=p["_note"]))
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="bash /verif/tools/build_driver.sh", checks=checks, not_applicable=NA), f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
