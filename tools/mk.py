#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa

TECH = "contract-based deductive verification: VCs generated from the current Python source, discharged by z3/cvc5, counterexamples replayed on the real code"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(d) + "\n")
checks = []
na = []
for p in PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --tier quick", thorough_cmd=f"./check.py {p['id']} --tier thorough",
                       technique=p.get("tech", TECH), level=p.get("level", "proof"), level_note=p["note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="./selftest.py", checks=checks, not_applicable=na + NOT_APPLICABLE), fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
