#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from run/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "run"))
from props import PROPS
ALL = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in ALL:
    i = p["id"]
    c = PROPS.get(i)
    if c is None:
        na.append(dict(property=i, reason="work in progress: the specification does not decide it yet"))
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3 run/check.py %s --tier quick" % i,
        thorough_cmd="python3 run/check.py %s --tier thorough" % i,
        technique=c.get("technique", "TLA+ specification (TLC): the library's recorded call histories are validated against it"),
        level="model_checking",
        level_note=c.get("note", "Every call result of every executed history must be the one the specification gives. "
                         "Bounded by the histories executed (enumerated small ones and seeded random ones); trusts TLC, "
                         "the driver in harness/ and the specification in spec/.")))
m = dict(version=1, setup_cmd="python3 run/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, driver in harness/, checks in run/. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
