#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the table of implemented checks (sa/checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import PROPS, NA_REASON
from checktable import CHECKS

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        tech, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="/usr/bin/python3 check.py %s --tier quick" % i,
                           thorough_cmd="/usr/bin/python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA_REASON.get(i, "Check not built yet.")))
m = dict(version=1, setup_cmd="/usr/bin/python3 check.py --selfcheck", checks=checks, not_applicable=na,
         notes="All checks are static: they parse /repo's current sources with the standard library's ast module and never import or run them.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
