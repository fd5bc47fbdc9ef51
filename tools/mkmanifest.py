#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not decided yet: no static check for it has been built so far")))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
