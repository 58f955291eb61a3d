#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from levels import TECHNIQUE, NOTE, LEVEL, NOT_APPLICABLE
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                           technique=TECHNIQUE.get(i, "TLA+ specification, TLC behaviours replayed into the code, recorded histories validated by TLC"),
                           level=LEVEL.get(i, "model_checking"), level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
