#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/props.py and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {"property": p, "quick_cmd": f"python3 checks/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/check.py {p}",
         "technique": PROPS[p]["technique"], "level": "other", "level_note": PROPS[p]["note"]}
        for p in ids if p in PROPS],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE[p]} for p in ids if p not in PROPS],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
