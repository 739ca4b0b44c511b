"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from levels import NOTES, DONE

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
TECH = ("TLA+ specification checked with TLC; executions of the real code replayed from and "
        "validated against it (trace validation)")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks are needed: the library is driven through its public interface."}
for p in props:
    if p in DONE:
        m["checks"].append({"property": p, "quick_cmd": "bash check.sh " + p,
                            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p,
                            "technique": TECH, "level": "model_checking", "level_note": NOTES[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
