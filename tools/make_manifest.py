"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = "a pure function of its input with no schedule, clock, randomness, I/O, fault or history in it: deterministic simulation would only generate inputs"
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        doc = src.split('"""')[1].split("\n\n", 1)
        checks.append({
            "property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']}",
            "technique": "deterministic simulation with fault injection: seeded search over simulated runs",
            "level": "exploration",
            "level_note": (doc[1].strip().replace("\n", " ") if len(doc) > 1 else doc[0].strip()),
        })
    elif p["id"].startswith("N"):
        na.append({"property": p["id"], "reason": NA})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
