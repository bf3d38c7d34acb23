#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C25": "pybind11 is not installed and cannot be fetched: the Python module can't be built here, so no generated input can reach it.",
    "C26": "emscripten is not installed and cannot be fetched: the JavaScript module can't be built here, so no generated input can reach it.",
}
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS and "technique" in CHECKS[i]:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                            "thorough_cmd": f"python3 run.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json",
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
m["notes"] = "Every check rebuilds the library sources found under /repo/matslise into /verif/.build (git-ignored) and runs a generator-driven harness."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
