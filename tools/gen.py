#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the catalog."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CAT

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [i for i in sorted(CAT)
       if os.path.exists(os.path.join(V, "mc", "props", i + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in ids:
        f.write(json.dumps(CAT[i]) + "\n")
TECH = ("explicit-state model checking: exhaustive bounded enumeration of "
        "programs/inputs, each executed on the real interpreter and on a "
        "reference model in lock-step")
NOTE = ("Holds for every case of the enumerated bounded space (stated per "
        "sweep in the evidence); trusts the reference model in mc/ref, which is "
        "itself validated against the implementation on every case, and CPython.")
man = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile check.py",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": TECH, "level": "model_checking", "level_note": NOTE,
    } for i in ids],
    "not_applicable": [],
    "notes": "See DESIGN.md. No hooks: /repo is imported as it is.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(ids), "properties; no module yet:",
      [i for i in sorted(CAT) if i not in ids])
