#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (run after editing those; the output is committed)."""
import json, os
from spec import PROPS, SPEC
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p["prop"]) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: harnesses in h/ include the headers of the working tree as they are. "
              "Concurrency checks compile them with -fsanitize=thread and link an own scheduler in place of the sanitizer's runtime."}
for p in PROPS:
    i = p["prop"]["id"]
    if i in SPEC:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick",
                            "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": p["not_applicable"] or "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
