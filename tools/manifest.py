"""Write MANIFEST.json from registry.py and properties.jsonl."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
import registry  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = registry.P.get(i)
    if p is None:
        na.append({"property": i, "reason": registry.NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt run.py {i}",
        "thorough_cmd": f"python3-vt run.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": p.get("technique", registry.TECHNIQUE),
        "level": p["level"],
        "level_note": p.get("note", registry.NOTE),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3' && test -x /opt/venv/bin/python",
    "checks": checks,
    "not_applicable": na,
    "notes": "Deductive verification of the Python source in /repo by the verification condition generator in /verif/pycv; contracts in /verif/contracts; executable forms for replay in /verif/oracles. No hooks in /repo.",
}, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
