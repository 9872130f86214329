#!/opt/venv/bin/python
"""Writes MANIFEST.json from the checks in mon/plan.py (run by hand after adding a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "mon"))
import plan  # noqa: E402

TECH = "runtime monitoring"
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python mon/setup.py",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python mon/run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python mon/run.py {i}",
            "technique": NOTES[i][0],
            "level": "exploration",
            "level_note": NOTES[i][1],
        }
        for i in ids if i in plan.PLAN
    ],
    "not_applicable": [{"property": i, "reason": "No check has been built yet."}
                       for i in ids if i not in plan.PLAN],
    "notes": "No hooks in /repo: the monitors observe the public API and are injected from "
             "outside (recording function bodies, captured stdout, sys.monitoring line events).",
}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
