#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after editing the registry)."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
m = {
    "version": 1,
    "setup_cmd": "python3 run.py build",
    "checks": [{
        "property": k,
        "quick_cmd": "VERIF_TIER=quick python3 run.py check " + k,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": s["technique"],
        "level": "exploration",
        "level_note": s["note"],
    } for k, s in CHECKS.items()],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo are needed: the monitors observe through the library's own container interfaces, the command line and sanitizer instrumentation.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
