"""Rewrites MANIFEST.json from the properties and the checks that exist (python3 lib/manifest.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib.checks import AREAS, module  # noqa: E402
from lib.props import P  # noqa: E402

checks, without = [], []
for p in P:
    i = p["id"]
    m = next((m for m in (module(a) for a in AREAS) if i in m.CHECKS), None)
    if m is None:
        without.append({"property": i, "reason": "not built yet"})
        continue
    technique, note = m.ABOUT[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "technique": technique, "level": "model_checking", "level_note": note})
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": without,
               "notes": "TLA+ checked with TLC; see DESIGN.md. No hooks in /repo are needed."}, f, indent=1)
    f.write("\n")
