"""Writes MANIFEST.json from the registry (kept in step with properties.jsonl)."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness.registry import NOTES, PROPERTIES  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f]

checks = []
for p in ids:
    if p not in PROPERTIES:
        continue
    checks.append(
        {
            "property": p,
            "quick_cmd": f"bash check.sh {p}",
            "thorough_cmd": f"bash check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "TLA+ specification: TLC model checking, spec-generated behaviours replayed on the code, recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": NOTES[p],
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [
        {"property": p, "reason": "check not built yet"} for p in ids if p not in PROPERTIES
    ],
    "notes": "No hooks are needed: everything is observed through the public API of /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
