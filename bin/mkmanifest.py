#!/usr/bin/env python3
"""Rewrites MANIFEST.json from specs.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from specs import SPECS  # noqa: E402

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(root, "properties.jsonl")) if x.strip()]
m = dict(
    version=1,
    setup_cmd="bin/setup",
    checks=[
        dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough", evidence_file=f"evidence/{i}.json",
             technique=SPECS[i]["technique"], level=SPECS[i]["level"], level_note=SPECS[i]["note"])
        for i in ids if i in SPECS
    ],
    not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in SPECS],
    notes="No hooks in /repo: everything is observed through the public API. bin/replay FILE re-runs a recorded violation.",
)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
