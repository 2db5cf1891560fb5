#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/cNN.py is claimed, the rest is not."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

NOT_APPLICABLE = {
    "C30": "depends on when the operating system delivers bytes (whether two bytes belong together "
           "is a matter of milliseconds); no static argument bounds it. What is decidable of key "
           "reads, given what select() and read() answer, is C32",
}
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    prop = json.loads(line)["id"]
    path = os.path.join(ROOT, "checks", prop.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": prop, "reason": NOT_APPLICABLE.get(
            prop, "no check built yet")})
        continue
    module = importlib.import_module(f"checks.{prop.lower()}")
    checks.append({
        "property": prop,
        "quick_cmd": f"python3 run_check.py {prop} --tier quick",
        "thorough_cmd": f"python3 run_check.py {prop} --tier thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": getattr(module, "TECHNIQUE",
                             "path-sensitive abstract interpretation of the source"),
        "level": "other",
        "level_note": " ".join(module.RULE.split()),
    })
out = {"version": 1, "setup_cmd": "python3 -c \"import ast\"",
       "checks": checks, "not_applicable": missing,
       "notes": "All checks are pure Python 3 (standard library only), read /repo's current "
                "source on every run and never import or execute it. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as file:
    json.dump(out, file, indent=1)
    file.write("\n")
print(len(checks), "claimed,", len(missing), "not")
