#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
import checks
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOT = getattr(checks, "NOT_APPLICABLE", {})
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": checks.CHECKS[i]["technique"],
                "level": checks.CHECKS[i]["level"], "level_note": checks.CHECKS[i]["level_note"]} for i in ids if i in checks.CHECKS],
    "not_applicable": [{"property": i, "reason": NOT.get(i, "no check has been built yet")} for i in ids if i not in checks.CHECKS],
    "notes": "The specifications (TLA+, checked with TLC) are in spec/, the conformance programs in harness/, the steps of each check in checks.py; DESIGN.md explains them.",
}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
