#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks in aw/props"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

checks, na = [], []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(ln)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "aw/props", pid.lower() + ".py")):
        m = importlib.import_module("aw.props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": pid, "reason": "no check built (yet)"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "Every check compiles /repo's working tree itself into a scratch directory "
    "(plain, clang -O2, UBSan, ASan+UBSan variants as it needs), runs the real program and "
    "removes the scratch directory.  /repo carries no hooks."},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
