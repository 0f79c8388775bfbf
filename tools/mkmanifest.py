#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/table.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import table
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in table.PROPERTIES:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
          "technique": "symbolic execution of the compiled program's LLVM IR with z3; counterexamples replayed natively",
          "level": "model_checking",
          "level_note": table.NOTES.get(p, "") + " Holds for every value within the bounds the evidence lists per scenario; trusts the executor, its POSIX model and z3 (sampled paths are replayed natively on every run)."})
    else:
        m["not_applicable"].append({"property": p, "reason": table.NOT_APPLICABLE.get(p, "check under construction")})
m["notes"] = "No hooks in /repo: the scenarios use only rusty-git's public API. See DESIGN.md."
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
