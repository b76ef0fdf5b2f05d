#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in registry.CHECKS:
        suites = [n for n, _ in registry.CHECKS[pid]]
        checks.append({
            "property": pid,
            "quick_cmd": "bin/check %s quick" % pid,
            "thorough_cmd": "bin/check %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": registry.TECHNIQUE,
            "level": "model_checking",
            "level_note": " ".join(registry.NOTES[n] for n in suites) + " " + registry.TRUST,
        })
    else:
        na.append({"property": pid, "reason": registry.NA.get(pid, "no check yet")})
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the driver in harness/ uses only the public API and real sockets."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
