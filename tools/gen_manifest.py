#!/usr/bin/env python3
"""Writes MANIFEST.json from rules/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rules import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, note = registry.NOTES.get(i, (registry._TERMS, ""))
        if any(f is registry._scenes for f in registry.CHECKS[i]):
            t += ", and deciding small animations on unrolled loops"
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": (note + " " if note else "") + registry.TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet.")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: rustc's MIR of /repo's current tree is extracted on every run (tools/extract.sh) and analysed in Python."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
