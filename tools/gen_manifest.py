#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTE = "Sampling evidence: the real binary was executed and monitored on the generated workload only. Trusted: the scripted cargo and preload monitors, the Python oracle, Linux process/file semantics. "
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "vmon/checks/%s.py" % i.lower())):
        m = importlib.import_module("vmon.checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick bin/check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "runtime monitoring of the real binary under a scripted cargo"),
            "level": m.LEVEL,
            "level_note": NOTE + getattr(m, "NOTE", ""),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks observe the real cargo-mutants binary at its process boundary ($CARGO stand-in, LD_PRELOAD monitor, file system).",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
