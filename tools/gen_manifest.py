#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks_config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 run_check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s --tier thorough" % p,
                       "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile run_check.py checks_config.py && clang++ --version >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its own drivers (harness/) against /repo's headers, runs them sharded under sanitizers and judges the observed executions. No hooks in /repo are used."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
