#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tasks.py (run by hand after adding a property)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import tasks as T
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if p in T.PROPS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "symbolic execution of the crate's LLVM IR with z3 (own executor), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": ("Bounded: " + T.PROPS[p]["bounds"]("quick") + ". Outside: " + T.PROPS[p]["outside"] +
                           ". Trusts the executor's IR semantics, z3 and that allocation succeeds."),
        })
    else:
        na.append({"property": p, "reason": T.NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crate uses only the public API. fix commits and findings: known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
