#!/usr/bin/env python3
"""writes MANIFEST.json from the unit registry"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "gv"))
import units
NA = {
 "C20": "the protocol compiler is Python; no deductive verifier for Python is available here (CrossHair/icontract are bounded symbolic execution), so no contract within reach decides it",
 "C21": "needs a permission or rely/guarantee logic over real threads (no VeriFast/VerCors/Frama-C WP here); the lock-protected parts that a monitor-style contract can express are decided under C03, C04, C14 and C15",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    P = units.PROPERTIES.get(p)
    if not P:
        na.append({"property": p, "reason": NA.get(p, "no check committed yet")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 gv/driver.py {p} quick",
        "thorough_cmd": f"python3 gv/driver.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": P.get("technique", "function contracts, loop invariants and monitor invariants on the real C source, discharged by CBMC (goto-cc / goto-instrument --dfcc / cbmc)"),
        "level": P.get("level", "proof"),
        "level_note": P.get("note", "every unit without a stated bound is discharged for all inputs; trusted: cbmc 6.11 and the contract text"),
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
 "notes": "no hooks in /repo: contracts live in /verif/harness and include the real sources; loop contracts are injected mechanically into a scratch copy on every run"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
