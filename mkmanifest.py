#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness file is claimed, every other is listed as not applicable."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "src", "p%s.rs" % i[1:])) and i not in NA:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "bounded symbolic execution of the rustc LLVM IR, every branch and assertion decided by Z3; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every input within the bounds stated per harness (DESIGN.md, evidence), nothing beyond them. Trusts: rustc's LLVM IR as rendering of the source, the executor lsx (checked by replaying every path's model in two native builds), Z3 (sampled queries checked with cvc5 and a newer Z3), the reference model in the harness. Allocation never fails."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every harness uses the public API only. The engine is /verif/engine (own LLVM IR symbolic executor over libz3), the harnesses are /verif/harness/src/pNN.rs; check.py compiles /repo's current tree anew on every run.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
