#!/usr/bin/env python3
# Writes MANIFEST.json from props.py.
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]; b = p["bounds"]; b = b if isinstance(b, str) else b["quick"]
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the LLVM IR of /repo's current sources, assertions decided by z3, counterexamples replayed natively", level="model_checking",
        level_note=("Decided by the solver for every value within the bounds. Bounds: " + b + "." + (" Outside: " + p["outside"] + "." if p.get("outside") else "") + " Assumes: " + "; ".join(p.get("assumptions", []) + ["clang 18 code generation, libstdc++ headers, the vfse executor and z3 are trusted (sampled paths are cross-checked against a native g++ build)"]) + ".")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo; the checks compile /repo's sources unmodified."), open(H + "/MANIFEST.json", "w"), indent=1)
