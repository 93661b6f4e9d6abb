#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import spec
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in spec.PROPS:
        P = spec.PROPS[i]
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="bounded symbolic execution of the compiled sources (LLVM IR) with an SMT solver, native replay of counterexamples",
            level="model_checking",
            level_note=f"Holds for every value within: {P['bounds']}. Outside: {P.get('outside') or 'nothing'}. "
                       "Trusts the symbolic executor (cross-checked by replaying sampled paths natively), clang 18's IR, Z3, "
                       "and the std-based stand-in for Abseil." + (" " + P["note"] if P.get("note") else "")))
    else:
        na.append(dict(property=i, reason=getattr(spec, "NOT_APPLICABLE", {}).get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="make -s -C engine -j8", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo: the harnesses compile its sources as they are."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
