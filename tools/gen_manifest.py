#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, NOT_APPLICABLE, HOOKS
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --build"}
if HOOKS:
    m["hooks"] = {"guard": "cfg(optivorbis_verif)", "enable": "RUSTFLAGS='--cfg optivorbis_verif' (check.py sets it for its own builds)",
                  "source_commits": HOOKS}
m["checks"] = [{
    "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
    "technique": "symbolic execution of the LLVM IR of the real code with SMT (Z3) verdicts over bit-vectors, bounded; native replay of counterexamples",
    "level": "model_checking",
    "level_note": "Holds for every value within these bounds: " + PLAN[p]["bounds"] + ". Outside: " + PLAN[p].get("outside", "inputs beyond the bounds")
                  + ". Trusts rustc's IR, the interpreter's instruction semantics (cross-checked by native replay of sampled paths) and Z3.",
} for p in props if p in PLAN]
m["not_applicable"] = [{"property": p, "reason": NOT_APPLICABLE.get(p, "the check is not built yet")} for p in props if p not in PLAN]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
