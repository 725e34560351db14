#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS, NA, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
     "hooks": {"guard": "cfg(splr_verif)", "enable": "RUSTFLAGS='--cfg splr_verif' (set by check.py for its own builds)", "source_commits": HOOK_COMMITS},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the real code's LLVM IR, assertions decided by Z3",
            "level": c.get("level", "model_checking"),
            "level_note": "Bounded: " + c["bounds"] + ". Every assertion on every path is decided by the SMT solver for all inputs of the path; "
                          "counterexamples are confirmed natively. Outside: " + c["outside"] + ". Trusts rustc's IR, the executor and Z3."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
