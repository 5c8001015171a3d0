#!/usr/bin/env python3
"""Writes MANIFEST.json from runs.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from runs import CHECKS
NA = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = "Every value within the stated bounds is covered: the compiled code of /repo (LLVM bitcode, rebuilt on every run) is executed symbolically and every branch and assertion is decided for all values, by Z3 (or, where marked, by a finite-domain procedure that Z3 cross-checks on the other runs). Nothing is claimed beyond the bounds. Trusted: rustc, LLVM, Z3, the executor /verif/engine, the reference model in /verif/harness. Counterexamples are replayed natively before they are reported; sampled paths are re-run natively too. Bounds: "
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "ginko_verif", "enable": "RUSTFLAGS='--cfg ginko_verif' (set by check.py for the harness and replay crates)", "source_commits": ["29bd3c5"]},
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "symbolic execution of the compiled code (LLVM bitcode of the Rust crates) with Z3, against a reference model; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTE + "; ".join(f"{k}: {v}" for k, v in CHECKS[i]["bounds"].items()),
    } for i in props if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in props if i not in CHECKS],
    "notes": "See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
