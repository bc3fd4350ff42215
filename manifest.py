#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from jobs import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the compiled LLVM IR of the real code, assertions decided by Z3 (QF_ABV/FP)",
            level="model_checking",
            level_note="All values within these bounds, no sampling: " + s["bounds"] + ". Outside the bounds nothing is claimed. "
            "Trusted: rustc/LLVM up to the optimised IR, the executor's IR semantics (paths are replayed natively), Z3."
            + (" " + s["note"] if s["note"] else "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="cfg(image_verif)", enable="RUSTFLAGS --cfg image_verif (set by vlib.py)",
                    source_commits=[l.strip() for l in open("hook_commits.txt")] if os.path.exists("hook_commits.txt") else []),
         checks=checks, not_applicable=na,
         notes="python3 check.py <property> [quick|thorough]; exit 0 held, 1 violation, 2 incomplete or build error.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
