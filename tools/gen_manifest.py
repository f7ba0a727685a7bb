#!/usr/bin/env python3
"""MANIFEST.json from the table of cases and the list of properties."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
import cases
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cases.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "symbolic execution of the compiled repository code (LLVM bitcode), assertions decided by Z3 for all inputs within bounds; counterexamples replayed natively",
            "level": "model_checking", "level_note": cases.CHECKS[i].get("note") or ("Bounded: outside " + cases.CHECKS[i]["outside"])})
    else:
        m["not_applicable"].append({"property": i, "reason": cases.NOT_APPLICABLE.get(i, "not built yet")})
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
