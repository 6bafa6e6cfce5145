#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(R + "/checks.json")); props = [json.loads(l) for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "make -s -C engine",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled (LLVM IR) real code with SMT (z3/cvc5) deciding each assertion; counterexamples replayed natively",
            "level": "model_checking", "level_note": checks[i].get("level_note", "All values of the symbolic inputs within the bounds stated in the evidence (block/frame/channel counts, steps); no claim beyond those bounds.")})
    else: m["not_applicable"].append({"property": i, "reason": checks.get("_na", {}).get(i, "no check built yet")})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); open(R + "/MANIFEST.json", "a").write("\n")
