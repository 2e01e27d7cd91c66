#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/na.py").read()) if os.path.exists(V + "/tools/na.py") else None
checks = []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": s.get("technique", "symbolic execution of the LLVM IR of the real code, assertions decided by z3, counterexamples replayed natively"),
                       "level": s.get("level", "model_checking"),
                       "level_note": "Bounded: " + s["bounds"] + ". Real arithmetic (no rounding); see DESIGN.md."})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in props if p["id"] not in specs.SPECS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Every check regenerates its encoding from /repo's working tree; known findings are in known_findings.json."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
