#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl.
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from checks import CHECKS, NOT_APPLICABLE
V = os.path.join(D, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in ids if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "hooks": {"guard": "none", "enable": "no hook is compiled into /repo: the monitors use the public API, the private headers, link-time symbol wrapping and sanitizer instrumentation only", "source_commits": []},
     "checks": [], "not_applicable": na,
     "notes": "Every check builds /repo's working tree with its own instrumentation under /verif/.build and drives it with check.py (see DESIGN.md)."}
for p in ids:
    if p not in CHECKS: continue
    c = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(na), "not applicable")
