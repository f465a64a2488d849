#!/usr/bin/env python3
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "PSX_NONE", "enable": "no hooks: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "see DESIGN.md; known findings in known_findings.jsonl"}
for i in ids:
    if i in CHECKS and CHECKS[i].get("claim", True):
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
          "technique": "symbolic execution of the library's LLVM IR with SMT (Z3 bit-vectors)", "level": "model_checking",
          "level_note": "All values within bounds: " + c["bounds"] + ". Trusts clang's IR, the executor, Z3 and the runtime models; candidates are replayed natively under AddressSanitizer before being reported; the evidence file says per entry whether the path space was exhausted."})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "claimed")
