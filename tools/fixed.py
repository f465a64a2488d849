#!/usr/bin/env python3
# fixed.py PROP COMMIT WHAT: records a repaired defect
import sys, json
p, c, w = sys.argv[1:4]
open("/verif/known_findings.jsonl", "a").write(json.dumps({"status": "fixed", "property": p, "commit": c, "line": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
