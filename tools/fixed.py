#!/usr/bin/env python3
"""fixed.py PROPERTY KEY COMMIT WHAT: records a repaired defect in known-findings.jsonl."""
import sys, json, os
p, key, commit, what = sys.argv[1:5]
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl")
open(f, "a").write(json.dumps({"property": p, "key": key, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (p, commit, what)}, separators=(",", ":")) + "\n")
