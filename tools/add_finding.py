#!/usr/bin/env python3
"""add_finding.py id property status class match commit text: edits known_findings.json (never called by a check)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(p)) if os.path.exists(p) else []
i, prop, st, cls, match, commit, text = sys.argv[1:8]
l = [f for f in l if f["id"] != i]
d = {"id": i, "property": prop, "status": st, "class": cls, "match": match, "text": text}
if st == "fixed": d["commit"] = commit; d["record"] = "fixed: property=%s %s %s" % (prop, commit, text)
l.append(d); json.dump(l, open(p, "w"), indent=1)
