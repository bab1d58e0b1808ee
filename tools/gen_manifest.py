#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py, properties.jsonl and na.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
NA = json.load(open(os.path.join(V, "tools", "na.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
      "technique": c.get("technique", "deterministic simulation with fault injection: seeded schedules and faults over the real code, reference-model oracle, minimised replay"),
      "level": c.get("level", "exploration"), "level_note": c["note"]})
na = [{"property": i, "reason": NA.get(i, "no check registered yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/build.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check builds its harness from /repo's working tree (content-hashed cache under /verif/build, git-ignored), searches seeds derived from VERIF_SEED on all cores, minimises and replays any violation in a fresh process. tools/replay.py FILE replays a violation."}
hk = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hk): m["hooks"] = json.load(open(hk))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
