#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of registered properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation: seeded scenarios, schedules and faults over the real core in one process; "
CLAIMS = json.load(open(V + "/tools/claims.json"))
checks = []
for pid in sorted(CLAIMS["claims"]):
    c = CLAIMS["claims"][pid]
    fl = c.get("flavour", "")
    checks.append({"property": pid,
                   "quick_cmd": ("tools/check.sh %s quick %s" % (pid, fl)).strip(),
                   "thorough_cmd": ("tools/check.sh %s thorough %s" % (pid, fl)).strip(),
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": TECH + c["technique"],
                   "level": c.get("level", "exploration"),
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "none", "enable": "no hook was added to /repo: the simulator uses the public seams (TimeSeries, Action, log sinks) and interposes libc and operator new", "source_commits": []},
     "checks": checks, "not_applicable": CLAIMS["not_applicable"]}
for p in [json.loads(l) for l in open(V + "/properties.jsonl")]:
    if p["id"] not in CLAIMS["claims"] and p["id"] not in [n["property"] for n in m["not_applicable"]]:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
