#!/usr/bin/env python3
"""Builds /repo with its own scripts and compares the stable tests with the baseline (a development helper)."""
import json, subprocess, sys
subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/vp_out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/vp_out.json"))
def names(d):
    if isinstance(d, dict):
        for k in ("passed", "stable", "pass"):
            if k in d: return set(d[k])
        return set(k for k, v in d.items() if v in ("passed", "pass", True))
    return set(d)
bad = names(b) - names(o)
print("baseline", len(names(b)), "now", len(names(o)), "missing", sorted(bad)[:10])
sys.exit(1 if bad else 0)
