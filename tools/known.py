#!/usr/bin/env python3
"""Writes known-findings.json: open findings (none) and the repaired defects, from /repo's fix: commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(V + "/tools/fixed.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        fixed.append(f"fixed: property={PROPS[s[5:]]} {h} {s[5:]}")
json.dump({"findings": [], "fixed": fixed}, open(V + "/known-findings.json", "w"), indent=1)
open(V + "/known-findings.json", "a").write("\n")
