#!/usr/bin/env python3
"""Regenerates the fixed entries of known-findings.json from the fix: commits of /repo (property in tools/fixes.txt)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/known-findings.json"
cur = json.load(open(p)) if os.path.exists(p) else []
known = [k for k in cur if k.get("status") == "known"]
props = [l.split(None, 1) for l in open(V + "/tools/fixes.txt").read().splitlines() if l.strip()]
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    pr = next((a for a, b in props if b.strip() in s), "P01")
    out.append({"property": pr, "status": "fixed", "line": f"fixed: property={pr} {h} {s[4:].strip()}"})
json.dump(known + out, open(p, "w"), indent=1)
