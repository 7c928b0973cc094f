#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from FIXED below and the fix commits of /repo (matched by subject)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.rstrip("\n").split("|", 2) for l in open(V + "/tools/fixed.txt") if l.strip()]
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines():
    h, s = l.split(" ", 1)
    log[s[5:] if s.startswith("fix: ") else s] = h
k = json.load(open(V + "/known_findings.json"))
out = []
for pid, subj, what in FIXED:
    if subj not in log:
        sys.exit("no commit: " + subj)
    out.append("fixed: property=%s %s %s" % (pid, log.pop(subj), what or subj))
k["fixed"] = out
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
print(len(out), "fixed; commits not listed:", [s for s in log if s != "base"])
