#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from checks import CHECKS, NOT_APPLICABLE, TECH, NOTE
DEF = "Seeded generated workloads on the real code under sanitizers, judged by an independent model; holds on the executions observed, not beyond them."
checks = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=TECH[p], level="exploration", level_note=NOTE.get(p, DEF)))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NOT_APPLICABLE)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
