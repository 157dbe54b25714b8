#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from claims import CLAIMS, NA
checks = []
for pid, (tech, note) in CLAIMS.items():
    checks.append(dict(property=pid, quick_cmd="VERIF_TIER=quick ./check.sh %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level="other", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="Solver-based checking: every check rebuilds its encoding from /repo's working tree. No hooks in /repo. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert sorted(ids) == sorted(list(CLAIMS) + list(NA)), (set(ids) ^ (set(CLAIMS) | set(NA)))
