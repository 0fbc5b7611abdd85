#!/usr/bin/env python3
"""Writes MANIFEST.json from meta.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); titles[p["id"]] = p["title"]
TECH = "deterministic simulation with fault injection: seeded random schedules, faults and histories against %s"
NOTE = "Seeded search, not exhaustive: %s Trusts the simulator (scheduler, allocator, tile store / recording surface) and its reference model; the library code is the real one compiled from /repo, without -ffast-math or OpenMP's own runtime. Failures replay exactly from their plan file."
checks = [dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s thorough" % i,
               technique=TECH % meta.ORACLE[i], level="exploration", level_note=NOTE % meta.PROPS[i]["rule"]) for i in sorted(meta.PROPS)]
na = [dict(property=i, reason=meta.NOT_APPLICABLE[i]) for i in sorted(titles) if i not in meta.PROPS]
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo were needed: the seams are the OpenMP runtime entry points, the allocator, rand(), the surface interface and the tile request interface. /repo carries only fix: commits, listed in known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
