#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --build-all", checks=[], not_applicable=[])
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append(dict(property=p["id"], reason="its check is not finished yet"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c.get("level", "exploration"),
                            level_note=c["note"] or "Random exploration with a stated oracle; absence of a violation is evidence, not proof."))
m["notes"] = "Property-based testing and fuzzing; every check rebuilds the sources of /repo. No hooks in /repo: pauses, crash points and faults are injected by wrapping system calls at link time (harness/common/wrap.cpp)."
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
