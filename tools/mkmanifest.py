#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed properties (tools/props.py) and properties.jsonl."""
import json, os, subprocess, sys
sys.argv = [sys.argv[0]]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=props.TECHNIQUE.get(i, props.TECH), level=props.LEVEL.get(i, "model_checking"),
                           level_note=props.NOTE.get(i, props.LEVEL_NOTE)))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "not claimed yet: its check is still being built")))
m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="OPENMPS_TRACE", enable="-DOPENMPS_TRACE with a definition of struct OpenMpsTrace before Computer.hpp (harness/step.cpp)",
         source_commits=["a82f1a7"]), checks=checks, not_applicable=na,
         notes="TLA+ checked with TLC. Entry point ./check PROPERTY [quick|thorough]; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
