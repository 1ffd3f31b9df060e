#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^trace:"],
                      capture_output=True, text=True).stdout.split()
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "lib/vk/props", i.lower() + ".py")) and i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i,
                           thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t,
                           level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="VOTESS_TRACE",
                    enable="drivers in harness/ are compiled with -DVOTESS_TRACE -Iharness "
                           "(harness/votess_trace_sink.hpp receives the events)",
                    source_commits=hook),
         checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, checked with TLC; see DESIGN.md")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
