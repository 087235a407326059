#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
PYB = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        mods = [m["module"] for m in CHECKS[i].get("models", ())]
        tr = [t[1] for t in CHECKS[i]["traces"]]
        tech = "TLA+ specification checked with TLC"
        if mods:
            tech += " (design: %s)" % ", ".join(mods)
        tech += "; conformance: recorded executions of the rebuilt code judged by TLC against %s" % ", ".join(tr)
        if CHECKS[i].get("replay"):
            tech += "; behaviours emitted by TLC are replayed on the code"
        checks.append(dict(property=i, quick_cmd="%s run.py %s --tier quick" % (PYB, i), thorough_cmd="%s run.py %s --tier thorough" % (PYB, i),
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=CHECKS[i].get("note",
                           "TLC explores the design model exhaustively within its constants; the code is bound by judging every recorded call against the same operators in exact arithmetic, on the emitted and generated cases counted in the evidence.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: its specification is still being written (see DESIGN.md)")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="One entry point, run.py; every check builds /repo's working tree into a scratch directory and removes it. Scale: see DESIGN.md.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
