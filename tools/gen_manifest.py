#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_CLAIMED
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                      evidence_file="evidence/%s.json" % i, technique=PROPS[i].get("technique", "stateful property-based testing against a reference model, with shrinking"),
                      level=PROPS[i].get("level", "exploration"), level_note=PROPS[i]["note"]) for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NOT_CLAIMED.get(i, "no check built yet")) for i in ids if i not in PROPS],
         notes="No hooks in /repo are needed: the sched variant is an instrumented compilation of the unmodified sources (see DESIGN.md). Repairs are the commits in /repo whose message starts with fix:; they are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
