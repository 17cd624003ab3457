#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and suites.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import P
from suites import PROPS
TECH = {"conc": "stateless model checking of the real code: all thread interleavings and time-outs up to a deviation bound, with a race and lifetime detector",
        "seq": "explicit-state enumeration of all operation sequences / inputs of a bounded space on the real code against a reference model",
        "fault": "exhaustive fault and crash-point enumeration on the real code",
        "proc": "all interleavings of the system calls of two instances of the real code"}
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i not in PROPS:
        continue
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(p["tech"], p["tech"]), "level": PROPS[i]["level"], "level_note": p["note"]})
na = [{"property": p["id"], "reason": p["na"]} for p in P if p["id"] not in PROPS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses compile /repo's sources unchanged, with compiler instrumentation and link-time interposition. Engine in engine/, drivers in harness/, see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
