#!/usr/bin/env python3
"""Writes COVERAGE.md from the evidence of the last runs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
o = ["# Scenarios and what the last quick run of each explored\n", "Generated by `tools/coverage.py` from `evidence/`. Bound: deviations completed (SEQ scenarios have no schedule; 2 means all).\n"]
for i in T:
    try: e = json.load(open(V + "/evidence/%s.json" % i))
    except OSError: continue
    o.append("\n## %s %s\n\n%d executions, %s s\n\n| scenario | drives | executions | states | inputs | bound |\n|---|---|---|---|---|---|" % (i, T[i], e["coverage"]["executions"], e["wall_s"]))
    for s in e["coverage"]["scenarios"]:
        o.append("| %s | %s | %d | %d | %d | %s%s |" % (s["scenario"], s["what"], s["executions"], s["states"], s["cases"], "all" if s["all_behaviours"] else s["bound_done"], "" if s["complete"] else " (capped)"))
open(V + "/COVERAGE.md", "w").write("\n".join(o) + "\n")
