#!/usr/bin/env python3
"""newbug.py SPEC.py: SPEC defines B = [(id, prop, needs, breaks, [(file, old, new)...], demo_cpp_or_None, demo_extra)] ; writes seeded/<id> and runs mkbug.sh."""
import sys, os, json, subprocess
sp = {}
exec(open(sys.argv[1]).read(), sp)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# Exit 0 when the property holds for this example.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -g -include unistd.h %s -I/repo -o "$T/demo" "$D/demo.cpp" /repo/_build/libcommon.a %s -lsqlite3 -lpthread || exit 98
cd "$T" && timeout 100 ./demo
'''
for (i, prop, needs, breaks, edits, demo, *x) in sp["B"]:
    if only and i not in only: continue
    subprocess.check_call("git -C /tmp/wt checkout -q -- . && git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt checkout -q FETCH_HEAD", shell=True)
    bad = False
    for f, o, n in edits:
        p = "/tmp/wt/" + f
        s = open(p, errors="surrogateescape").read()
        if s.count(o) != 1: print(i, f, "matches", s.count(o), repr(o)); bad = True; break
        open(p, "w", errors="surrogateescape").write(s.replace(o, n))
    if bad: continue
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (x[0] if x else "", x[1] if len(x) > 1 else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.call(["bash", "/verif/tools/mkbug.sh", i])
