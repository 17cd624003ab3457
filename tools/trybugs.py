#!/usr/bin/env python3
"""trybugs.py SPEC.py [ids]: SPEC defines T = [(id, prop, [(file, old, new)...])]; applies each to a copy of /repo and runs only the check (no demo, no tests)."""
import sys, subprocess, os, re, shutil, json
sp = {}; exec(open(sys.argv[1]).read(), sp); only = sys.argv[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/tb-%d" % os.getpid()
subprocess.check_call("mkdir -p %s/r && git -C /repo archive HEAD | tar x -C %s/r" % (R, R), shell=True)
try:
    for (i, prop, edits) in sp["T"]:
        if only and i not in only and prop not in only: continue
        orig = {}; bad = None
        for f, o, n in edits:
            p = R + "/r/" + f; s = open(p, errors="surrogateescape").read(); orig.setdefault(p, s)
            if s.count(o) != 1: bad = "%s matches %d %r" % (f, s.count(o), o[:60]); break
            open(p, "w", errors="surrogateescape").write(s.replace(o, n))
        if bad: print("%-8s %-4s SPEC %s" % (i, prop, bad))
        else:
            r = subprocess.run([sys.executable, "run.py", prop], cwd=V, env=dict(os.environ, VP_REPO=R + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            m = re.findall(r"^(?:----|ERROR) .*", r.stdout, re.M)
            print("%-8s %-4s %s %s" % (i, prop, {0: "MISSED", 1: "caught", 2: "NOANSWER"}.get(r.returncode, r.returncode), (m or [""])[0][:170]))
            if r.returncode == 2: print(r.stdout[-1500:])
        sys.stdout.flush()
        for p, s in orig.items(): open(p, "w", errors="surrogateescape").write(s)
finally: shutil.rmtree(R)
