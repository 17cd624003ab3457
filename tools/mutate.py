#!/usr/bin/env python3
"""Finds gaps: small syntactic changes of the sources, each run against the checks anchored in the file.
  mutate.py OUT.jsonl WORKERS COUNT SEED [FILE...]     survivors are for a person to judge"""
import sys, os, re, json, random, subprocess, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, nw, count, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
by = {}
for p in P:
    for f in p["anchors"]["files"]:
        by.setdefault(f, []).append(p["id"])
SW = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("++", "--"), ("--", "++")]
def blank(s):     # comments and strings become spaces
    def r(m): return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\\n])*"|\'(\\.|[^\'\\\n])*\'', r, s, flags=re.S)
def mutants(f):
    s = open("/repo/" + f).read(); b = blank(s); o = []
    def add(i, j, new, kind): o.append((f, i, j, new, kind))
    for old, new in SW:
        for m in re.finditer(re.escape(old), b): 
            ln = b[b.rfind("\n", 0, m.start()) + 1:b.find("\n", m.start())]
            if ln.lstrip().startswith("#") or "operator" in ln and old in ("==","!=","<=",">=","++","--","+=","-="): continue
            if old in ("<=", ">=") and (b[m.start()-1] in "<>" or b[m.end()] == "="): continue
            add(m.start(), m.end(), new, old + "->" + new)
    for m in re.finditer(r"(?<=[\w)\] ])([<>])(?=[\w( ])", b):
        ln = b[b.rfind("\n", 0, m.start()) + 1:b.find("\n", m.start())]
        if re.search(r"template|#|class|vector|list|map|operator|<<|>>", ln): continue
        add(m.start(), m.end(), m.group(1) + "=", m.group(1) + "->" + m.group(1) + "=")
    for m in re.finditer(r"(?<=[\w)\] ])([+\-])(?=[\w( ])(?!\s*[+\-=>])", b):
        if b[m.start()-1] in "+-" : continue
        add(m.start(), m.end(), {"+": "-", "-": "+"}[m.group(1)], "arith")
    for m in re.finditer(r"\bif\s*\(", b):
        add(m.end() - 1, m.end(), "(!", "negate"); 
        d = 0
        for k in range(m.end() - 1, len(b)):
            d += b[k] == "("; d -= b[k] == ")"
            if d == 0: break
        o[-1] = (f, m.end(), k, "!(" + s[m.end():k] + ")", "negate")
        add(m.end(), k, "false", "never"); add(m.end(), k, "true", "always")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", b):
        ln = b[b.rfind("\n", 0, m.start()) + 1:b.find("\n", m.start())]
        if ln.lstrip().startswith("#"): continue
        add(m.start(), m.end(), str(int(m.group(1)) + 1), "const+1")
    for m in re.finditer(r"\b(true|false)\b", b): add(m.start(), m.end(), {"true": "false", "false": "true"}[m.group(1)], "bool")
    pos = 0
    for line in s.split("\n"):
        bl = b[pos:pos + len(line)].strip()
        if re.match(r"^[\w.\->\[\]:*()&\s,+=<>!|]*;$", bl) and not re.match(r"^(return|break|continue|\w[\w:<>*& ]*\s+[\w\[\]]+\s*(=.*)?;$|typedef|using|friend|extern|public|virtual|static|const|mutable|unsigned|int |void )", bl) and ("(" in bl or "=" in bl or "++" in bl or "--" in bl):
            i = pos + (len(line) - len(line.lstrip())); add(i, pos + len(line), ";", "delete")
        pos += len(line) + 1
    return o
allm = []
for f in files or sorted(by): allm += mutants(f)
random.seed(seed); random.shuffle(allm); sel = allm[:count]
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d["file"], d["pos"], d["new"]))
print(len(allm), "mutants in all,", len(sel), "chosen", len(done), "done"); 
q = queue.Queue(); lock = threading.Lock()
for m in sel:
    if (m[0], m[1], m[3]) not in done: q.put(m)
def prio(f):
    w = {}
    for p in by[f]:
        try: w[p] = json.load(open(V + "/evidence/%s.json" % p))["wall_s"]
        except Exception: w[p] = 99
    return sorted(by[f], key=lambda p: w[p])
def worker(n):
    root = "/tmp/mut/%s-%d" % (os.path.basename(out).split(".")[0], n)
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    subprocess.check_call("git -C /repo archive --prefix=r/ HEAD | tar x -C %s; git -C %s archive --prefix=v/ HEAD | tar x -C %s" % (root, V, root), shell=True)
    env = dict(os.environ, VP_REPO=root + "/r", VERIF_TIER="quick"); k = 0
    while True:
        try: f, i, j, new, kind = q.get_nowait()
        except queue.Empty: break
        s = open("/repo/" + f).read(); line = s.count("\n", 0, i) + 1
        orig = open(root + "/r/" + f).read()
        open(root + "/r/" + f, "w").write(s[:i] + new + s[j:])
        res = []; verdict = "SURVIVED"
        try:
            if f.endswith(".cpp"):
                c = subprocess.run(["g++", "-std=c++17", "-w", "-include", "unistd.h", "-fsyntax-only", "-I" + root + "/r", "-I" + V + "/stubs", root + "/r/" + f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if c.returncode: verdict = "nocompile"
            if verdict == "SURVIVED":
                for p in prio(f):
                    try: r = subprocess.run([sys.executable, "run.py", p], cwd=root + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, errors="replace")
                    except subprocess.TimeoutExpired: res.append((p, "timeout")); continue
                    res.append((p, r.returncode))
                    if r.returncode == 2 and "cannot build" in r.stdout: verdict = "nocompile"; break
                    if r.returncode == 1: verdict = "killed"; res[-1] = (p, (re.findall(r"^---- (.*)", r.stdout, re.M) or ["?"])[0][:150]); break
                    if r.returncode == 2: res[-1] = (p, "ERR " + (re.findall(r"^ERROR (.*)", r.stdout, re.M) or ["?"])[0][:200])
        finally:
            open(root + "/r/" + f, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(dict(file=f, line=line, pos=i, kind=kind, old=s[i:j], new=new, text=s.split("\n")[line - 1].strip(), verdict=verdict, res=res)) + "\n")
        k += 1
        if k % 8 == 0: subprocess.call("find %s/v/build -type f -mmin +4 \\( -name '*.a' -o -size +1000k \\) -delete" % root, shell=True)
    shutil.rmtree(root, ignore_errors=True)
T = [threading.Thread(target=worker, args=(n,)) for n in range(nw)]
[t.start() for t in T]; [t.join() for t in T]
