#!/usr/bin/env python3
"""Build from /repo's working tree, explore every scenario of one property, write the evidence.

  run.py C01 [--tier quick|thorough]      decide one property
  run.py --replay FILE                    re-execute one recorded counterexample with a trace
  run.py --setup                          compile the engine once (warms nothing the checks rely on)
"""
import sys, os, json, time, subprocess, hashlib, glob, re, concurrent.futures as cf, shutil

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
NCPU = os.cpu_count() or 8

COMMON = ["-std=c++17", "-g1", "-include", "unistd.h", "-w", "-pthread", "-fno-omit-frame-pointer"]
SEEABLE = ["-fno-builtin", "-include", os.path.join(V, "engine", "seen.h")]
VARIANTS = {
    # fibers + own race-detector runtime
    "conc": dict(cc="g++", repo=["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + SEEABLE, harness=["-O1", "-fsanitize=thread", "-DMC_CONC", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + SEEABLE, engine=["-O1", "-DMC_CONC", "-fno-threadsafe-statics", "-fno-builtin"],
                 link=["-rdynamic"]),
    # sequential, with AddressSanitizer
    "seq": dict(cc="g++", repo=["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"], harness=["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"], engine=["-O1"],
                link=["-fsanitize=address", "-rdynamic"]),
}
sys.path.insert(0, V)
from suites import SUITES, PROPS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


# Library functions whose memory accesses the race detector has to see: mcm_* in engine/mc.cpp.
SEEN = "memcpy memmove memset memcmp memchr strlen strnlen strdup strcpy stpcpy strncpy strcat strncat strcmp strncmp strcasecmp strchr strrchr strpbrk vsnprintf snprintf vsprintf sprintf localtime_r gmtime_r".split()
SEENCHK = "memcpy memmove memset stpcpy strncpy strncat strcpy strcat vsnprintf snprintf vsprintf sprintf".split()
REDEF = [a for f in SEEN for a in ("--redefine-sym", "%s=mcm_%s" % (f, f))] + [a for f in SEENCHK for a in ("--redefine-sym", "__%s_chk=mcm_%s_chk" % (f, f))]


def compile_one(cc, src, flags, deps, outdir):
    key = digest(deps + [src], " ".join([cc] + flags + REDEF) + src)
    obj = os.path.join(outdir, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([cc] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    if "-fsanitize=thread" in flags:
        r = sh(["objcopy"] + REDEF + [tmp])
        if r.returncode:
            return None, "objcopy %s failed:\n%s" % (src, r.stdout[-2000:])
    os.replace(tmp, obj)
    return obj, ""


def build(suite):
    s = SUITES[suite]
    var = VARIANTS[s["variant"]]
    outdir = os.path.join(B, s["variant"])
    os.makedirs(outdir, exist_ok=True)
    hdrs = glob.glob(R + "/*.h")
    eng = os.path.join(V, "engine")
    ehdrs = glob.glob(eng + "/*.h")
    hh = glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc")
    stubs = glob.glob(V + "/stubs/*.h") + glob.glob(V + "/stubs/*/*.h")
    inc = ["-I" + R]
    jobs = []
    skip = {"Sockets.cpp", "UnixSignal.cpp"} - set(s.get("with", []))
    for f in sorted(glob.glob(R + "/*.cpp")):
        b = os.path.basename(f)
        if b.endswith("Test.cpp") or b in skip:
            continue
        fl = COMMON + var["repo"] + s.get("repo_flags", []) + inc + ["-I" + V + "/stubs"]
        jobs.append((f, fl, hdrs + stubs))
    for f in s["src"]:
        jobs.append((os.path.join(V, f), COMMON + var["harness"] + s.get("repo_flags", []) + s.get("flags", []) + inc + ["-I" + eng, "-I" + V + "/harness", "-I" + V + "/stubs"], hdrs + ehdrs + hh + stubs))
    jobs.append((eng + "/mc.cpp", COMMON + var["engine"] + ["-I" + eng], ehdrs))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        res = list(ex.map(lambda j: compile_one(var["cc"], j[0], j[1], j[2], outdir), jobs))
    errs = [e for o, e in res if not o]
    if errs:
        return None, "\n".join(errs)
    objs = [o for o, e in res]
    exe = os.path.join(outdir, suite + "." + hashlib.sha256(("".join(objs) + str(s.get("wrap"))).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        # repository code goes into an archive, so only what is used is linked
        repo_objs = [o for (o, e), j in zip(res, jobs) if j[0].startswith(R + "/")]
        other = [o for o in objs if o not in repo_objs]
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        sh(["ar", "rcs", ar] + repo_objs)
        wraps = ["-Wl,--wrap=" + w for w in s.get("wrap", [])]
        r = sh([var["cc"], "-o", tmp] + var["link"] + other + [ar] + wraps + ["-lsqlite3", "-lpthread", "-ldl"])
        if r.returncode:
            return None, "linking %s failed:\n%s" % (suite, r.stdout[-6000:])
        os.replace(tmp, exe)
    return exe, ""


def known_findings():
    """known-findings.txt: 'open: property=<id> key=<key> <what fails>' / 'fixed: property=...'"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                out.append(m.groups())
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=203:detect_odr_violation=0:use_sigaltstack=0"
    e["TZ"] = "UTC"
    e.pop("LD_PRELOAD", None)
    return e


def main():
    a = sys.argv[1:]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == "--setup":
        bad = 0
        for s in SUITES:
            exe, err = build(s)
            if not exe:
                print(s, err); bad = 1
        return bad
    if a and a[0] == "--replay":
        txt = open(a[1]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        scen = re.search(r"^scenario (\S+)", txt, re.M).group(1)
        for s in PROPS[prop]["suites"]:
            exe, err = build(s)
            if not exe:
                print(err); return 2
            names = [l.split()[1] for l in sh([exe, "--list", "--tier", "thorough", "--prop", prop], env=env()).stdout.splitlines() if l]
            if scen in names:
                return subprocess.call([exe, "--replay", a[1], "--tier", tier], env=env())
        return 2
    prop = a[0]
    P = PROPS[prop]
    work = os.path.join(B, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = [k for k in known_findings() if k[0] == prop]
    karg = ",".join(k[1] for k in kf)
    tasks, builds, dead = [], {}, []
    only = a[a.index("--only") + 1] if "--only" in a else None
    for s in P["suites"]:
        exe, err = build(s)
        if not exe:
            # The tree does not build under the checking configuration: nothing can be said.
            print(err)
            print("ERROR property=%s cannot build suite %s" % (prop, s))
            return 2
        r = sh([exe, "--list", "--tier", tier, "--prop", prop], env=env())
        if r.returncode < 0 or r.returncode == 66:    # killed, or stopped by the address sanitizer, before main could list anything
            rp = os.path.join(rdir, "%s-%s-start.replay" % (prop, s))
            with open(rp, "w") as f:
                f.write("property %s\nscenario -\n# suite %s: the program dies while it starts (status %d), before any scenario\n%s" % (prop, s, r.returncode, r.stdout[-3000:]))
            dead.append((s, r.returncode, rp))
        for l in r.stdout.splitlines():
            f = l.split()
            if len(f) == 3 and f[0] == prop and (not only or re.search(only, f[1])):
                tasks.append((s, exe, f[1], int(f[2])))
    if dead:
        for s, rc, rp in dead:
            print("---- %s: the program dies while it starts (status %d)" % (s, rc))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, V)))
        shutil.rmtree(work, ignore_errors=True)
        return 1
    if not tasks:
        print("ERROR no scenario for", prop); return 2
    build_s = time.time() - t0
    cap_default = 40 if tier == "quick" else 1200

    def go(t):
        s, exe, name, cap = t
        out = os.path.join(work, s + "-" + name + ".json")
        c = cap if (cap and tier == "quick") else cap_default
        wd = os.path.join(work, "cwd-" + s + "-" + name)
        os.makedirs(wd, exist_ok=True)
        cmd = [exe, "--run", name, "--prop", prop, "--tier", tier, "--out", out, "--replay-dir", rdir, "--cap", str(c), "--known", karg]
        log = os.path.join(work, s + "-" + name + ".log")
        with open(log, "w") as lf:
            rc = subprocess.call(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env(), cwd=wd)
        shutil.rmtree(wd, ignore_errors=True)
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                d = None
        return t, rc, d, log

    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(go, tasks))
    # Anything that was reported is run once more on its own before it counts.
    viol, errors = [], []
    for t, rc, d, log in results:
        if rc == 1 and d:
            rp = d["replay"]
            rr = sh([t[1], "--replay", rp, "--tier", tier], env=env(), cwd=work)
            if rr.returncode != 1:
                t2, rc2, d2, log2 = go(t)
                if rc2 == 1 and d2:
                    viol.append((t, d2, open(log2, errors="replace").read()[-3000:]))
                else:
                    errors.append((t, "violation did not reproduce: " + d["message"]))
            else:
                viol.append((t, d, rr.stdout[-3000:]))
                with open(rp + ".trace", "w") as f:
                    f.write(rr.stdout)
        elif rc != 0 or not d:
            errors.append((t, "scenario ended with %s: %s" % (rc, open(log, errors="replace").read()[-2000:])))
    docs = [d for t, rc, d, log in results if d]
    ev = evidence(prop, P, tier, seed, docs, t0, build_s, viol)
    if R == "/repo":      # a run against another tree (tools/) leaves the evidence of /repo alone
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    hit = set(k for d in docs for k in d.get("known", []))
    for p, key, what in kf:
        if key in hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (p, what, key))
    for n, (t, d, tr) in enumerate(viol):
        print("---- %s / %s: %s" % (t[0], t[2], d["message"]))
        if n == 0:
            print(tr[-2500:])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(d["replay"], V)))
    for t, m in errors:
        print("ERROR %s/%s: %s" % (t[0], t[2], m))
    if "--keep" not in a:
        shutil.rmtree(work, ignore_errors=True)
    tot = ev["coverage"]
    if "-v" in a:
        for d in docs:
            print("  %-28s rc=%d exec=%d states=%d steps=%d cases=%d outcomes=%d bound=%s/%s %s%s %.1fs" % (d["scenario"], d["rc"], d["executions"], d["states"], d["steps"], d["cases"], d["outcomes"], d["bound_done"], d["bound_target"],
                  "complete" if d["complete"] else "CAPPED", " ALL" if d["all_behaviours"] else "", d["wall"]))
    print("%s %s: %d scenarios, %s executions, %s, build %.1fs, total %.1fs" % (prop, tier, len(tasks), tot.get("executions"), "held" if not viol and not errors else "FAILED", build_s, time.time() - t0))
    if viol:
        return 1
    return 2 if errors else 0


def evidence(prop, P, tier, seed, docs, t0, build_s, viol):
    ex = sum(d["executions"] for d in docs)
    st = sum(d["states"] for d in docs)
    steps = sum(d["steps"] for d in docs)
    cs = sum(d["cases"] for d in docs)
    samples = []
    for d in docs[:12]:
        samples.append({"scenario": d["scenario"], "drives": d["what"], "last_choice_sequence": d["last_schedule"], "observed": d["outcome_samples"][:4]})
    per = [{k: d[k] for k in ("scenario", "what", "executions", "completed", "pruned", "skipped", "states", "steps", "cases", "max_depth", "switches", "bound_target", "bound_done", "complete", "all_behaviours", "outcomes", "bounds", "wall")} for d in docs]
    capped = [d["scenario"] for d in docs if not d["complete"]]
    cov = {
        "executions": ex, "samples": samples, "scenarios": per,
        "capped_scenarios": capped, "exhaustive": not capped and not viol,
        "distinct_outcomes": sum(d["outcomes"] for d in docs),
        "build_s": round(build_s, 1),
    }
    lv = P["level"]
    if lv == "model_checking":
        cov["states"] = st + cs if st + cs else ex
        cov["transitions"] = steps + cs if steps + cs else ex
        cov["traces_validated_against_impl"] = ex + cs
        cov["explanation"] = ("states: distinct explored states (happens-before signature of the execution, or explicit state of the harness) plus inputs enumerated inside one execution; "
                              "transitions: scheduling steps taken plus enumerated inputs; every explored trace is an execution of the real code compiled from the working tree, so each is validated against the implementation by construction")
    else:
        cov["evaluations"] = ex + cs
        cov["distinct_nontrivial"] = sum(d["outcomes"] for d in docs) if cs == 0 and st == 0 else (cs + st)
        cov["rule"] = P.get("rule", "every choice sequence / input of the stated bounded space is executed once on the real code; counted distinct by explicit state or by enumeration index, non-trivial because each is compared with the reference")
    return {"property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}


if __name__ == "__main__":
    import tempfile
    scratch = tempfile.mkdtemp(prefix="vs", dir="/tmp")     # the drivers' own files, removed here
    os.environ["VP_SCRATCH"] = scratch
    try:
        rc = main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
