#!/usr/bin/env python3
"""linecov.py [props]: which lines of /repo no scenario ever executes.  Builds everything once more with
-fsanitize-coverage=trace-pc into /tmp/cov, runs the quick tier with a short cap, and lists the lines never reached."""
import sys, os, re, subprocess, mmap, collections, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V]
import run
C = "/tmp/cov"; run.B = C + "/build"; os.makedirs(run.B, exist_ok=True)
for v in run.VARIANTS.values():
    for k in ("repo", "harness"): v[k] = v[k] + ["-fsanitize-coverage=trace-pc", "-g"]
src = C + "/cov.c"
open(src, "w").write(r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
extern char __executable_start, etext; static volatile unsigned char *map;
__attribute__((constructor(101))) static void start(void) { const char *f = getenv("VP_COVFILE"); if (!f) return; int fd = open(f, O_RDWR | O_CREAT, 0666); size_t n = 64 << 20; if (ftruncate(fd, n)) return; void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) map = p; close(fd); }
void __sanitizer_cov_trace_pc(void) { if (map) { size_t o = (char *)__builtin_return_address(0) - &__executable_start; if (o < (64u << 20)) map[o] = 1; } }
''')
subprocess.check_call(["gcc", "-O1", "-c", src, "-o", C + "/cov.o"])
for v in run.VARIANTS.values(): v["link"] = v["link"] + [C + "/cov.o"]
only = sys.argv[1:]
hit = collections.defaultdict(bool); allf = {}
tasks = []
for s in run.SUITES:
    props = [p for p in run.PROPS if s in run.PROPS[p]["suites"] and (not only or p in only)]
    if not props: continue
    exe, err = run.build(s)
    if not exe: print(err); continue
    for p in props:
        for l in run.sh([exe, "--list", "--tier", "quick", "--prop", p], env=run.env()).stdout.splitlines():
            f = l.split()
            if len(f) == 3 and f[0] == p: tasks.append((s, exe, p, f[1]))
def go(t):
    s, exe, p, n = t; wd = "%s/cwd/%s-%s-%s" % (C, s, p, n); os.makedirs(wd, exist_ok=True)
    e = run.env(); e["VP_COVFILE"] = "%s/%s.map" % (C, s)
    subprocess.call([exe, "--run", n, "--prop", p, "--tier", "quick", "--out", wd + "/o.json", "--replay-dir", wd, "--cap", "25"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, cwd=wd)
with cf.ThreadPoolExecutor(8) as ex: list(ex.map(go, tasks))
for s, exe in sorted(set(t[:2] for t in tasks)):
    m = open("%s/%s.map" % (C, s), "rb").read()
    pcs = [int(x, 16) for x in re.findall(r"^\s*([0-9a-f]+):[^\n]*call[^\n]*<__sanitizer_cov_trace_pc>", run.sh(["objdump", "-d", "--no-show-raw-insn", exe]).stdout, re.M)]
    r = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % (p + 5) for p in pcs), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    for p, l in zip(pcs, r):
        l = re.sub(r" \(disc.*", "", l)
        if not l.startswith(run.R + "/"): continue
        f, n = l.split(":"); 
        if not n.isdigit(): continue
        hit[(f, int(n))] |= bool(m[p + 5])
byf = collections.defaultdict(list)
for (f, n), h in hit.items():
    if not h: byf[f].append(n)
print("%d blocks lines, %d never reached" % (len(hit), sum(len(v) for v in byf.values())))
for f in sorted(byf):
    src = open(f, errors="replace").read().splitlines(); print(os.path.basename(f))
    for n in sorted(byf[f]): print("  %d: %s" % (n, src[n - 1].strip()[:150]))
