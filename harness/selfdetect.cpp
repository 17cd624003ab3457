// Drivers for the single-instance guard: C41.  Real processes, every interleaving of their file system calls.
#include "common.h"
#include "quiet.inc"
#include "SelfDetect.h"
#include "UnixSignal.h"
#include "Exit.h"
#include "procs.h"
using namespace mc; using namespace procs;
ConfigurationTable gConfig;
extern "C" int WriteCoreDump(const char *) { return 0; }
extern "C" int __wrap_system(const char *) { return 0; }
enum { M_UP = 1, M_DOWN = 2 };
static std::set<int> *gTold;	// processes that were told to end by a signal
static void setup()
{
	initProcs({ "/var/run/", "/run/" }); if (!gTold) gTold = new std::set<int>; gTold->clear(); static bool once; if (!once) { once = true; for (auto &k : { "Core.File", "Core.TarFile" }) gConfig.set(k, "x"); gConfig.set("Core.Pid", "0"); gConfig.set("Core.SaveFiles", "0"); gConfig.getStr("Core.File"); }
}
static std::function<void()> program(const char *name, std::vector<S> reg = {}, std::vector<S> make = {}, bool stay = false)
{
	S n = name; return [n, reg, make, stay]() { gSelf.RegisterProgram(n.c_str()); mark(M_UP); for (auto &f : reg) gSelf.RegisterFile(f.c_str()); for (auto &f : make) { int d = ::open(f.c_str(), O_CREAT | O_WRONLY, 0600); if (d >= 0) { char b[20]; int k = snprintf(b, sizeof b, "%d\n", (int)getpid()); if (::write(d, b, k)) {} ::close(d); } } if (stay) for (;;) mark(3); mark(M_DOWN); exit(0); };
}
static bool up(int i) { Proc &p = *gProcs[i]; return p.st != DEAD && !(gTold && gTold->count(i)) && (p.marks >> M_UP & 1) && !(p.marks >> M_DOWN & 1); }
static S own(int i) { return std::to_string((int)gProcs[i]->pid) + "\n"; }
// What must hold in every state: at most one instance runs, and its file is there with its number.
static void invariant(const char *file = "prog.pid")
{
	int n = 0, who = -1; for (size_t i = 0; i < gProcs.size(); i++) if (up(i)) { n++; who = i; } MC_CHECK(n <= 1, "%d instances run at the same time", n);
	if (n == 1) MC_CHECK(readFile(file) == own(who), "process %d runs, but its file contains '%s'", who, show(norm(readFile(file))).c_str());
	if (!gForeign->empty()) fail("something else is changed: %s", show(norm(gForeign->front())).c_str());
}
// Runs all started processes in every order; extra(i) lists what else may happen.
struct Extra { int target, sig; bool used; bool any = false; };
static void explore(std::vector<Extra> ex, std::function<void()> check)
{
	unsigned steps = 0;
	for (;;) {
		check(); std::vector<std::pair<int, int>> c; for (size_t i = 0; i < gProcs.size(); i++) if (gProcs[i]->st == READY) c.push_back({ 0, i }); if (c.empty()) break;
		for (size_t k = 0; k < ex.size(); k++) if (!ex[k].used && ex[k].any && gProcs[ex[k].target]->st == READY) c.push_back({ 1, k }); else if (!ex[k].used && up(ex[k].target) || !ex[k].used && (gProcs[ex[k].target]->st == READY && (gProcs[ex[k].target]->marks >> M_UP & 1))) c.push_back({ 1, k });
		H h = snapshot(); for (auto &e : ex) h = mix(h, e.used); mc::state(h, 1); unsigned w = choose(c.size(), "next");
		if (c[w].first == 0) run(*gProcs[c[w].second]); else { Extra &e = ex[c[w].second]; e.used = true; gTold->insert(e.target); note("signal %d to process %d", e.sig, e.target); signalTo(*gProcs[e.target], e.sig); }
		MC_CHECK(++steps < 2000, "the processes do not end");
	}
}
static void outcomes() { S s; for (auto p : gProcs) s += std::to_string(exitStatus(*p)) + " "; outcome(s); }
static void starters(int n)
{
	setup(); for (int i = 0; i < n; i++) start(program(i % 2 ? "prog" : "/usr/local/bin/prog")); explore({}, []() { invariant(); });
	int ran = 0; for (auto p : gProcs) { int s = exitStatus(*p); bool was = p->marks >> M_UP & 1; ran += was; MC_CHECK(was ? s == 0 : s == Exit::DETECTFILE, "a process that was %s ends with %d", was ? "registered" : "refused", s); } MC_CHECK(ran >= 1, "no instance could start"); MC_CHECK(files().empty(), "after the end %s is left", files().begin()->c_str()); outcomes();
}
MC_SCENARIO(C41, two_starts, SEQ, "two processes registering the same program and ending, in every interleaving of their file system calls") { starters(2); }
MC_SCENARIO(C41, three_starts, SEQ, "three processes registering the same program and ending") { starters(3); }
MC_SCENARIO(C41, one_runs, SEQ, "two processes starting while an instance runs for ever")
{
	setup(); int a = start(program("prog", {}, {}, true)); while (!up(a)) { MC_CHECK(gProcs[a]->st == READY, "the first instance does not start"); run(*gProcs[a]); } start(program("prog")); start(program("./prog"));
	for (;;) { invariant(); std::vector<int> c; for (int i = 1; i < 3; i++) if (gProcs[i]->st == READY) c.push_back(i); if (c.empty()) break; mc::state(snapshot(), 1); run(*gProcs[c[choose(c.size(), "next")]]); }
	for (int i = 1; i < 3; i++) MC_CHECK(exitStatus(*gProcs[i]) == Exit::DETECTFILE, "a second instance ends with %d", exitStatus(*gProcs[i])); signalTo(*gProcs[a], SIGTERM); while (gProcs[a]->st == READY) run(*gProcs[a]); MC_CHECK(exitStatus(*gProcs[a]) == -SIGTERM && files().empty(), "the running instance ends with %d", exitStatus(*gProcs[a])); outcomes();
}
MC_SCENARIO(C41, handover, SEQ, "an instance ending by exit or signals while another one starts, both using the same files")
{
	setup(); S f1 = gRoot + "/sock1", f2 = gRoot + "/sock2"; int how = choose(4, "ending"); bool stay = how & 1; start(program("prog", { f1, f2 }, { f1, f2 }, stay)); start(program("prog", { f1, f2 }, { f1, f2 })); std::vector<Extra> ex; if (stay) ex.push_back({ 0, SIGTERM, false }); if (how == 2) ex.push_back({ 0, SIGINT, false }); if (how == 3) ex.push_back({ 0, SIGHUP, false });
	// the first instance is up before the story begins
	while (!up(0)) { MC_CHECK(gProcs[0]->st == READY, "the first instance does not start"); run(*gProcs[0]); }
	if (stay) { signalTo(*gProcs[0], SIGTERM); ex[0].used = true; gTold->insert(0); }	// it is told to end for certain
	std::set<S> made; explore(ex, [&]() {
		MC_CHECK(!(up(0) && up(1)), "two instances run at the same time"); if (up(1)) MC_CHECK(readFile("prog.pid") == own(1), "the new instance runs, but its file contains '%s'", show(norm(readFile("prog.pid"))).c_str()); if (!gForeign->empty()) fail("something else is changed: %s", show(norm(gForeign->front())).c_str());
		if (up(1)) for (auto f : { "sock1", "sock2" }) { S t = readFile(f); if (t == own(1)) made.insert(f); else if (made.count(f)) fail("a file of the running instance disappears: %s", f); }
	});
	for (auto p : gProcs) { int s = exitStatus(*p); MC_CHECK((p->marks >> M_UP & 1) ? s == 0 || s == -SIGTERM || s == -SIGINT || s == -SIGHUP : s == Exit::DETECTFILE, "a process ends with %d", s); } MC_CHECK(files().empty(), "after the end %s is left", files().begin()->c_str()); outcomes();
}
static void finish(int i) { while (gProcs[i]->st == READY) run(*gProcs[i]); }
static void untilUp(int i) { while (gProcs[i]->st == READY && !up(i)) run(*gProcs[i]); }
MC_SCENARIO(C41, killed, SEQ, "an instance killed outright at every point while another starts")
{
	setup(); start(program("prog")); start(program("prog")); std::vector<Extra> ex(1); ex[0].target = 0; ex[0].sig = SIGKILL; ex[0].used = false; ex[0].any = true; explore(ex, []() { invariant(); });
	bool left = !files().empty(); if (left) { MC_CHECK(ex.size() == 1 && exitStatus(*gProcs[0]) == -SIGKILL, "after the end %s is left", files().begin()->c_str()); S t = readFile("prog.pid"); int c = start(program("prog")); finish(c); MC_CHECK(exitStatus(*gProcs[c]) == Exit::DETECTFILE && !(gProcs[c]->marks >> M_UP & 1), "with a file left by a killed process a start ends with %d", exitStatus(*gProcs[c])); MC_CHECK(readFile("prog.pid") == t, "a refused start changes the file"); unlink((gRoot + "/prog.pid").c_str()); }
	int d = start(program("prog")); untilUp(d); MC_CHECK(up(d), "no instance can start afterwards"); invariant(); finish(d); MC_CHECK(files().empty(), "a file is left"); outcomes();
}
MC_SCENARIO(C41, signals, SEQ, "every signal sent to a registered instance at every point")
{
	setup(); int sig = 1 + choose(64, "signal"), at = choose(6, "at"); if (sig == 32 || sig == 33) skip(); bool stop = sig == SIGSTOP || sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU, ign = sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH; S f = gRoot + "/mine"; writeFile("other", "o");
	int a = start(program("prog", { f }, { f }, true)); untilUp(a); for (int i = 0; i < at; i++) run(*gProcs[a]); Proc &p = *gProcs[a]; MC_CHECK(p.st == READY, "the instance ends by itself"); signalTo(p, sig); for (int i = 0; i < 40 && p.st == READY; i++) { run(p); if (ign) invariant(); }
	if (sig == SIGKILL) { MC_CHECK(readFile("prog.pid") == own(a), "the file is gone"); outcome("killed"); return; }
	if (ign || stop) {
		MC_CHECK(p.st != DEAD, "signal %d ends the instance", sig); MC_CHECK(stop ? p.st == STOPPED : p.st == READY, "signal %d does not %s the instance", sig, stop ? "stop" : "spare"); MC_CHECK(readFile("prog.pid") == own(a) && (at < 3 || readFile("mine") == own(a)), "after signal %d the instance goes on without its file", sig); int b = start(program("prog")); finish(b); MC_CHECK(exitStatus(*gProcs[b]) == Exit::DETECTFILE, "after signal %d a second instance can start", sig);
		if (p.st == STOPPED) signalTo(p, SIGCONT); for (int i = 0; i < 4 && p.st == READY; i++) run(p); MC_CHECK(p.st == READY, "the instance does not go on"); signalTo(p, SIGTERM); finish(a); MC_CHECK(exitStatus(p) == -SIGTERM, "the instance ends with %d", exitStatus(p));
	} else MC_CHECK(p.st == DEAD && exitStatus(p) == -sig, "after signal %d the instance %s %d", sig, p.st == DEAD ? "ends with" : "is in state", p.st == DEAD ? exitStatus(p) : p.st);
	std::set<S> left = files(); left.erase("other"); if (at < 3 && left.size() == 1 && *left.begin() == "mine" && false) left.clear(); MC_CHECK(left.empty(), "after signal %d %s is left", sig, left.begin()->c_str()); MC_CHECK(readFile("other") == "o", "a file of somebody else is removed"); if (!gForeign->empty()) fail("something else is changed: %s", show(norm(gForeign->front())).c_str()); outcome(ign ? "goes on" : stop ? "stopped" : "ended");
}
MC_SCENARIO(C41, files, SEQ, "every list of registered files, existing or not, with every way to end")
{
	setup(); static const char *const N[] = { "a", "ab", "a b;c$(d)", "missing" }; int n = choose(thorough() ? 85 : 21, "list"), end = choose(5, "ending"); std::vector<S> reg; std::set<S> gone; while (n) { S x = N[(n - 1) % 4]; reg.push_back(gRoot + "/" + x); gone.insert(x); n = (n - 1) / 4; } for (auto f : { "a", "ab", "a b;c$(d)", "abc", "A", "prog", "prog.pid2", "rog.pid", "prog.pi" }) writeFile(f, "x"); std::set<S> before = files();
	int a = start([&]() { if (end != 4) gSelf.RegisterProgram("prog"); for (auto &f : reg) gSelf.RegisterFile(f.c_str()); mark(M_UP); switch (end) { case 0: exit(7); case 1: kill(getpid(), SIGTERM); break; case 2: kill(getpid(), SIGABRT); break; case 3: case 4: gSelf.Exit(0); mark(M_DOWN); exit(0); } for (;;) mark(3); });
	finish(a); static const int ST[] = { 7, -SIGTERM, -SIGABRT, 0, 0 }; MC_CHECK(exitStatus(*gProcs[a]) == ST[end], "the process ends with %d", exitStatus(*gProcs[a])); std::set<S> after = files(), exp; for (auto &f : before) if (!gone.count(f)) exp.insert(f); for (auto &f : after) MC_CHECK(exp.count(f), "%s is left", f.c_str()); for (auto &f : exp) MC_CHECK(after.count(f), "%s is removed although it was not registered", f.c_str()); if (!gForeign->empty()) fail("something else is changed: %s", show(gForeign->front()).c_str()); outcome(std::to_string(gone.size()));
}
static std::vector<S> argv0s() { std::vector<S> v = { "prog", "./prog", "/prog", "a/b/prog", "/usr/sbin/prog", "../prog", "//prog", "p", "p%sq%n", "a b", "x.y", "prog.pid", "-p", "a'b\"c", "\xc3\xa9" }; for (int L : { 50, 80, 84, 85, 86, 87, 90, 91, 99, 100, 150, 200, 250, 251 }) v.push_back(S(L, 'q')); v.push_back(S(300, 'd') + "/" + S(100, 'e')); return v; }
MC_SCENARIO(C41, names, SEQ, "program names with and without directories and of every length, two different ones at a time")
{
	setup(); std::vector<S> v = argv0s(); int i = choose(v.size(), "name"), k = choose(3, "second"); S n = v[i], base = n.substr(n.rfind('/') == S::npos ? 0 : n.rfind('/') + 1), file = base + ".pid"; int a = start(program(n.c_str(), {}, {}, true)); untilUp(a); MC_CHECK(up(a), "'%s' cannot register", show(n).c_str()); std::set<S> f = files(); MC_CHECK(f.size() == 1 && *f.begin() == file && readFile(file) == own(a), "'%s' is registered as '%s'", show(n).c_str(), f.empty() ? "" : show(*f.begin()).c_str()); if (!gForeign->empty()) fail("something else is changed: %s", show(gForeign->front()).c_str());
	S m = k == 0 ? "/opt/" + base : k == 1 ? base + "x" : "x" + base; if (m.size() > 256 && k) { outcome("long"); return; } int b = start(program(m.c_str(), {}, {}, true)); untilUp(b); if (k == 0) MC_CHECK(!up(b) && exitStatus(*gProcs[b]) == Exit::DETECTFILE, "a second instance of '%s' starts", show(n).c_str()); else if (base.size() < 251) MC_CHECK(up(b), "'%s' cannot run together with '%s'", show(m).c_str(), show(n).c_str()); outcome(up(b) ? "both" : "one");
}
MC_SCENARIO(C41, too_long, SEQ, "a program name that is no file name")
{
	setup(); int L = 252 + choose(60, "length"); int a = start(program(S(L, 'z').c_str())); finish(a); MC_CHECK(!(gProcs[a]->marks >> M_UP & 1) && exitStatus(*gProcs[a]) == Exit::CREATEFILE, "an unusable name of %d characters: ends with %d", L, exitStatus(*gProcs[a])); MC_CHECK(files().empty(), "a file is left"); outcome("refused");
}
MC_SCENARIO(C41, failures, SEQ, "each file system call of a start or an end failing, followed by another start")
{
	setup(); static const int ER[] = { EACCES, ENOSPC, EMFILE, EIO, EROFS, ENOENT }; S f1 = gRoot + "/f1", f2 = gRoot + "/f2"; int a = start(program("prog", { f1, f2 }, {})); writeFile("f1", "1"); writeFile("f2", "2"); Proc &p = *gProcs[a]; p.failAt = choose(16, "call"); p.failErr = ER[choose(6, "error")]; bool unl = false; S at;
	while (p.st == READY) { bool un = p.nr == SYS_unlink || p.nr == SYS_unlinkat; at = p.path; bool before = p.failed; run(p); if (p.failed && !before) { unl = un; if (un) note("removing %s fails", at.c_str()); } if (up(a)) MC_CHECK(readFile("prog.pid") == own(a), "an instance runs although its file contains '%s'", show(norm(readFile("prog.pid"))).c_str()); }
	bool was = p.marks >> M_UP & 1; int s = exitStatus(p); MC_CHECK(was ? s == 0 : s == Exit::CREATEFILE || s == Exit::DETECTFILE, "the process %s and ends with %d", was ? "registers" : "does not register", s); std::set<S> f = files(); if (!p.failed) { MC_CHECK(f.empty(), "%s is left", f.begin()->c_str()); outcome("none"); return; }
	if (was) { MC_CHECK(f.size() == (unl ? 1 : 0), "%zu files are left", f.size()); } else MC_CHECK(f.count("f1") && f.count("f2"), "a refused start removes files"); bool left = f.count("prog.pid"); if (left) MC_CHECK(unl, "a failed start leaves its file, which keeps others from starting");
	if (!left) { int b = start(program("prog")); finish(b); MC_CHECK(gProcs[b]->marks >> M_UP & 1, "the next start is refused"); } outcome(was ? "ran" : "refused");
}
