// Drivers for signal handling: C42.  Every case runs in a process of its own and the signals are real.
// The core dumper and system() are stand-ins that record what they are asked to do.
#include "common.h"
#include "sizes.h"
#include "quiet.inc"
#include "UnixSignal.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <new>
using namespace mc;
typedef std::string S;
ConfigurationTable gConfig;
// ---- what the child did, in memory shared with the driver ----
struct Ev { int kind, a, b; char text[4200]; };	// kinds: H handler a ran with number b, C core file, T archive, X other
struct Shared { int n; int stage; int many, bad; Ev e[64]; };
static Shared *gSh;
static void ev(int kind, int a, int b, const char *t = "") { int i = gSh->n++; if (i >= 64) return; gSh->e[i].kind = kind; gSh->e[i].a = a; gSh->e[i].b = b; snprintf(gSh->e[i].text, sizeof gSh->e[i].text, "%s", t); }
extern "C" int WriteCoreDump(const char *f) { ev('C', 0, 0, f); return 0; }
static S *gCmd; extern "C" int __wrap_system(const char *c) { ev('T', 0, 0, strlen(c) < 4200 ? c : "long"); return 0; }
static int gNested = -1, gNestedSig;	// the handler that raises another signal while it runs, and that signal
static void run(int h, int s) { ev('H', h, s); if (gNested == h) { int n = gNestedSig; gNested = -1; ev('N', h, n); kill(getpid(), n); } }
static void h0(int s) { run(0, s); } static void h1(int s) { run(1, s); } static void h2(int s) { run(2, s); }
static sighandler_t const HD[] = { h0, h1, h2 };
static const int CORES[] = { SIGQUIT, SIGILL, SIGABRT, SIGFPE, SIGSEGV, SIGBUS, SIGSYS, SIGTRAP, SIGXCPU, SIGXFSZ };
static bool isCore(int s) { for (int c : CORES) if (c == s) return true; return false; }
static bool isStop(int s) { return s == SIGTSTP || s == SIGTTIN || s == SIGTTOU || s == SIGSTOP; }
static bool isIgn(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }
static int gChildPid;
// Runs f in a child; returns its wait status, or -1 if it stopped (and was then ended).
static int child(std::function<void()> f)
{
	if (!gSh) { gSh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } gSh->n = gSh->stage = 0;
	fflush(0); pid_t p = fork();
	if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_DUMPABLE, 0); struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); setpgid(0, 0); sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, 0); for (int i = 1; i < 65; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; syscall(SYS_rt_sigaction, i, &sa, 0, 8); } f(); syscall(SYS_exit_group, 0); }
	gChildPid = p; int st = 0; for (int i = 0; ; i++) {
		int r = waitpid(p, &st, WNOHANG | WUNTRACED); if (r == p) { if (WIFSTOPPED(st)) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; } return st; }
		if (r < 0 && errno != EINTR) fail("waitpid: %s", strerror(errno)); struct timespec t = { 0, 30000 }; if (i > 200) t.tv_nsec = 1000000; syscall(SYS_nanosleep, &t, 0); if (i > 20000) { kill(p, SIGKILL); waitpid(p, &st, 0); fail("the process does not end after a signal"); } }
}
static S evStr() { S s; char b[80]; for (int i = 0; i < std::min(gSh->n, 64); i++) { Ev &e = gSh->e[i]; if (e.kind == 'H') snprintf(b, sizeof b, "handler%d(%d) ", e.a, e.b); else snprintf(b, sizeof b, "%c%d:%.30s ", e.kind, e.b, e.text); s += b; } return s; }
static S statusStr(int st) { return st == -1 ? "stopped" : WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "exited with " + std::to_string(WEXITSTATUS(st)); }
static int defaultStatus(int s) { return isStop(s) ? -1 : isIgn(s) ? 0 : s; }
static void ended(int st, int sig) { int e = defaultStatus(sig); bool ok = e == -1 ? st == -1 : e == 0 ? st == 0 : st != -1 && WIFSIGNALED(st) && WTERMSIG(st) == e; MC_CHECK(ok, "after signal %d the process is %s (did: %s)", sig, statusStr(st).c_str(), evStr().c_str()); }
// What happens when sig arrives for these handlers, appended to exp.
struct Exp { int kind, a, b; };
static void expect(std::vector<Exp> &x, int sig, const std::vector<int> &hs, bool save) { if (isCore(sig)) { x.push_back({ 'C', 0, 0 }); if (save) x.push_back({ 'T', 0, 0 }); } for (int h : hs) x.push_back({ 'H', h, sig }); }
static void compare(const std::vector<Exp> &x, const char *what)
{
	bool ok = (int)x.size() == gSh->n; for (size_t i = 0; ok && i < x.size(); i++) ok = x[i].kind == gSh->e[i].kind && (x[i].kind != 'H' || (x[i].a == gSh->e[i].a && x[i].b == gSh->e[i].b));
	if (ok) return; S s; char b[40]; for (auto &e : x) { snprintf(b, sizeof b, e.kind == 'H' ? "handler%d(%d) " : "%c ", e.kind == 'H' ? e.a : e.kind, e.b); s += b; } fail("%s: done: %s; expected: %s", what, evStr().c_str(), s.c_str());
}
static bool canCatch(int s) { return s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; }
static std::vector<int> lists(int k) { std::vector<int> v; while (k) { v.insert(v.begin(), (k - 1) % 3); k = (k - 1) / 3; } return v; }	// 0..39: all lists of up to three of three handlers
MC_SCENARIO(C42, delivery, SEQ, "every signal with every list of up to three handlers, with each setting of core files")
{
	int sig = 1 + choose(64, "signal"), n = choose(thorough() ? 40 : 13, "handlers"), opt = choose(4, "settings"), how = thorough() ? choose(2, "sent by") : sig % 2; bool pid = opt & 1, save = opt & 2; std::vector<int> hs = lists(n);
	static const char *const CF[] = { "core", "/tmp/x y/c", "", "%s%n" }; S cf = CF[sig % 4]; S tar = "/nowhere/t.tgz";
	std::function<void()> f = [&]() {
		gSigVec.CoreName(cf, pid); gSigVec.TarName(tar, save); for (int h : hs) gSigVec.Register(HD[h], sig); gSh->stage = 1;
		if (how && sig != 32 && sig != 33) raise(sig); else syscall(SYS_kill, getpid(), sig);
	};
	int st = child(f); std::vector<Exp> x; if (!hs.empty() && canCatch(sig)) expect(x, sig, hs, save); char b[60]; snprintf(b, sizeof b, "signal %d with %zu handlers", sig, hs.size()); compare(x, b); ended(st, sig);
	for (int i = 0; i < gSh->n; i++) { Ev &e = gSh->e[i]; if (e.kind == 'C') { S w = cf + (pid ? "." + std::to_string(gChildPid) : ""); MC_CHECK(w == e.text, "the core file is '%s' instead of '%s'", e.text, w.c_str()); } if (e.kind == 'T') { S c = e.text, own = "/tmp/staging." + std::to_string(gChildPid); MC_CHECK(c.find("> " + tar) != S::npos, "the archive is not written to %s", tar.c_str()); for (size_t p = c.find("rm -rf "); p != S::npos; p = c.find("rm -rf ", p + 1)) MC_CHECK(c.compare(p + 7, own.size(), own) == 0 && strchr("/; ", c.c_str()[p + 7 + own.size()]), "the archive command removes something else: %s", c.substr(p, 60).c_str()); } }
	outcome(statusStr(st));
}
template <int> static void hm(int s) { if (s != SIGUSR1) gSh->bad++; gSh->many++; }
MC_SCENARIO(C42, many_handlers, SEQ, "lists of up to 1001 handlers, many of them the same function, all run once per registration")
{
	unsigned n = chooseSize(1001); int st = child([&]() { gSh->many = gSh->bad = 0; for (unsigned i = 0; i < n; i++) gSigVec.Register(i % 3 == 0 ? hm<0> : i % 3 == 1 ? hm<1> : hm<2>, SIGUSR1); for (unsigned s = 1; s < 32; s++) if (s != SIGUSR1 && canCatch(s)) gSigVec.Register(h0, s); raise(SIGUSR1); });
	MC_CHECK(gSh->many == (int)n && !gSh->bad, "of %u handlers %d run, %d with a wrong number", n, gSh->many, gSh->bad); ended(st, SIGUSR1); cases(1); outcome(std::to_string(n));
}
MC_SCENARIO(C42, nested, SEQ, "a second signal, the same or another, arriving while each handler of the first runs")
{
	static const int SG[] = { SIGTERM, SIGINT, SIGSEGV, SIGUSR1, SIGWINCH, SIGTSTP, SIGABRT }; int a = SG[choose(thorough() ? 7 : 6, "first")], b = SG[choose(thorough() ? 7 : 6, "second")], na = 1 + choose(3, "handlers"), nb = choose(3, "handlers of the second"), at = choose(3, "during"); if (at >= na) skip(); if (a == b && nb) skip();
	std::vector<int> ha, hb; for (int i = 0; i < na; i++) ha.push_back(i); for (int i = 0; i < nb; i++) hb.push_back(2 - i); if (nb && 2 - (nb - 1) <= at && hb.back() == at) {}
	int st = child([&]() { gSigVec.CoreName("c", false); gSigVec.TarName("t", false); for (int h : ha) gSigVec.Register(HD[h], a); if (a != b) for (int h : hb) gSigVec.Register(HD[h], b); gNested = at; gNestedSig = b; raise(a); });
	std::vector<Exp> x; if (isCore(a)) x.push_back({ 'C', 0, 0 }); bool dead = false; int last = a;
	for (int h : ha) { x.push_back({ 'H', h, a }); if (h == at) { x.push_back({ 'N', 0, 0 }); if (a != b) { if (nb) expect(x, b, hb, false); if (!isIgn(b)) { dead = true; last = b; break; } } } }
	char t[60]; snprintf(t, sizeof t, "signal %d during a handler of %d", b, a); compare(x, t); ended(st, last); (void)dead; outcome(statusStr(st));
}
MC_SCENARIO(C42, registration, SEQ, "every sequence of registering handlers for several and for impossible signals; every other signal keeps its disposition", o.quickDepth = 2, o.thoroughDepth = 3)
{
	static const int SG[] = { SIGTERM, SIGUSR1, 1, 63, 64, 0, -1, 65, 66, 1000, INT32_MIN }; std::vector<std::pair<int, int>> ops; for (int i = 0; i < depth(); i++) { int k = choose(34, "op"); if (k == 33) ops.push_back({ -1, 0 }); else ops.push_back({ k % 3, SG[k / 3] }); }
	int st = child([&]() {
		signal(SIGPIPE, SIG_IGN); signal(SIGUSR2, h2); struct sigaction before[65], after[65]; for (int i = 1; i < 65; i++) sigaction(i, 0, &before[i]);
		for (auto &o : ops) if (o.first < 0) gSigVec.Dump(); else gSigVec.Register(HD[o.first], o.second);
		for (int i = 1; i < 65; i++) { sigaction(i, 0, &after[i]); bool reg = false; for (auto &o : ops) if (o.first >= 0 && o.second == i) reg = true; bool same = before[i].sa_handler == after[i].sa_handler; if (reg == same && canCatch(i)) ev('X', i, reg); }
		gSh->stage = 2; raise(SIGUSR1);
	});
	std::vector<Exp> x; std::vector<int> hs; for (auto &o : ops) if (o.first >= 0 && o.second == SIGUSR1) hs.push_back(o.first); for (int i = 0; i < gSh->n; i++) MC_CHECK(gSh->e[i].kind != 'X', gSh->e[i].b ? "signal %d is registered but not caught" : "signal %d is caught though not registered", gSh->e[i].a);
	MC_CHECK(gSh->stage == 2, "registering ends the process: %s", statusStr(st).c_str()); expect(x, SIGUSR1, hs, false); compare(x, "the signal"); ended(st, SIGUSR1); outcome(std::to_string(hs.size()));
}
MC_SCENARIO(C42, fresh_object, SEQ, "a new signal table in any memory saves no files and calls nobody")
{
	static const int FL[] = { 0, 1, 0xff, 0xa5, 0x80, 2 }; int fill = FL[choose(6, "memory")], sig = 1 + choose(64, "signal"); int st = child([&]() { alignas(64) static char m[sizeof(UnixSignal)]; memset(m, fill, sizeof m); UnixSignal *u = new (m) UnixSignal; u->Handler(sig < 64 ? sig : 1); u->Dump(); u->Register(h0, SIGUSR1); u->Handler(SIGUSR1); u->~UnixSignal(); });
	std::vector<Exp> x; if (sig < 64 && isCore(sig)) x.push_back({ 'C', 0, 0 }); x.push_back({ 'H', 0, SIGUSR1 }); compare(x, "a new table"); if (x.size() > 1) MC_CHECK(!strcmp(gSh->e[0].text, "core"), "the core file is '%s'", gSh->e[0].text); MC_CHECK(st == 0, "%s", statusStr(st).c_str()); cases(1); outcome("ok");
}
MC_SCENARIO(C42, core_names, SEQ, "core file names of every length")
{
	int from = choose(41, "length") * 100; uint64_t n = 0; for (int L = from; L < from + 100 && L < 4096; L += 7) { S cf = S(L, 'k'); bool pid = L % 2; child([&]() { gSigVec.CoreName(cf, pid); gSigVec.TarName("", false); gSigVec.Handler(SIGABRT); }); S w = cf + (pid ? "." + std::to_string(gChildPid) : ""); MC_CHECK(gSh->n == 1 && w == gSh->e[0].text, "a name of %d characters becomes one of %zu", L, strlen(gSh->e[0].text)); n++; } cases(n); outcome("ok");
}
