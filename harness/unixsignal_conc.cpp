// Drivers for registering and handling signals in several threads: C42.
#include "common.h"
#include "quiet.inc"
#include "UnixSignal.h"
#include <signal.h>
using namespace mc;
ConfigurationTable gConfig;
extern "C" int WriteCoreDump(const char *) { return 0; }
extern "C" sighandler_t signal(int, sighandler_t) { return SIG_DFL; }	// dispositions are not the subject here
static std::vector<std::pair<int, int>> *gRan; static void ran(int h, int s) { raceIgnore(1); gRan->push_back({ h, s }); raceIgnore(-1); point(gRan); }
static void h0(int s) { ran(0, s); } static void h1(int s) { ran(1, s); } static void h2(int s) { ran(2, s); }
static sighandler_t const HD[] = { h0, h1, h2 };
static int count(int h, int s) { int n = 0; for (auto &r : *gRan) if (r.first == h && r.second == s) n++; return n; }
MC_SCENARIO(C42, threads, CONC, "threads registering, dumping and handling signals at the same time", o.quick = 99, o.thorough = 99)
{
	std::vector<std::pair<int, int>> r; gRan = &r; UnixSignal &u = *new UnixSignal; u.TarName("", false); u.Register(h0, SIGTERM); int k = choose(5, "third"), sg = choose(2, "signal") ? SIGTERM : SIGINT;
	spawn([&u]() { u.Register(h1, SIGTERM); u.Register(h2, SIGTERM); }); spawn([&u, sg]() { u.Register(h0, sg); }); spawn([&u, k]() { switch (k) { case 0: u.Handler(SIGTERM); break; case 1: u.Dump(); break; case 2: u.Handler(SIGINT); break; case 3: u.Register(h2, SIGINT); break; case 4: u.Handler(SIGTERM); u.Handler(SIGTERM); break; } }); joinAll();
	if (k == 0) MC_CHECK(count(0, SIGTERM) >= 1 && count(0, SIGTERM) <= 2 && count(1, SIGTERM) <= 1 && count(2, SIGTERM) <= count(1, SIGTERM), "handlers ran %d, %d and %d times", count(0, SIGTERM), count(1, SIGTERM), count(2, SIGTERM));
	r.clear(); u.Handler(SIGTERM); u.Handler(SIGINT); int e0 = sg == SIGTERM ? 2 : 1, i0 = sg == SIGINT ? 1 : 0, i2 = k == 3 ? 1 : 0; MC_CHECK(count(0, SIGTERM) == e0 && count(1, SIGTERM) == 1 && count(2, SIGTERM) == 1 && count(0, SIGINT) == i0 && count(2, SIGINT) == i2 && (int)r.size() == e0 + 2 + i0 + i2, "after all registrations %zu handlers run", r.size());
	int p1 = -1, p2 = -1; for (size_t i = 0; i < r.size(); i++) if (r[i].second == SIGTERM) { if (r[i].first == 1) p1 = i; if (r[i].first == 2) p2 = i; } MC_CHECK(p1 < p2, "handlers run out of order"); outcome(std::to_string(k));
}
