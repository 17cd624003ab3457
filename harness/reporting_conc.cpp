// Drivers for the performance counters used by several threads: C31.
#include "common.h"
#include "quiet.inc"
#include "Reporting.h"
#include <new>
#include <sqlite3.h>
using namespace mc;
typedef std::string S;
ConfigurationTable gConfig;
alignas(16) char gReportsStorage[sizeof(ReportingTable)] __asm__("gReports");
static sqlite3 *gDb;	// the table's own connection
extern "C" int __real_sqlite3_open(const char *, sqlite3 **); extern "C" int __wrap_sqlite3_open(const char *f, sqlite3 **p) { int r = __real_sqlite3_open(f, p); gDb = *p; return r; }
extern "C" int __real_sqlite3_open_v2(const char *, sqlite3 **, int, const char *); extern "C" int __wrap_sqlite3_open_v2(const char *f, sqlite3 **p, int x, const char *v) { int r = __real_sqlite3_open_v2(f, p, x, v); gDb = *p; return r; }
static long value(const char *n)
{
	noSched(1); sqlite3_stmt *st; long v = -1; sqlite3_prepare_v2(gDb, "SELECT VALUE FROM REPORTING WHERE NAME=?1", -1, &st, 0); sqlite3_bind_text(st, 1, n, -1, SQLITE_STATIC); if (sqlite3_step(st) == SQLITE_ROW) v = sqlite3_column_int64(st, 0); sqlite3_finalize(st); noSched(-1); return v;
}
static ReportingTable *open() { return new (gReportsStorage) ReportingTable(":memory:"); }
enum { INCR, CLEAR, CLEARALL, COMMIT, VALUE };
static const char *const NAMES[] = { "incr", "clear", "clear all", "commit", "value" };
struct St { long n[2] = { 0, 0 }; };
MC_SCENARIO(C31, threads, CONC, "two threads counting, committing and clearing while the table's own thread commits", o.quick = 2, o.thorough = 3)
{
	ReportingTable *t = open(); t->create("a"); t->create("b"); History h;
	auto op = [&, t](int k, int a) { int c = h.call(k, a); const char *n = a ? "b" : "a"; switch (k) { case INCR: t->incr(n); break; case CLEAR: t->clear(n); break; case CLEARALL: t->clear(); break; case COMMIT: t->commit(); break; } h.ret(c); };
	int from = 0; for (int i = 0; i < 2; i++) { int k = from += choose(5 - from, "thread"); spawn([&op, k]() { switch (k) { case 0: op(INCR, 0); op(INCR, 0); break; case 1: op(INCR, 0); op(COMMIT, 0); op(INCR, 1); break; case 2: op(CLEAR, 0); op(INCR, 0); break; case 3: op(INCR, 1); op(CLEARALL, 0); break; case 4: op(COMMIT, 0); break; } }); }
	op(INCR, 0); t->reportShutdown(); joinAll(); t->commit();
	for (int a = 0; a < 2; a++) { int c = h.call(VALUE, a); h.ret(c, value(a ? "b" : "a")); }
	MC_CHECK(linearizable(h.all(), St(), [](St &s, const Op &o) { switch (o.kind) { case INCR: s.n[o.a]++; return true; case CLEAR: s.n[o.a] = 0; return true; case CLEARALL: s.n[0] = s.n[1] = 0; return true; case VALUE: return s.n[o.a] == o.res; } return true; }), "no order of the operations explains the values:\n%s", h.str(NAMES).c_str());
	outcome(std::to_string(value("a")) + std::to_string(value("b")));
}
MC_SCENARIO(C31, three_threads, CONC, "three threads counting the same and different parameters, one creating them again", o.quick = 2, o.thorough = 3)
{
	ReportingTable *t = open(); t->create("a"); t->create("i", 1, 2); int k = choose(3, "third");
	spawn([t]() { t->incr("a"); t->incr("i", 1); }); spawn([t]() { t->incr("i", 1); t->incr("a"); }); spawn([t, k]() { if (k == 0) { t->create("a"); t->create("i", 1, 2); } else if (k == 1) t->commit(); else { t->create("z"); t->incr("z"); t->max("i", 2, 9); } });
	t->reportShutdown(); joinAll(); t->commit(); MC_CHECK(value("a") == 2 && value("i.1") == 2, "two threads counted a and i.1 once each, the values are %ld and %ld", value("a"), value("i.1")); if (k == 2) MC_CHECK(value("z") == 1 && value("i.2") == 9, "z is %ld, i.2 is %ld", value("z"), value("i.2")); outcome(std::to_string(k));
}
static int updates, refuse; static int authorize(void *, int action, const char *, const char *column, const char *, const char *) { return action == SQLITE_UPDATE && column && !strcmp(column, "VALUE") && updates++ == refuse ? SQLITE_DENY : SQLITE_OK; }
MC_SCENARIO(C31, failing_commit, CONC, "a commit of which one update is refused while another thread counts, commits or clears", o.quick = 2, o.thorough = 3)
{
	ReportingTable *t = open(); t->create("a"); t->create("b"); int k = choose(4, "thread"), e[2] = { 2, 1 }; updates = 0; refuse = choose(3, "update refused"); t->incr("a"); t->incr("a"); t->incr("b"); sqlite3_set_authorizer(gDb, authorize, 0);
	spawn([t, k, &e]() { switch (k) { case 0: t->incr("a"); e[0]++; break; case 1: t->incr("b"); t->incr("a"); e[0]++; e[1]++; break; case 2: t->incr("a"); e[0]++; t->commit(); break; case 3: t->incr("b"); e[1]++; t->create("a"); t->create("b"); break; } });
	t->commit(); t->reportShutdown(); joinAll(); sqlite3_set_authorizer(gDb, 0, 0); t->commit(); MC_CHECK(value("a") == e[0] && value("b") == e[1], "a was counted %d times and b %d times, the values are %ld and %ld", e[0], e[1], value("a"), value("b")); outcome(std::to_string(k) + std::to_string(updates));
}
MC_SCENARIO(C31, committer, CONC, "the table's own thread commits every ten seconds until it is shut down", o.quick = 3, o.thorough = 5, o.timeAdvance = false)
{
	ReportingTable *t = open(); t->create("a"); int w = choose(4, "shut down after"); int n = 0;
	for (int i = 0; i < w; i++) { t->incr("a"); n++; ::sleep(choose(2, "pause") ? 11 : 4); long v = value("a"); MC_CHECK(v <= n, "the value is %ld after %d increments", v, n); }
	if (w && nowUs() >= 21000000) MC_CHECK(value("a") >= 1, "nothing was committed after %ld seconds", (long)(nowUs() / 1000000));
	t->incr("a"); n++; int64_t s = nowUs(); t->reportShutdown(); joinAll(); MC_CHECK(nowUs() - s <= 11000000, "shutting down takes %ld seconds", (long)((nowUs() - s) / 1000000)); if (w) MC_CHECK(value("a") == n, "after the shutdown the value is %ld, counted %d", value("a"), n); t->commit(); MC_CHECK(value("a") == n, "the value is %ld after %d increments", value("a"), n); outcome(std::to_string(w));
}
