// Drivers for the performance counters: C31.
#include "common.h"
#include "mcvfs.h"
#include "sizes.h"
#include "quiet.inc"
#include "Reporting.h"
#include <limits.h>
#include <new>
#include <pthread.h>
using namespace mc;
typedef std::string S;
ConfigurationTable gConfig;
// The global table is built by the driver, not before main; its committer thread is not started here.
alignas(16) char gReportsStorage[sizeof(ReportingTable)] __asm__("gReports");
static int started; extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*)(void *), void *) { *t = 1; started++; return 0; }
static const long T0 = 1700000000;
static long now() { return T0 + nowUs() / 1000000; }
struct Row { long long v; long cleared, updated; bool operator==(const Row &o) const { return v == o.v && cleared == o.cleared && updated == o.updated; } };
typedef std::map<S, Row> Rows;
static Rows rows()
{
	Rows r; sqlite3 *db; sqlite3_stmt *st; int rc, n = 0;
	if (sqlite3_open("/rep", &db) || sqlite3_prepare_v2(db, "SELECT NAME,VALUE,CLEAREDTIME,UPDATETIME FROM REPORTING", -1, &st, 0)) fail("the table is unreadable: %s", sqlite3_errmsg(db));
	while ((rc = sqlite3_step(st)) == SQLITE_ROW) { r[S((const char *)sqlite3_column_text(st, 0), sqlite3_column_bytes(st, 0))] = Row{ sqlite3_column_int64(st, 1), (long)sqlite3_column_int64(st, 2), (long)sqlite3_column_int64(st, 3) }; n++; MC_CHECK(sqlite3_column_type(st, 1) == SQLITE_INTEGER, "a value is not a number"); }
	MC_CHECK(rc == SQLITE_DONE, "reading the table fails: %s", sqlite3_errmsg(db)); MC_CHECK(n == (int)r.size(), "duplicate rows"); sqlite3_finalize(st); sqlite3_close(db); return r;
}
static S str(const Rows &r) { S s; char b[99]; for (auto &p : r) { snprintf(b, sizeof b, "=%lld(%ld,%ld) ", p.second.v, p.second.cleared - T0, p.second.updated ? p.second.updated - T0 : -1); s += show(p.first) + b; } return s.size() > 500 ? s.substr(0, 500) : s; }
static void fresh() { vfs::install(); vfs::reset(); setClock(T0, 0); gErrors = 0; started = 0; }
struct Model {
	Rows r; std::map<S, unsigned> pend;
	void create(const S &n) { if (!r.count(n)) r[n] = Row{ 0, now(), 0 }; }
	void incr(const S &n) { pend[n]++; }
	void commit() { for (auto &p : pend) if (p.second && r.count(p.first)) { r[p.first].v += p.second; r[p.first].updated = now(); } pend.clear(); }
	void max(const S &n, unsigned v) { if (!r.count(n)) return; Row &x = r[n]; x.v = std::max<long long>(x.v, v); x.updated = now(); }
	void clear(const S &n) { pend.erase(n); if (r.count(n)) r[n] = Row{ 0, now(), 0 }; }
	void clear() { pend.clear(); for (auto &p : r) p.second = Row{ 0, now(), 0 }; }
};
static void same(const Model &m, const char *after) { Rows g = rows(); MC_CHECK(g == m.r, "after %s the table holds %s, expected %s", after, str(g).c_str(), str(m.r).c_str()); }
static ReportingTable *open(const char *f = "/rep") { ReportingTable *t = new (gReportsStorage) ReportingTable(f); return t; }

MC_SCENARIO(C31, sequences, SEQ, "every sequence of creating, counting, maximising, clearing, committing and reopening", o.quickDepth = 4, o.thoroughDepth = 5)
{
	fresh(); ReportingTable *t = open(); MC_CHECK(started == 1, "%d threads commit", started); Model m; bool ok = true; const char *A = "c", *B = "c.1";
	for (const char *n : { A, B }) { ok = t->create(n); MC_CHECK(ok, "create"); m.create(n); } MC_CHECK(t->create("m"), "create"); m.create("m"); same(m, "creation");
	for (int s = 0; s < depth(); s++) {
		const char *what = "?"; ok = true;
		switch (choose(12, "op")) {
		case 0: what = "incr"; ok = t->incr(A); m.incr(A); break;
		case 1: what = "indexed incr"; ok = t->incr("c", 1); m.incr(B); break;
		case 2: what = "commit"; ok = t->commit(); m.commit(); break;
		case 3: what = "clear"; ok = t->clear(A); m.clear(A); break;
		case 4: what = "indexed clear"; ok = t->clear("c", 1); m.clear(B); break;
		case 5: what = "clear all"; ok = t->clear(); m.clear(); break;
		case 6: what = "max 7"; ok = t->max("m", 7); m.max("m", 7); break;
		case 7: what = "max 4e9"; ok = t->max("m", 4000000000u); m.max("m", 4000000000u); break;
		case 8: what = "create again"; ok = t->create(A) && t->create("c", 1, 2); m.create(A); m.create("c.1"); m.create("c.2"); break;
		case 9: what = "wait"; advance(5000000); break;
		case 10: what = "indexed max"; if (!m.r.count("x.9")) { ok = t->create("x", 8, 9); m.create("x.8"); m.create("x.9"); } else { ok = t->max("x", 9, 3); m.max("x.9", 3); } break;
		case 11: what = "commit and reopen"; ok = t->commit(); m.commit(); t = open(); break;
		}
		MC_CHECK(ok, "%s fails", what); same(m, what);
		H h = 0; for (auto &p : m.r) h = mix(h, mix(hashStr(p.first), mix(p.second.v, mix(p.second.cleared, p.second.updated)))); for (auto &p : m.pend) if (p.second) h = mix(h, mix(hashStr(p.first), p.second)); h = mix(h, now()); state(h, depth() - s - 1);
	}
	t->commit(); m.commit(); same(m, "the last commit"); outcome(str(m.r));
}
static std::vector<S> names()
{
	std::vector<S> v = { "a", "NAME", "VALUE", "value", "CLEAREDTIME", "rowid", "\"", "'", "a\"b", "a'b", "''", "\"\"", "x\" OR \"1\"=\"1", "x' OR '1'='1", "x');DROP TABLE REPORTING;--", "--", "/*", ";", "%s%n%d%%", "\\", "tab\t", "new\nline", "\xc3\xa9\xff", "a b", " a", "a ", "A", "a.1", "a.01", "?", "?1", ":x", "@x", "$x", "NULL", "1", "0x10", "1e3", "" };
	for (int n : { 60, 90, 110, 150, 199, 200, 201, 255, 1000, 5000 }) v.push_back(S(n, 'n')); return v;
}
MC_SCENARIO(C31, names, SEQ, "awkward texts as names, each next to each other one")
{
	fresh(); std::vector<S> nm = names(); int i = choose(nm.size(), "name"), form = choose(3, "form"); ReportingTable *t = open(); Model m; uint64_t n = 0;
	auto full = [&](const S &s) { return form == 0 ? s : form == 1 ? s + ".7" : s + ".4294967295"; }; unsigned ix = form == 1 ? 7 : UINT_MAX;
	for (auto &x : nm) { MC_CHECK(t->create(full(x).c_str()), "create %s", show(x).c_str()); m.create(full(x)); } same(m, "creation");
	const S &a = nm[i]; S f = full(a); if (form == 0) { MC_CHECK(t->incr(a.c_str()) && t->incr(a.c_str()), "incr"); } else { MC_CHECK(t->incr(a.c_str(), ix) && t->incr(a.c_str(), ix), "incr"); } m.incr(f); m.incr(f); advance(1000000); t->commit(); m.commit(); same(m, ("counting " + show(f)).c_str());
	for (auto &x : nm) if (x != a) { if (form == 0) t->incr(x.c_str()); else t->incr(x.c_str(), ix); m.incr(full(x)); } t->commit(); m.commit(); same(m, "counting all the others");
	MC_CHECK(form ? t->max(a.c_str(), ix, 50) : t->max(a.c_str(), 50), "max"); m.max(f, 50); same(m, "max"); advance(1000000); MC_CHECK(form ? t->clear(a.c_str(), ix) : t->clear(a.c_str()), "clear"); m.clear(f); same(m, ("clearing " + show(f)).c_str());
	cases(nm.size()); outcome(std::to_string(n));
}
MC_SCENARIO(C31, many, SEQ, "sets of counters of every size up to 257 and of 500 and 1001, counted differently often between commits, maximised and cleared")
{
	static const unsigned more[] = { 300, 500, 501, 1001 }; std::vector<unsigned> z = sizesUpTo(thorough() ? 3001 : 257); if (!thorough()) z.insert(z.end(), more, more + 4); unsigned n = z[choose(z.size(), "counters")]; fresh(); ReportingTable *t = open(); Model m; auto N = [](unsigned i) { return "c." + std::to_string(i); };
	if (n) MC_CHECK(t->create("c", 0, n - 1), "create"); for (unsigned i = 0; i < n; i++) m.create(N(i)); for (unsigned i = 0; i < n; i += 3) { MC_CHECK(t->create(("m" + std::to_string(i)).c_str()), "create"); m.create("m" + std::to_string(i)); } same(m, "creation");
	for (int round = 0; round < 2; round++) { advance(1000000); for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < 1 + (i + round) % 4; k++) { MC_CHECK(k & 1 ? t->incr(N(i).c_str()) : t->incr("c", i), "count"); m.incr(N(i)); } MC_CHECK(t->commit(), "commit"); m.commit(); same(m, "counting all"); }
	advance(1000000); for (unsigned i = 0; i < n; i += 3) { MC_CHECK(t->max(("m" + std::to_string(i)).c_str(), i * 7), "max"); m.max("m" + std::to_string(i), i * 7); } same(m, "maximising");
	for (unsigned i = 0; i < n; i++) { t->incr("c", i); m.incr(N(i)); } for (unsigned i = n / 2; i < n; i += 2) { MC_CHECK(t->clear("c", i), "clear"); m.clear(N(i)); } MC_CHECK(t->commit(), "commit"); m.commit(); same(m, "clearing some");
	for (unsigned i = 0; i < n; i++) { t->incr("c", i); m.incr(N(i)); } if (choose(2, "cleared")) { MC_CHECK(t->clear(), "clear"); m.clear(); same(m, "clearing all"); } t->commit(); m.commit(); same(m, "the last commit"); outcome(std::to_string(n));
}
MC_SCENARIO(C31, large_counts, SEQ, "counts of every size up to 131073 between two commits, on top of values of every magnitude")
{
	unsigned n = chooseSize(131073), top = choose(6, "value before"); static const unsigned V[] = { 0, 127, 65535, 2147483647u, 4294967290u, 4294967295u }; fresh(); ReportingTable *t = open(); Model m; MC_CHECK(t->create("c") && t->create("d"), "create"); m.create("c"); m.create("d");
	if (V[top]) { MC_CHECK(t->max("c", V[top]), "max"); m.max("c", V[top]); } for (unsigned i = 0; i < n; i++) { t->incr("c"); m.incr("c"); if (i % 1000 == 0) { t->incr("d"); m.incr("d"); } } MC_CHECK(t->commit(), "commit"); m.commit(); same(m, "counting"); t->incr("c"); m.incr("c"); t->commit(); m.commit(); same(m, "another count"); MC_CHECK(t->max("c", V[top] + n), "max"); m.max("c", V[top] + n); same(m, "maximising"); outcome(std::to_string(n));
}
MC_SCENARIO(C31, long_names, SEQ, "names of every length up to 66 and around every round number and power of two up to 5000, next to each other")
{
	unsigned n = chooseSize(5001); if (n < 3) skip(); fresh(); ReportingTable *t = open(); Model m; std::vector<S> names = { S(n, 'n'), S(n - 1, 'n'), S(n - 1, 'n') + "'" }; auto idx = [&](unsigned i) { return names[0] + "." + std::to_string(i); };
	for (auto &x : names) { MC_CHECK(t->create(x.c_str()), "create"); m.create(x); } MC_CHECK(t->create(names[0].c_str(), 4294967294u, 4294967295u), "create"); m.create(idx(4294967294u)); m.create(idx(4294967295u)); same(m, "creation");
	for (unsigned k = 0; k < 3; k++) for (unsigned i = 0; i <= k; i++) { t->incr(names[k].c_str()); m.incr(names[k]); } t->incr(names[0].c_str(), 4294967295u); m.incr(idx(4294967295u)); t->commit(); m.commit(); same(m, "counting"); MC_CHECK(t->max(names[2].c_str(), 9) && t->max(names[0].c_str(), 4294967294u, 6), "max"); m.max(names[2], 9); m.max(idx(4294967294u), 6); same(m, "maximising"); MC_CHECK(t->clear(names[0].c_str()) && t->clear(names[0].c_str(), 4294967295u), "clear"); m.clear(names[0]); m.clear(idx(4294967295u)); same(m, "clearing"); outcome(std::to_string(n));
}
MC_SCENARIO(C31, ranges, SEQ, "ranges of indices, also at the end of the number range")
{
	fresh(); ReportingTable *t = open(); Model m; static const unsigned LO[] = { 0, 1, 5, 99999999, 999999999, UINT_MAX - 2, UINT_MAX }; unsigned lo = LO[choose(7, "first")], n = choose(5, "count"); int len = choose(3, "name"); S base = len == 0 ? "b" : len == 1 ? "" : S(230, 'q');
	unsigned hi = lo + n - 1; if (n && hi < lo) { hi = UINT_MAX; n = hi - lo + 1; } if (!n && lo == 0) skip();
	MC_CHECK(t->create(base.c_str(), lo, hi), "create"); for (unsigned k = 0; k < n; k++) m.create(base + "." + std::to_string(lo + k)); same(m, "create");
	for (unsigned k = 0; k < n; k++) { for (unsigned j = 0; j <= k; j++) { t->incr(base.c_str(), lo + k); m.incr(base + "." + std::to_string(lo + k)); } } t->commit(); m.commit(); same(m, "counting"); outcome(std::to_string(n));
}
// Faults: one operation, every point of failure.
static void faults(vfs::Kind kind, int ats, std::vector<int> counts)
{
	fresh(); ReportingTable *t = open(); Model m; for (const char *n : { "c", "d", "m" }) { MC_CHECK(t->create(n), "create"); m.create(n); }
	t->incr("c"); t->incr("d"); m.incr("c"); m.incr("d"); t->commit(); m.commit(); t->max("m", 5); m.max("m", 5); t->incr("c"); t->incr("c"); t->incr("d"); m.incr("c"); m.incr("c"); m.incr("d"); same(m, "preparation"); advance(2000000);
	int op = choose(6, "operation"), at = choose(ats, "at"), c = counts[choose(counts.size(), "count")]; bool ok = true; Model before = m; vfs::arm(kind, at, c); const char *what = "";
	switch (op) { case 0: what = "create"; ok = t->create("new"); m.create("new"); break; case 1: what = "max"; ok = t->max("m", 9); m.max("m", 9); break; case 2: what = "clear"; ok = t->clear("c"); m.clear("c"); break; case 3: what = "clear all"; ok = t->clear(); m.clear(); break; case 4: what = "indexed create"; ok = t->create("i", 1, 2); m.create("i.1"); m.create("i.2"); break; case 5: what = "commit"; t->commit(); m.commit(); break; }
	bool hit = vfs::fault().hit; vfs::disarm(); if (!hit) { MC_CHECK(ok, "%s fails without a fault", what); same(m, what); outcome("none"); return; }
	Rows g = rows();
	if (op == 5) { for (auto &p : g) MC_CHECK(p.second == m.r[p.first] || p.second == before.r[p.first], "commit with a fault leaves %s", str(g).c_str()); }
	else if (op == 4 && !ok) { MC_CHECK(g == before.r || (g.count("i.1") && !g.count("i.2")), "a failed %s leaves %s", what, str(g).c_str()); m = before; }
	else { MC_CHECK(g == (ok ? m.r : before.r), "%s reports %s but the table holds %s", what, ok ? "success" : "failure", str(g).c_str()); if (!ok) m = before; }
	// the trouble is over: nothing that was counted may be missing
	advance(1000000); t->incr("d"); if (op == 5) { m = before; } m.incr("d"); t->commit(); Model x = m; x.commit(); g = rows(); for (const char *n : { "c", "d", "m" }) MC_CHECK(g[n].v == x.r[n].v, "%s, interrupted by a fault: at the end %s is %lld, expected %lld", what, n, g[n].v, x.r[n].v);
	outcome(std::to_string(op) + (ok ? "ok" : "failed"));
}
MC_SCENARIO(C31, busy, SEQ, "each operation with the lock refused at every point, 1 to 30 times") { faults(vfs::BUSY, 12, { 1, 3, 5, 8, 30 }); }
MC_SCENARIO(C31, io_error, SEQ, "each operation with an I/O error at every point") { faults(vfs::IOERR, 60, { 1, 2, 200 }); }
MC_SCENARIO(C31, disk_full, SEQ, "each operation with a full disk at every point") { faults(vfs::FULL, 20, { 1, 2, 200 }); }
MC_SCENARIO(C31, out_of_memory, SEQ, "each operation with failing allocations at every point") { faults(vfs::NOMEM, 80, { 1, 2, 50 }); }

// ================================================================ C45: nothing is held back
#include "balance.h"
#include <sstream>
static void noStatements(const char *what) { for (sqlite3 *p : vfs::conns()) if (sqlite3_stmt *s = sqlite3_next_stmt(p, 0)) fail("%s: a query is not given back: %s", what, sqlite3_sql(s)); }
static const char *const RA[] = { "create", "create again", "create a range", "count and commit", "count unknown names and commit", "indexed count and commit", "maximise", "indexed maximise", "clear one", "clear indexed", "clear all", "count only" };
static void reportCall(ReportingTable &t, int a)
{
	switch (a) {
	case 0: { static int n; t.create(("n" + std::to_string(n++ % 3)).c_str()); break; }
	case 1: t.create("c"); break; case 2: t.create("c", 1, 3); break; case 3: for (int i = 0; i < 3; i++) t.incr("c"); t.commit(); break; case 4: t.incr("nosuch"); t.incr("o'dd"); t.commit(); break;
	case 5: t.incr("c", 1); t.incr("c", 2); t.commit(); break; case 6: t.max("m", 7); t.max("nosuch", 4000000000u); break; case 7: t.max("c", 1, 3); break; case 8: t.incr("c"); t.clear("c"); break; case 9: t.clear("c", 1); break; case 10: t.incr("m"); t.clear(); break;
	default: t.incr("c"); t.incr("m"); t.incr("c", 1);
	}
}
static void leakReports(int kind, int at, int count)
{
	int a = choose(12, "call"); fresh(); ReportingTable *t = open(); MC_CHECK(t->create("c") && t->create("m") && t->create("c", 1, 2), "create"); int hit = 0;
	balance::repeat(RA[a], [&] { if (kind) vfs::arm((vfs::Kind)kind, at, count); reportCall(*t, a); hit += vfs::fault().hit; vfs::disarm(); if (a == 11 && kind) t->commit(); noStatements(RA[a]); }, 5); outcome(S(RA[a]) + (hit ? " hit" : ""));
}
MC_SCENARIO(C45, report_calls, SEQ, "every call of the counter table, repeated") { leakReports(0, 0, 0); }
MC_SCENARIO(C45, report_busy, SEQ, "every call of the counter table with every lock request refused, repeated", o.maxSteps = 100000) { static const int C[] = { 1, 3, 1000000 }; int at = choose(12, "lock request"), c = C[choose(3, "refusals")]; leakReports(vfs::BUSY, at, c); }
MC_SCENARIO(C45, report_io_error, SEQ, "every call of the counter table with every file access failing, repeated") { int at = choose(20, "access"), c = choose(2, "lasting") ? 1000000 : 1; leakReports(vfs::IOERR, at, c); }
MC_SCENARIO(C45, report_memory, SEQ, "every call of the counter table with every allocation of the database failing, repeated") { int at = choose(thorough() ? 60 : 25, "allocation"), c = choose(2, "lasting") ? 1000000 : 1; leakReports(vfs::NOMEM, at, c); }
