// Drivers for the logger used by several threads: C28 C29 C30.
#include "common.h"
#define MC_CONC_HARNESS
#include "logrec.inc"
#include <map>
#include <string.h>
#include <algorithm>
#include <memory>
ConfigurationTable gConfig;
int main(int argc, char **argv) { return mc_main(argc, argv); }
using namespace mc;
typedef std::string S;
// The log file is a stream made before the runs, so that its buffers are restored with the image.
static S *gFile;
static ssize_t fileWrite(void *, const char *p, size_t n) { point(&gFile); raceIgnore(1); if (gFile) gFile->append(p, n); raceIgnore(-1); return n; }
static FILE *makeStream() { cookie_io_functions_t io = { 0, fileWrite, 0, 0 }; FILE *f = fopencookie(0, "w", io); setvbuf(f, 0, _IONBF, 0); return f; }
static FILE *gStream = makeStream();
extern "C" FILE *__real_fopen(const char *, const char *); extern "C" FILE *__wrap_fopen(const char *n, const char *m) { return strcmp(n, "the.log") ? __real_fopen(n, m) : gStream; }
extern "C" FILE *__real_fopen64(const char *, const char *); extern "C" FILE *__wrap_fopen64(const char *n, const char *m) { return strcmp(n, "the.log") ? __real_fopen64(n, m) : gStream; }
static ErrBuf *gBuf = new ErrBuf;
static void begin() { std::cerr.rdbuf(gBuf); std::cerr.clear(); gSys = new std::vector<Rec>; gErr = new S; gFile = new S; }
static void emit(int l, const S &s) { switch (l) { case 0: LOG(EMERG) << s; break; case 1: LOG(ALERT) << s; break; case 2: LOG(CRIT) << s; break; case 3: LOG(ERR) << s; break; case 5: LOG(NOTICE) << s; break; default: LOG(DEBUG) << s; } }

// ================================================================ C29
enum { ALARM, LIST };
static const char *const NAMES[] = { "alarm", "list" };
static void check29(History &h, std::vector<S> &res, unsigned lim)
{
	struct St { std::vector<int> q; };
	for (auto &o : h.all()) if (o.kind == LIST && o.ret >= 0) for (char &c : res[&o - &h.all()[0]]) (void)c;
	auto apply = [&](St &s, const Op &o) {
		if (o.kind == ALARM) { s.q.push_back(o.a); while (s.q.size() > lim) s.q.erase(s.q.begin()); return true; }
		if (o.ret < 0) return true;
		S w; for (int i : s.q) w += std::to_string(i) + ","; return w == res[o.a];
	};
	MC_CHECK(linearizable(h.all(), St(), apply), "no order of the alarms explains the lists:\n%s", h.str(NAMES).c_str());
}
static S ids() { S r; for (const S &s : gGetLoggerAlarms()) { size_t p = s.rfind("id"); r += (p == S::npos ? "?" + s : s.substr(p + 2)) + ","; } return r; }
static void alarms(int nt, unsigned lim)
{
	begin(); gConfig.set("Log.Alarms.Max", (long)lim); gGetLoggingLevel(__FILE__); History h; std::vector<S> res(16);
	for (int t = 0; t < nt; t++) { int k = choose(4, "thread"); spawn([&, t, k]() {
		auto alarm = [&](int id) { int c = h.call(ALARM, id); emit(id % 3, "id" + std::to_string(id)); h.ret(c); };
		auto list = [&](int id) { int c = h.call(LIST, id); S r = ids(); raceIgnore(1); res[id] = r; raceIgnore(-1); h.ret(c); };
		switch (k) { case 0: alarm(t * 3); break; case 1: alarm(t * 3); alarm(t * 3 + 1); break; case 2: list(t * 2); list(t * 2 + 1); break; case 3: list(t * 2); alarm(t * 3); break; }
	}); }
	joinAll(); int c = h.call(LIST, 15); res[15] = ids(); h.ret(c); check29(h, res, lim);
	outcome(res[15]);
}
MC_SCENARIO(C29, two_threads, CONC, "two threads raising and listing alarms with limits of 1, 2 and 9", o.quick = 2, o.thorough = 3) { static const int L[] = { 1, 2, 9 }; alarms(2, L[choose(3, "limit")]); }
MC_SCENARIO(C29, three_threads, CONC, "three threads raising and listing alarms with a limit of 2", o.quick = 1, o.thorough = 2) { alarms(3, 2); }
MC_SCENARIO(C29, with_settings, CONC, "alarms while another thread changes settings, the limit or a level to an unknown one", o.quick = 2, o.thorough = 3)
{
	begin(); gConfig.set("Log.Alarms.Max", 2L); int k = choose(5, "other"), r = choose(2, "raise"); gGetLoggingLevel(__FILE__);
	if (k == 3) gConfig.set("Log.Level.new.cpp", "bogus");
	if (k == 4) gConfig.set("Log.Group.SMS", "bogus");
	spawn([=]() { emit(r ? 3 : 1, "id1"); emit(1, "id2"); });
	spawn([=]() { switch (k) { case 0: gConfig.set("Log.Alarms.Max", 1L); break; case 1: gConfig.set("x", "y"); gConfig.getStr("x"); break; case 2: gConfig.purge(); gConfig.getNum("Log.Alarms.Max"); break; case 3: MC_CHECK(gGetLoggingLevel("new.cpp") == 5, "level"); break; case 4: gLogGroup.setAll(); break; } });
	joinAll(); S a = ids(); MC_CHECK(a.size() >= 2 && (k > 2 || a.substr(a.size() - 2) == "2,"), "alarms are %s", a.c_str()); outcome(a);
}

// ================================================================ C30
static void intact(const S &what, const std::vector<S> &got, std::vector<S> want, const std::vector<std::pair<S, S>> &order)
{
	std::vector<S> g = got, w = want; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
	if (g != w) { S l; for (const S &s : got) l += "[" + show(s) + "] "; fail("%s shows %s", what.c_str(), l.c_str()); }
	for (auto &o : order) { int a = -1, b = -1; for (int i = 0; i < (int)got.size(); i++) { if (got[i] == o.first) a = i; if (got[i] == o.second) b = i; } MC_CHECK(a < 0 || b < 0 || a < b, "%s shows two records of one thread out of order", what.c_str()); }
}
MC_SCENARIO(C30, threads, CONC, "two or three threads logging to syslog, console and file at several levels", o.quick = 2, o.thorough = 3)
{
	begin(); int dest = choose(4, "destinations"), nt = choose(2, "threads") + 2, mix = choose(3, "levels"); gLogToConsole = dest & 1; bool file = dest & 2; if (nt == 3 && mix) skip();
	char path[] = "the.log"; if (file) gLogInitWithFile("p", NULL, LOG_LOCAL7, path); gFile->clear(); gErr->clear(); gGetLoggingLevel(__FILE__);
	static const int LV[3][3] = { { 3, 5, 3 }, { 1, 5, 7 }, { 2, 1, 3 } };
	for (int t = 0; t < nt; t++) spawn([=]() { emit(LV[mix][t], "first" + std::to_string(t)); if (nt == 2) emit(LV[mix][1 - t], t ? "second" : "second\n"); });
	joinAll();
	std::vector<S> sys, con, fil; std::vector<std::pair<S, S>> order; std::map<S, S> full;
	for (auto &r : *gSys) { sys.push_back(r.text); MC_CHECK((r.prio & 7) == 5 || (r.prio & 7) <= 3, "a disabled record was made"); MC_CHECK(!r.text.find(S(LEV[r.prio & 7]) + " "), "record %s", r.text.c_str()); S l = lines(r.text)[0]; if (l.size() > 12 && endsWith(l, "<no newline>")) l.resize(l.size() - 12); if ((r.prio & 7) <= 2) con.push_back(r.text); if (gLogToConsole) con.push_back(l); fil.push_back(l); }
	{ std::vector<S> c2; for (S &s : con) for (S &x : lines(s + "\n")) c2.push_back(x); con = c2; }
	int n = nt; if (nt == 2) { n = 4; if (mix == 1) n = 4; } MC_CHECK((int)sys.size() == n, "%d records were sent to syslog, expected %d", (int)sys.size(), n);
	for (int t = 0; t < nt; t++) { int c = 0; for (S &s : sys) c += endsWith(s, ": first" + std::to_string(t)); MC_CHECK(c == 1, "record of thread %d is sent %d times", t, c); }
	intact("the console", lines(*gErr), con, order); if (file) intact("the log file", lines(*gFile), fil, order); else MC_CHECK(gFile->empty(), "a log file is written");
	outcome(std::to_string(dest) + std::to_string(mix));
}

// ================================================================ C28
MC_SCENARIO(C28, threads, CONC, "threads asking for the levels of the same and of different files while one changes a level", o.quick = 2, o.thorough = 3)
{
	begin(); gConfig.set("Log.Level", "ERR"); int k = choose(4, "change"), warm = choose(2, "cached before"); if (warm) { gGetLoggingLevel("a.cpp"); gGetLoggingLevel("b.cpp"); }
	int lim = choose(2, "cache about to be emptied"); if (lim) { noSched(1); for (int i = 0; i < 999 - 2 * warm; i++) gGetLoggingLevel("z.cpp"); noSched(-1); }
	if (k == 2) gConfig.set("Log.Level.a.cpp", "wrong");
	for (int t = 0; t < 2; t++) spawn([=]() { int a = gGetLoggingLevel(t ? "b.cpp" : "a.cpp"), b = gGetLoggingLevel("a.cpp");
		auto ok = [&](int v) { return k == 0 ? v == 3 : k == 1 ? v == 3 || v == 7 : k == 2 ? v == 3 || v == 5 : v == 3 || v == 0; }; MC_CHECK(ok(a) && ok(b), "levels %d and %d", a, b); });
	if (k == 1) gConfig.set("Log.Level", "DEBUG"); if (k == 3) gConfig.set("Log.Level.a.cpp", "EMERG");
	joinAll(); noSched(1); for (int i = 0; i < 1100; i++) gGetLoggingLevel("z.cpp"); noSched(-1);
	static const int A[] = { 3, 7, 5, 0 }, B[] = { 3, 7, 3, 3 }; int a = gGetLoggingLevel("a.cpp"), b = gGetLoggingLevel("b.cpp"); MC_CHECK(a == A[k] && b == B[k], "at the end the levels are %d and %d", a, b);
	int n = 0; for (auto &r : *gSys) n += r.prio == LOG_CRIT; MC_CHECK(k == 2 ? n >= 1 : n == 0, "%d reports of unknown levels", n); outcome(std::to_string(k));
}
// A hook on the table, as programs install it: it logs, empties the cache and sets the groups' levels anew.
static int gHookLevel, gHookRan;
static void tableHook(void *, int, char const *, char const *, sqlite3_int64) { raceIgnore(1); gHookRan++; raceIgnore(-1); emit(gHookLevel, "hook"); gConfig.purge(); gLogGroup.setAll(); }
static void hooked(int level, int other, int warm, int rec)
{
	begin(); gConfig.set("Log.Level", rec == 7 ? "DEBUG" : "NOTICE"); gConfig.set("Log.Alarms.Max", 2L); gConfig.set("x", "0"); if (warm) gGetLoggingLevel(__FILE__); gLogGroup.setAll(); raceIgnore(1); gHookLevel = level; gHookRan = 0; raceIgnore(-1); gConfig.setUpdateHook(tableHook);
	spawn([=]() { MC_CHECK(gConfig.set("x", "1"), "set"); });
	spawn([=]() { switch (other) { case 0: emit(rec, "other"); break; case 1: MC_CHECK(gGetLoggingLevel("new.cpp") == (rec == 7 ? 7 : 5), "level"); break; case 2: gGetLoggerAlarms(); gConfig.getStr("x"); break; case 3: gConfig.set("y", "2"); break; case 4: emit(rec, "other"); emit(rec, "again"); break; } });
	joinAll(); gConfig.setUpdateHook(0); int hooks = 1 + (other == 3), n = 0, w = (level <= 5 || rec == 7) * hooks + (other == 0) + 2 * (other == 4); for (auto &r : *gSys) n += endsWith(r.text, ": hook") || endsWith(r.text, ": other") || endsWith(r.text, ": again"); MC_CHECK(gHookRan == hooks, "the hook ran %d times", gHookRan); MC_CHECK(n == w, "%d records, expected %d", n, w);
	MC_CHECK(gConfig.getStr("x") == "1", "the setting"); int al = (level <= 2) * hooks + (rec <= 2) * ((other == 0) + 2 * (other == 4)); MC_CHECK((int)gGetLoggerAlarms().size() == (al > 2 ? 2 : al), "%d alarms", (int)gGetLoggerAlarms().size()); outcome(std::to_string(other) + std::to_string(level));
}
MC_SCENARIO(C28, hook, CONC, "a changed setting whose hook logs and sets the groups anew, against threads asking for levels and logging", o.quick = 2, o.thorough = 3, o.timeAdvance = false) { int l = choose(2, "hook's level"), w = choose(2, "level known"), o = choose(5, "other"), r = choose(2, "level"); hooked(l ? 5 : 7, o, w, r ? 3 : 7); }
MC_SCENARIO(C29, hook, CONC, "a changed setting whose hook raises an alarm, against threads that raise and list alarms", o.quick = 2, o.thorough = 3, o.timeAdvance = false) { int w = choose(2, "level known"), o = choose(5, "other"), r = choose(2, "level"); hooked(1, o, w, r ? 1 : 3); }
