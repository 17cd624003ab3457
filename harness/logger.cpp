// Drivers for the logger: C28 C29 C30.
#include "common.h"
#include "sizes.h"
#include <deque>
#include "logrec.inc"
#include <map>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
ConfigurationTable gConfig;
int main(int argc, char **argv) { return mc_main(argc, argv); }
using namespace mc;
typedef std::string S;
extern bool groupEnabled(int), groupWatch(int); extern void groupLog(int); extern int evaluations;
static const int WINDOW = 1100;	// a changed setting counts after this many queries at the latest
static std::vector<S> gSet;	// settings made in this execution
static ErrBuf gBuf; static std::streambuf *gOld;
static void setv(const S &k, const S &v) { MC_CHECK(gConfig.set(k, v), "set %s", k.c_str()); gSet.push_back(k); }
static void settle() { for (int i = 0; i < WINDOW; i++) gGetLoggingLevel("settle.cpp"); }
static void begin()
{
	for (const S &k : gConfig.getAllPairs().empty() ? std::vector<S>() : [] { std::vector<S> v; for (auto &p : gConfig.getAllPairs()) v.push_back(p.first); return v; }()) gConfig.remove(k);
	gConfig.purge(); gSet.clear(); setClock(1700000000, 0); delete gSys; gSys = 0; delete gErr; gErr = 0;
	if (!gOld) gOld = std::cerr.rdbuf(&gBuf); settle();
	gSys = new std::vector<Rec>; gErr = new S;
}
static S gIdent; static int gFacility; static int gOpened; extern "C" void openlog(const char *n, int, int f) { gIdent = n ? n : "<null>"; gFacility = f; gOpened++; }
extern int gMutexLogLevel;
static int number(const S &s) { for (int i = 0; i < 8; i++) if (s == LEV[i]) return i; return s == "INFORMATION" ? 6 : s == "WARN" ? 4 : s == "ERROR" ? 3 : s == "CRITICAL" ? 2 : s == "EMERGENCY" ? 0 : -1; }
static const char *const VAL[] = { 0, "EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG", "INFORMATION", "WARN", "ERROR", "CRITICAL", "EMERGENCY", "", "debug", "INFO ", "DEBU", "DEBUGX", "3", "bogus\"' %s %n" };
static const int NV = sizeof VAL / sizeof *VAL;

// ================================================================ C28: which level counts
MC_SCENARIO(C28, resolve, SEQ, "every pair of values for the general and for a file's level, valid, alternative, empty and unknown")
{
	begin(); int g = choose(NV, "general"), f = choose(NV, "file");
	if (VAL[g]) setv("Log.Level", VAL[g]);
	if (VAL[f]) setv("Log.Level.some.cpp", VAL[f]);
	S gv = VAL[g] ? VAL[g] : "NOTICE", fv = VAL[f] && *VAL[f] ? VAL[f] : gv; bool own = VAL[f] && *VAL[f];
	settle(); gSys->clear();
	gSet.clear(); int want = number(fv) < 0 ? 5 : number(fv);
	// the general level is in use by every other file, so an unknown one is already replaced
	int got = gGetLoggingLevel("some.cpp"); MC_CHECK(got == want, "general %s, file %s: the level is %d, expected %d", VAL[g] ? show(VAL[g]).c_str() : "unset", VAL[f] ? show(VAL[f]).c_str() : "unset", got, want);
	for (int i = 0; i < 3; i++) MC_CHECK(gGetLoggingLevel("some.cpp") == want, "the level changes without a change of settings");
	int gw = number(gv) < 0 ? 5 : number(gv);
	for (const char *o : { "other.cpp", "some.cp", "some.cppx", "Some.cpp", "", "some" }) MC_CHECK(gGetLoggingLevel(o) == gw, "general %s: the level of %s is %d, expected %d", show(gv).c_str(), o, gGetLoggingLevel(o), gw);
	MC_CHECK(gGetLoggingLevel() == gw && gGetLoggingLevel(NULL) == gw, "the default level is %d, expected %d", gGetLoggingLevel(), gw);
	MC_CHECK(gConfig.getStr("Log.Level") == (number(gv) < 0 ? "NOTICE" : gv), "Log.Level was %s and is now %s", show(gv).c_str(), gConfig.getStr("Log.Level").c_str());
	if (own) MC_CHECK(gConfig.getStr("Log.Level.some.cpp") == (number(fv) < 0 ? "NOTICE" : fv), "the file's level was %s and is now %s", show(fv).c_str(), gConfig.getStr("Log.Level.some.cpp").c_str());
	if (own && number(fv) < 0) { int n = 0; for (auto &r : *gSys) n += r.prio == LOG_CRIT && r.text.find(fv) != S::npos && r.text.find("Log.Level.some.cpp") != S::npos; MC_CHECK(n == 1, "the unknown level %s is reported %d times", show(fv).c_str(), n); }
	else MC_CHECK(gSys->empty(), "%d messages about valid levels", (int)gSys->size());
	outcome(std::to_string(want) + std::to_string(gw));
}
MC_SCENARIO(C28, many_files, SEQ, "several hundred files with levels of their own")
{
	begin(); int perm = choose(3, "order"); const int N = thorough() ? 600 : 250; auto name = [](int i) { return "dir" + std::to_string(i % 7) + "/File" + std::to_string(i) + (i % 3 ? ".cpp" : ".h"); };
	setv("Log.Level", "ERR"); for (int i = 0; i < N; i += 2) setv("Log.Level." + name(i), LEV[i / 2 % 8]);
	settle();
	for (int r = 0; r < 12; r++) for (int k = 0; k < N; k++) { int i = perm == 0 ? k : perm == 1 ? N - 1 - k : k * 17 % N; int w = i % 2 ? 3 : i / 2 % 8; int g = gGetLoggingLevel(name(i).c_str()); MC_CHECK(g == w, "%s has level %d, expected %d", name(i).c_str(), g, w); }
	cases(12 * N); outcome(std::to_string(perm));
}
MC_SCENARIO(C28, long_names, SEQ, "files whose names agree in all but one place, of every length around round numbers to 5000")
{
	begin(); unsigned n = chooseSize(5001); if (!n) skip(); int at = choose(3, "place"); S a(n, 'p'), b; for (unsigned i = 0; i < n; i++) if (i % 9 == 8) a[i] = '/'; a += ".cpp"; b = a; size_t pos = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; b[pos] = 'z';
	setv("Log.Level", "ERR"); setv("Log.Level." + a, "DEBUG"); setv("Log.Level." + b, "CRIT"); settle(); S c = a + "x";
	for (int r = 0; r < 3; r++) for (int k = 0; k < 3; k++) { const S &f = k == 0 ? a : k == 1 ? b : c; int w = k == 0 ? 7 : k == 1 ? 2 : 3, g = gGetLoggingLevel(f.c_str()); MC_CHECK(g == w, "a file with a name of %u characters has level %d, expected %d", n, g, w); }
	outcome(std::to_string(n));
}
MC_SCENARIO(C28, changes, SEQ, "every sequence of setting, emptying and removing levels and of few or many queries", o.quickDepth = 4, o.thoroughDepth = 5)
{
	begin(); static const char *const F[] = { "a.cpp", "b.cpp" }; std::map<S, S> cfg; struct Hist { std::vector<std::pair<long, int>> v; } h[2]; long q = 0;
	auto level = [&](int f) { auto i = cfg.find(S("Log.Level.") + F[f]); if (i != cfg.end() && i->second != "") return number(i->second); i = cfg.find("Log.Level"); return i == cfg.end() ? 5 : number(i->second); };
	auto changed = [&]() { for (int f = 0; f < 2; f++) { int l = level(f); if (h[f].v.empty() || h[f].v.back().second != l) h[f].v.push_back({ q, l }); } };
	auto query = [&](int f) { q++; int g = gGetLoggingLevel(F[f]); bool ok = false; auto &v = h[f].v;
		for (size_t i = 0; i < v.size(); i++) if (v[i].second == g && (i + 1 == v.size() || v[i + 1].first >= q - WINDOW)) ok = true;
		MC_CHECK(ok, "%s: level %d after %ld queries since the last change to %d", F[f], g, q - v.back().first, v.back().second); };
	changed(); query(0);
	for (int s = 0; s < depth(); s++) switch (choose(thorough() ? 11 : 9, "op")) {
	case 0: setv("Log.Level", "DEBUG"); cfg["Log.Level"] = "DEBUG"; changed(); break;
	case 1: setv("Log.Level", "ERROR"); cfg["Log.Level"] = "ERROR"; changed(); break;
	case 2: setv("Log.Level.a.cpp", "INFO"); cfg["Log.Level.a.cpp"] = "INFO"; changed(); break;
	case 3: query(0); query(1); break;
	case 4: setv("Log.Level.a.cpp", ""); cfg["Log.Level.a.cpp"] = ""; changed(); break;
	case 5: gConfig.remove("Log.Level.a.cpp"); cfg.erase("Log.Level.a.cpp"); changed(); break;
	case 10: gConfig.remove("Log.Level"); cfg.erase("Log.Level"); changed(); break;
	case 9: setv("Log.Level.a.cpp", "CRIT"); cfg["Log.Level.a.cpp"] = "CRIT"; changed(); break;
	case 8: for (int i = 0; i < 500; i++) query(i & 1); break;
	case 7: for (int i = 0; i <= WINDOW; i++) query(0); break;
	case 6: { int l = choose(thorough() ? 3 : 2, "init"); gLogInit("prog", l == 0 ? NULL : l == 1 ? "ALERT" : "DEBUG", LOG_LOCAL7); if (l) cfg["Log.Level"] = l == 1 ? "ALERT" : "DEBUG"; changed(); MC_CHECK(gPid == getpid(), "gPid"); break; }
	}
	query(0); query(1); settle(); q += WINDOW; query(0); query(1);
	MC_CHECK(gSys->empty(), "%d unexpected messages", (int)gSys->size()); outcome(std::to_string(level(0)) + std::to_string(level(1)));
}
MC_SCENARIO(C28, groups, SEQ, "every value for a group's log and watch level against every level of the file")
{
	begin(); int g = choose(NV, "group"), w = choose(NV, "watch"), e = choose(4, "file"); static const char *const E[] = { "EMERG", "ERR", "NOTICE", "DEBUG" };
	if (!thorough() && w != g && w > 2 && g > 2) skip();
	setv("Log.Level", E[e]); setv("Log.Group.GSM", "INFO"); setv("Log.Watch.Layer2", "WARN"); settle(); if (choose(2, "set before")) { setv("Log.Group.SIP", "DEBUG"); setv("Log.Watch.SIP", "DEBUG"); gLogGroup.setAll(); gConfig.remove("Log.Group.SIP"); gConfig.remove("Log.Watch.SIP"); } gSys->clear();
	if (VAL[g]) setv("Log.Group.SIP", VAL[g]);
	if (VAL[w]) setv("Log.Watch.SIP", VAL[w]);
	gLogGroup.setAll();
	auto lev = [](const char *v) { return !v || !*v ? 0 : number(v) < 0 ? 5 : number(v); }; int gl = lev(VAL[g]), wl = lev(VAL[w]), fl = number(E[e]);
	for (int l = 0; l < 8; l++) {
		MC_CHECK(gCheckGroupLogLevel(LogGroup::SIP, l) == (gl >= l), "group level %s: level %d is %s", VAL[g] ? VAL[g] : "unset", l, gl >= l ? "off" : "on");
		MC_CHECK(groupEnabled(l) == (gl >= l || fl >= l), "group level %s, file level %s: level %d is %s", VAL[g] ? VAL[g] : "unset", E[e], l, groupEnabled(l) ? "on" : "off");
		MC_CHECK(gCheckGroupWatchLevel(LogGroup::SIP, l) == (wl >= l) && groupWatch(l) == (wl >= l), "watch level %s: level %d", VAL[w] ? VAL[w] : "unset", l);
		for (int o = 0; o < LogGroup::_NumberOfLogGroups; o++) if (o != LogGroup::SIP) { MC_CHECK(gCheckGroupLogLevel((LogGroup::Group)o, l) == ((o == LogGroup::GSM ? 6 : 0) >= l), "group %d level %d", o, l); MC_CHECK(gCheckGroupWatchLevel((LogGroup::Group)o, l) == ((o == LogGroup::Layer2 ? 4 : 0) >= l), "watch %d level %d", o, l); }
	}
	int bad = (VAL[g] && *VAL[g] && number(VAL[g]) < 0) + (VAL[w] && *VAL[w] && number(VAL[w]) < 0), n = 0; for (auto &r : *gSys) n += r.prio == LOG_CRIT; MC_CHECK(n == bad, "%d unknown levels, %d reports", bad, n);
	if (VAL[g]) MC_CHECK(gConfig.getStr("Log.Group.SIP") == (*VAL[g] && number(VAL[g]) < 0 ? "NOTICE" : VAL[g]), "the group's level is now %s", gConfig.getStr("Log.Group.SIP").c_str());
	gSys->clear(); int e0 = evaluations; for (int l = 3; l < 8; l++) { groupLog(l); int on = gl >= l || fl >= l; MC_CHECK((int)gSys->size() == on && evaluations - e0 == on, "level %d of the group is %s: %d records, argument evaluated %d times", l, on ? "on" : "off", (int)gSys->size(), evaluations - e0); if (on) MC_CHECK(gSys->back().prio == l && endsWith(gSys->back().text, ": grp7"), "record %s", gSys->back().text.c_str()); gSys->clear(); e0 = evaluations; }
	LogGroup fresh; for (int o = 0; o < LogGroup::_NumberOfLogGroups; o++) MC_CHECK(fresh.mDebugLevel[o] == 0 && fresh.mWatchLevel[o] == 0, "a new group table is not clear");
	outcome(std::to_string(gl) + std::to_string(wl));
}

// ================================================================ C29: recent alarms
static void logAt(int l, const S &s) { switch (l) { case 0: LOG(EMERG) << s; break; case 1: LOG(ALERT) << s; break; case 2: LOG(CRIT) << s; break; case 3: LOG(ERR) << s; break; case 4: LOG(WARNING) << s; break; case 5: LOG(NOTICE) << s; break; case 6: LOG(INFO) << s; break; default: LOG(DEBUG) << s; } }
MC_SCENARIO(C29, sequences, SEQ, "every sequence of records of every kind, changes of the limit and long bursts", o.quickDepth = 4, o.thoroughDepth = 5)
{
	begin(); gConfig.set("Log.Alarms.Max", 0); LOG(ALERT) << "drop all"; MC_CHECK(gGetLoggerAlarms().empty(), "alarms are kept with a limit of 0"); gConfig.remove("Log.Alarms.Max"); gConfig.set("Log.Level", "DEBUG"); settle(); gSys->clear(); gErr->clear();
	std::vector<S> want, got; unsigned lim = 20; S echo; int n = 0;
	auto rec = [&](int l) { S t = "text%d%s " + std::to_string(++n); logAt(l, t); S full = gSys->back().text; MC_CHECK(endsWith(full, t), "record %s", full.c_str()); if (l <= LOG_CRIT) { want.push_back(full); while (want.size() > lim) want.erase(want.begin()); echo += full + "\n"; } };
	for (int s = 0; s < depth(); s++) {
		int o = choose(10, "op");
		switch (o) {
		case 0: rec(LOG_EMERG); break; case 1: rec(LOG_ALERT); break; case 2: rec(LOG_CRIT); break; case 3: rec(LOG_ERR); break; case 4: rec(choose(2, "other") * 3 + LOG_WARNING); break;
		case 5: for (int i = 0; i < 25; i++) rec(i % 3); break;
		case 6: gConfig.set("Log.Alarms.Max", lim = 1); break; case 7: gConfig.set("Log.Alarms.Max", lim = 3); break;
		case 8: gConfig.remove("Log.Alarms.Max"); lim = 20; break;
		case 9: gConfig.set("Log.Alarms.Max", lim = 0); break;
		}
		std::list<S> a = gGetLoggerAlarms(); got.assign(a.begin(), a.end());
		MC_CHECK(got == want, "the list has %d alarms (last %s), expected %d (last %s)", (int)got.size(), got.empty() ? "" : got.back().c_str(), (int)want.size(), want.empty() ? "" : want.back().c_str());
		a.clear(); a.push_back("mine"); MC_CHECK(gGetLoggerAlarms().size() == want.size(), "the list returned is not a copy");
	}
	MC_CHECK(*gErr == echo, "echo on the console: %s", show(*gErr).c_str()); outcome(std::to_string(want.size()));
}
MC_SCENARIO(C29, large_limits, SEQ, "limits of every size up to 66 and around every round number and power of two up to 1025, before and after they are reached, with texts up to 5000 characters")
{
	unsigned lim = chooseSize(1026); begin(); gConfig.set("Log.Alarms.Max", 0); LOG(ALERT) << "drop all"; gConfig.set("Log.Alarms.Max", (long)lim); gConfig.set("Log.Level", "DEBUG"); settle(); gSys->clear(); gErr->clear(); std::deque<S> want; unsigned n = 0;
	auto check = [&](const char *when) { std::list<S> a = gGetLoggerAlarms(); MC_CHECK(a.size() == want.size(), "%s, with the limit %u, the list has %zu alarms, expected %zu", when, lim, a.size(), want.size()); MC_CHECK(std::equal(a.begin(), a.end(), want.begin()), "%s, with the limit %u, an alarm is wrong", when, lim); };
	auto add = [&](unsigned to) { for (; n < to; n++) { S t = std::to_string(n) + S(n % 50 == 7 ? n * 5 : n % 9, 'a'); logAt(n % 3, t); MC_CHECK(endsWith(gSys->back().text, t), "a record is cut"); want.push_back(gSys->back().text); while (want.size() > lim) want.pop_front(); } };
	add(lim / 2); check("half full"); add(lim ? lim - 1 : 0); check("nearly full"); add(lim); check("full"); add(lim + 1); check("one over"); add(2 * lim + 5); check("twice over"); 
	gConfig.set("Log.Alarms.Max", (long)(lim / 2 + 1)); lim = lim / 2 + 1; add(n + 1); check("lowered"); gConfig.set("Log.Alarms.Max", (long)lim + 3); lim += 3; add(n + 4); check("raised"); *gErr = ""; outcome(std::to_string(lim));
}

// ================================================================ C30: records
static const S TEXT[] = { "", "x", "ends in newline\n", "two\nlines", "%s%n%d %%", S(100, 'a'), S(5000, 'b'), S(70000, 'c') + "end", "tab\t\x01\x7f\xff\xc3\xa9", "\"';--", "\n", " " };
static const int NT = sizeof TEXT / sizeof *TEXT;
static S slurp(const char *f) { S r; FILE *p = fopen(f, "r"); if (!p) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p))) r.append(b, n); fclose(p); return r; }
static S where(int line, const char *fn) { return " " __FILE__ ":" + std::to_string(line) + ":" + fn + ": "; }
static S line(const S &s) { return s.empty() || s.back() != '\n' ? s + "\n" : s; }
MC_SCENARIO(C30, destinations, SEQFORK, "every text at every level and threshold to syslog, console and file")
{
	begin(); int dest = choose(8, "destinations"), how = choose(4, "opened by"), thr = choose(8, "threshold"); bool file = dest & 1; gLogToConsole = dest & 2; bool level = dest & 4;
	if (!file && how && how < 3) skip();
	gOpened = 0; if (how == 3) setv("Log.Level.Mutex.cpp", "ALERT");
	char path[] = "mclog.XXXXXX"; int fd = mkstemp(path); close(fd); S start;
	if (file && how == 0) gLogInitWithFile("prog", level ? LEV[thr] : NULL, LOG_LOCAL7, path);
	else if (how == 3) { if (file) { strcpy(gCmdName, "RMSC"); gConfig.set("Log.File", path); } size_t before = gSys->size(); { Log l("prog", level ? LEV[thr] : NULL, LOG_LOCAL7); } MC_CHECK(gSys->size() == before, "initialising by an object writes %s", show(gSys->back().text).c_str()); }
	else if (file) { strcpy(gCmdName, how == 1 ? "OpenBTS:" : "Other:"); gConfig.set("Log.File", path); gLogInit("prog", level ? LEV[thr] : NULL, LOG_LOCAL7); }
	else if (level) gLogInit("prog", LEV[thr], LOG_LOCAL7);
	bool open = file && how != 2; if (open) { start = slurp(path); MC_CHECK(lines(start).size() == 1 && !start.find("Starting at "), "the log file starts with %s", show(start).c_str()); }
	else MC_CHECK(slurp(path) == "", "a log file is written without being asked for");
	if (open) { gLogInit("prog", NULL, LOG_LOCAL7); MC_CHECK(slurp(path) == start, "a second initialisation truncates the log file"); }
	if (gOpened) { MC_CHECK(gIdent == "prog" && gFacility == LOG_LOCAL7, "syslog was opened for %s with facility %d", gIdent.c_str(), gFacility); if (how == 3) MC_CHECK(gMutexLogLevel == LOG_ALERT, "messages about locks are at level %d", gMutexLogLevel); } MC_CHECK(gOpened || !(file || level || how == 3), "syslog was not opened");
	if (level) MC_CHECK(gConfig.getStr("Log.Level") == LEV[thr], "the level is %s after initialising with %s", gConfig.getStr("Log.Level").c_str(), LEV[thr]);
	if (!level) { gConfig.set("Log.Level", LEV[thr]); } settle();
	S con, fil = start; for (int l = 0; l < 8; l++) for (int t = 0; t < NT; t++) {
		gSys->clear(); gErr->clear(); int ev = 0, ln = 0; const char *fn = __FUNCTION__; auto arg = [&]() { ev++; return TEXT[t]; };
		switch (l) { case 0: ln = __LINE__; LOG(EMERG) << arg(); break; case 1: ln = __LINE__; LOG(ALERT) << arg(); break; case 2: ln = __LINE__; LOG(CRIT) << arg(); break; case 3: ln = __LINE__; LOG(ERR) << arg(); break; case 4: ln = __LINE__; LOG(WARNING) << arg(); break; case 5: ln = __LINE__; LOG(NOTICE) << arg(); break; case 6: ln = __LINE__; LOG(INFO) << arg(); break; case 7: ln = __LINE__; LOG(DEBUG) << arg(); break; }
		bool on = l <= thr; MC_CHECK((int)gSys->size() == on && ev == on, "level %s with threshold %s: %d records, argument evaluated %d times", LEV[l], LEV[thr], (int)gSys->size(), ev);
		if (!on) { MC_CHECK(gErr->empty(), "a disabled record appears on the console"); continue; }
		const Rec &r = gSys->back(); MC_CHECK((r.prio & 7) == l, "priority %d for level %d", r.prio, l);
		MC_CHECK(!r.text.find(S(LEV[l]) + " ") && endsWith(r.text, where(ln, fn) + TEXT[t]), "record %s for text %s at %s", show(r.text).c_str(), show(TEXT[t]).c_str(), where(ln, fn).c_str());
		S c; if (l <= 2) c += r.text + "\n"; if (gLogToConsole) c += line(r.text); MC_CHECK(*gErr == c, "console shows %s, expected %s", show(*gErr).c_str(), show(c).c_str());
		if (open) { fil += line(r.text); MC_CHECK(slurp(path) == fil, "the log file ends with %s, expected %s", show(slurp(path).substr(fil.size() - r.text.size())).c_str(), show(r.text).c_str()); }
	}
	if (!open) MC_CHECK(slurp(path) == "", "a log file is written without being asked for");
	unlink(path); cases(8 * NT); outcome(std::to_string(dest) + std::to_string(thr));
}
MC_SCENARIO(C30, long_records, SEQFORK, "texts of every length up to 66 and around every round number and power of two up to 131072, to all destinations at once")
{
	unsigned n = chooseSize(131073); begin(); gLogToConsole = true; char path[] = "mclog.XXXXXX"; int fd = mkstemp(path); close(fd); gLogInitWithFile("prog", "DEBUG", LOG_LOCAL7, path); settle(); S start = slurp(path), fil = start;
	for (int l = 0; l < 8; l += 3) for (int nl = 0; nl < 2; nl++) { gSys->clear(); gErr->clear(); S t = S(n, 'a' + l) + (nl ? "\n" : ""); for (size_t i = 0; i + 1 < n; i += 97) t[i] = '%'; logAt(l, t); MC_CHECK(gSys->size() == 1, "%zu records", gSys->size()); S r = gSys->back().text; MC_CHECK(endsWith(r, ": " + t) && r.size() < n + 300, "a record of %u characters arrives as %zu", n, r.size()); S c; if (l <= 2) c += r + "\n"; c += line(r); MC_CHECK(*gErr == c, "the console shows %zu characters, expected %zu", gErr->size(), c.size()); fil += line(r); S g = slurp(path); MC_CHECK(g == fil, "the log file has %zu characters, expected %zu", g.size(), fil.size()); }
	unlink(path); outcome(std::to_string(n));
}
struct Nest { int n; }; static std::ostream &operator<<(std::ostream &o, const Nest &x) { if (x.n) { LOG(NOTICE) << "inner" << x.n << Nest{ x.n - 1 }; } return o << "<" << x.n << ">"; }
MC_SCENARIO(C30, nested, SEQ, "records made while another record is being made, at the top level and three deep")
{
	begin(); int d = choose(4, "depth"), l = choose(8, "level"); setv("Log.Level", LEV[7]); settle(); gSys->clear(); logAt(7, "start"); gSys->clear();
	{ std::ostringstream o; o << Nest{ d }; LOG(INFO) << "outer" << Nest{ d }; }
	MC_CHECK((int)gSys->size() == 2 * d + 1, "%d records, expected %d", (int)gSys->size(), 2 * d + 1); MC_CHECK(endsWith(gSys->back().text, ": outer<" + std::to_string(d) + ">"), "record %s", gSys->back().text.c_str());
	for (int i = 0; i < d; i++) MC_CHECK(endsWith((*gSys)[d + i].text, ": inner" + std::to_string(i + 1) + "<" + std::to_string(i) + ">"), "record %s", (*gSys)[d + i].text.c_str());
	gSys->clear(); gLogEarly(l, "early %d %s", 5, "text%d"); MC_CHECK(gSys->size() == 1 && ((*gSys)[0].prio & 7) == l && (*gSys)[0].text == "early 5 text%d", "early record %s", (*gSys)[0].text.c_str());
	{ int one = 1; S two = "t"; gSys->clear(); LOG(NOTICE) << LOGVAR(one) << LOGVAR2("name", two) << LOGVARP(one) << LOGHEX(one); MC_CHECK(gSys->size() == 1 && endsWith((*gSys)[0].text, ":  one=1 name=t one=(1) one=0x1"), "record %s", (*gSys)[0].text.c_str()); }
	outcome(std::to_string(d));
}

// ================================================================ C45: nothing is held back
#include "balance.h"
MC_SCENARIO(C45, log_calls, SEQ, "records of every level, alarms beyond their limit, level queries and group set-up, repeated")
{
	begin(); static const char *const W[] = { "a record", "alarms", "levels", "groups", "early", "start-up", "start-up with a file that cannot be opened", "reading the alarms", "console" }; int w = choose(9, "call"); if (w == 6) setv("Log.File", "/no/such/dir/file"); if (w == 3) { setv("Log.Group.SIP", "DEBUG"); setv("Log.Group.Watch.SIP", "DEBUG"); setv("Log.Group.GSM", "bogus"); }
	if (w == 1) setv("Log.Alarms.Max", "5"); strcpy(gCmdName, "OpenBTS:");
	balance::repeat(W[w], [&] {
		for (int i = 0; i < 3; i++) {
			switch (w) {
			case 0: for (int l = 3; l <= 7; l++) Log(l).get() << "text " << l; LOG(NOTICE) << "x"; break; case 1: for (int k = 0; k < 9; k++) { Log(LOG_ALERT).get() << "alarm"; Log(LOG_CRIT).get() << S(3000, 'c'); } break;
			case 2: for (int k = 0; k < 1200; k++) gGetLoggingLevel(k % 2 ? "file.cpp" : "other.cpp"); break; case 3: gLogGroup.setAll(); gLogGroup.LogGroupInit(); break; case 4: gLogEarly(LOG_INFO, "early %s", "x"); break;
			case 5: gLogInit("prog", "INFO", LOG_LOCAL7); break; case 6: gLogInit("prog", NULL, LOG_LOCAL7); gLogInitWithFile("prog", NULL, LOG_LOCAL7, (char *)"/no/such/dir/file"); break; case 7: gGetLoggerAlarms(); break;
			case 8: gLogToConsole = true; Log(LOG_NOTICE).get() << "console"; Log(LOG_NOTICE).get() << "line\n"; gLogToConsole = false; break;
			}
		}
		delete gSys; gSys = new std::vector<Rec>; delete gErr; gErr = new S;
	}, w == 2 ? 4 : 3); outcome(W[w]);
}
