// Drivers for the console macros of Threads.h: C47.
#include "common.h"
#include "Threads.h"
#include "Timeval.h"
#include <iostream>
#include <sstream>
#include <set>
#include <math.h>
#include <stdlib.h>
#include "sizes.h"
#include "main.inc"
using namespace mc;
typedef std::string S;
extern "C" void syslog(int, const char *, ...) {}
extern "C" void __syslog_chk(int, int, const char *, ...) {}

struct Out : std::streambuf {
	S s; bool flushed;
	Out() : flushed(true) {}
	void put(const char *p, size_t n) { point(this); raceIgnore(1); s.append(p, n); flushed = false; raceIgnore(-1); }
	int overflow(int c) override { if (c != EOF) { char x = c; put(&x, 1); } return 0; }
	std::streamsize xsputn(const char *p, std::streamsize n) override { put(p, n); return n; }
	int sync() override { flushed = true; return 0; }
};
struct Console {
	Out o[2]; std::streambuf *old[2]; std::ios::fmtflags fl[2];
	Console() { old[0] = std::cout.rdbuf(&o[0]); old[1] = std::cerr.rdbuf(&o[1]); fl[0] = std::cout.flags(); fl[1] = std::cerr.flags(); std::cerr.unsetf(std::ios::unitbuf); }
	~Console() { std::cout.rdbuf(old[0]); std::cerr.rdbuf(old[1]); std::cout.flags(fl[0]); std::cerr.flags(fl[1]); }
};
struct Line { int stream, thread, k; S text; double from, to; S self; };
enum { PLAIN, PARTS, HEX, NUMBER, LONG, EMPTY, NKIND };
static int say(int stream, int kind, int id)	// returns the line number of an error line, which starts with the place
{
	int n = 1000 + id;
	if (!stream) switch (kind) {
		case PLAIN: COUT("plain" << id); return 0;
		case PARTS: COUT("a" << id << "b" << 'c' << n); return 0;
		case HEX: COUT("hex " << std::hex << n << " id " << id); return 0;
		case NUMBER: COUT(n); return 0;
		case LONG: COUT(S(5000, 'x') << id); return 0;
		default: COUT(""); return 0;
	}
	switch (kind) {
		case PLAIN: CERR("plain" << id); return __LINE__;
		case PARTS: CERR("a" << id << "b" << 'c' << n); return __LINE__;
		case HEX: CERR("hex " << std::hex << n << " id " << id); return __LINE__;
		case NUMBER: CERR(n); return __LINE__;
		case LONG: CERR(S(5000, 'x') << id); return __LINE__;
		default: CERR(""); return __LINE__;
	}
}
static S expected(int kind, int id)
{
	std::ostringstream o; int n = 1000 + id;
	switch (kind) { case PLAIN: o << "plain" << id; break; case PARTS: o << "a" << id << "bc" << n; break; case HEX: o << "hex " << std::hex << n << " id " << id; break; case NUMBER: o << n; break; case LONG: o << S(5000, 'x') << id; break; }
	return o.str();
}
static double secs() { return Timeval().seconds(); }
struct Run {
	Console con; std::vector<Line> want; int nthr;
	void line(int t, int k, int stream, int kind) {
		int id = t * 10 + k; double a = secs(); std::ostringstream self; self << pthread_self();
		int at = say(stream, kind, id);
		double b = secs(); raceIgnore(1); S e = expected(kind, id); if (stream) e = S(__FILE__) + ":" + std::to_string(at) + ": " + e;
		want.push_back({ stream, t, k, e, a, b, self.str() }); raceIgnore(-1);
	}
	void check() {
		for (int st = 0; st < 2; st++) {
			S &s = con.o[st].s; size_t b = 0; std::vector<bool> used(want.size()); std::vector<int> last(nthr, -1); size_t n = 0; double prev = 0;
			while (b < s.size()) {
				size_t e = s.find('\n', b); MC_CHECK(e != S::npos, "the last line on stream %d has no end", st);
				S l = s.substr(b, e - b); b = e + 1; n++;
				char *q; double tm = strtod(l.c_str(), &q); size_t c = l.find(": "); MC_CHECK(*q == ' ' && c != S::npos, "line without time and thread: %.200s", l.c_str());
				S self(q + 1, l.c_str() + c - q - 1), text = l.substr(c + 2); bool ok = false; double r = 2e-6;
				for (size_t i = 0; i < want.size() && !ok; i++) {
					Line &w = want[i]; if (used[i] || w.stream != st || w.text != text || w.self != self || w.k < last[w.thread]) continue;
					used[i] = ok = true; MC_CHECK(tm >= w.from - r && tm <= w.to + r, "line %s is dated %f, it was written from %f to %f", text.c_str(), tm, w.from, w.to); last[w.thread] = w.k;
				}
				MC_CHECK(ok, "nobody wrote this line then: %.200s", l.c_str());
				MC_CHECK(tm >= prev - r, "a line dated %f follows one dated %f", tm, prev); prev = tm;
			}
			size_t m = 0; for (auto &w : want) m += w.stream == st; MC_CHECK(n == m, "%zu lines on stream %d, %zu were written", n, st, m);
			MC_CHECK(con.o[st].flushed, "stream %d is not flushed", st);
		}
		bool free = gStreamLock.trylock(); MC_CHECK(free && gStreamLock.lockcnt() == 1, "the console stays locked"); gStreamLock.unlock();
	}
};
MC_SCENARIO(C47, two_writers, CONC, "two threads, one or two lines each, every kind of line, both streams", o.quick = 2, o.thorough = 4, o.timeAdvance = false)
{
	setClock(1700000000, 123456); Run r; r.nthr = 2; int k0 = choose(NKIND, "kind"), k1 = choose(NKIND, "kind"), st = choose(4, "streams"), n = 1 + choose(2, "lines");
	for (int t = 0; t < 2; t++) spawn([&, t] { for (int k = 0; k < n; k++) { r.line(t, k, st >> t & 1, k ? NUMBER : t ? k1 : k0); if (t) usleep(1500); } });
	joinAll(); r.check(); outcome(std::to_string(st) + (r.con.o[0].s.find("plain0") < r.con.o[0].s.find("plain10") ? "a" : "b"));
}
MC_SCENARIO(C47, three_writers, CONC, "three threads write one line each", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{
	setClock(1700000000, 999999); Run r; r.nthr = 3; int st = choose(8, "streams"), k = choose(3, "kind");
	for (int t = 0; t < 3; t++) spawn([&, t] { usleep(t); r.line(t, 0, st >> t & 1, t == 1 ? k : NUMBER); });
	joinAll(); r.check(); outcome(std::to_string(st));
}
MC_SCENARIO(C47, clock, CONC, "two threads write a line each while time passes at any point", o.quick = 2, o.thorough = 3, o.races = false)
{
	setClock(1700000000, 999000); Run r; r.nthr = 2; int st = choose(4, "streams");
	for (int t = 0; t < 2; t++) spawn([&, t] { r.line(t, 0, st >> t & 1, HEX); usleep(1000); r.line(t, 1, st >> t & 1, NUMBER); });
	joinAll(); r.check(); outcome(std::to_string(st));
}
static int inner(Run &r, int t, int st) { r.line(t, 0, st, PLAIN); return 5; }
MC_SCENARIO(C47, nested, CONC, "a line whose text needs another line, and lines written under the held console lock", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{
	Run r; r.nthr = 2; int how = choose(2, "how"), st = choose(4, "streams");
	spawn([&] {
		if (how) { ScopedLock l(gStreamLock); r.line(0, 0, st & 1, PLAIN); r.line(0, 1, st & 1, NUMBER); }
		else { int v = 0; lockCout(); v = inner(r, 0, 1); unlockCout(); MC_CHECK(v == 5, "nested"); }
	});
	spawn([&] { r.line(1, 0, how ? st >> 1 : 1, HEX); });
	joinAll();
	if (!how) { S &s = r.con.o[0].s; MC_CHECK(!s.empty() && s.back() == '\n' && s.find(": ") != S::npos, "outer line"); s.clear(); }
	r.check(); outcome(std::to_string(how));
}
MC_SCENARIO(C47, sizes, CONC, "lines of every length around round numbers and powers of two, past 131072 characters, and up to 300 lines of two threads", o.quick = 0, o.thorough = 0, o.timeAdvance = false, o.maxSteps = 100000000)
{
	unsigned n = chooseSize(131073); int st = choose(2, "stream"); { Console c; S x(n, 'q'); int at = 0; if (n) x[n / 2] = '%'; if (st) { CERR(x); at = __LINE__; } else { COUT(x); } S e = (st ? S(__FILE__) + ":" + std::to_string(at) + ": " : S()) + x + "\n", &s = c.o[st].s; size_t p = s.find(": "); MC_CHECK(p != S::npos && s.substr(p + 2) == e && c.o[!st].s.empty(), "a line of %u characters is written as %zu", n, s.size()); }
	if (n <= 300) { Run r; r.nthr = 2; for (int t = 0; t < 2; t++) spawn([&, t] { for (unsigned k = 0; k < n; k++) { r.line(t, k, st, t ? NUMBER : PARTS); if (k % 5 == 0) usleep(1); } }); joinAll(); r.check(); }
	outcome(std::to_string(n));
}
