// Drivers for the lock, signal, thread and reference-count wrappers: C09 C10 C11 C12 C13 C14.
#include "common.h"
#include "Threads.h"
#include "Timeval.h"
#include "Utils.h"
#include <syslog.h>
#include <stdexcept>
#include <climits>
#include "sizes.h"
#include "main.inc"
using namespace mc;

extern "C" void syslog(int, const char *, ...) {}
extern "C" void vsyslog(int, const char *, va_list) {}
extern "C" void __syslog_chk(int, int, const char *, ...) {}
extern "C" void __vsyslog_chk(int, int, const char *, va_list) {}

static const int phases[] = { 0, 500000, 999999, 1000000 - 50000, 1000000 - 20000 };
static const char FILE1[] = "driver.cpp";

// ================================================================ C09: Mutex
enum { LOCK, LOCKF, TRY, TRYF, TIMED, TIMED0, REL, CNT };
static const char *const lkn[] = { "lock", "lock(file,line)", "trylock", "trylock(file,line)", "timedlock(20)", "timedlock(0)", "unlock", "lockcnt" };
struct Own { int t, n; };
static bool mutexStep(Own &s, const Op &o)
{
	switch (o.kind) {
	case LOCK: case LOCKF: if (s.n && s.t != o.thread) return false; s.t = o.thread; s.n++; return true;
	case TRY: case TRYF: case TIMED: case TIMED0:
		if (!o.res) return s.n && s.t != o.thread;
		if (s.n && s.t != o.thread) return false;
		s.t = o.thread; s.n++; return true;
	case REL: if (!s.n || s.t != o.thread) return false; s.n--; return true;
	case CNT: return o.res == s.n;
	}
	return false;
}
struct MutexRun {
	History h; Mutex m; long shared; bool free_;
	MutexRun() : shared(0) {}
	bool acq(int k) {
		int id = h.call(k); int64_t s = nowUs(); bool before = timeoutsFired();
		bool ok = true;
		switch (k) {
		case LOCK: m.lock(); break;
		case LOCKF: m.lock(FILE1, 42); break;
		case TRY: ok = m.trylock(); break;
		case TRYF: ok = m.trylock(FILE1, 43); break;
		case TIMED: ok = m.timedlock(20); break;
		case TIMED0: ok = m.timedlock(0); break;
		}
		h.ret(id, ok);
		double ms = (nowUs() - s) / 1000.0;
		if (!ok && k == TIMED) MC_CHECK(ms >= 20, "timedlock(20) gave up after %g ms", ms);
		if (k == TIMED && !before && !timeoutsFired()) MC_CHECK(ms <= 21, "timedlock(20) took %g ms", ms);
		if (k == TRY || k == TRYF) MC_CHECK(ms == 0 || timeoutsFired(), "trylock waited");
		note("%s -> %d", lkn[k], ok);
		return ok;
	}
	void rel() { int id = h.call(REL); m.unlock(); h.ret(id); }
	void cnt() { int id = h.call(CNT); int n = m.lockcnt(); h.ret(id, n); }
	// one critical section entered in manner k, nested k2 (or -1), held for `hold` us
	void section(int k, int k2, int hold) {
		if (!acq(k)) return;
		int id = h.call(CNT); int n = m.lockcnt(); h.ret(id, n);
		long v = shared; if (hold) usleep(hold); 
		if (k2 >= 0) { bool in = acq(k2); MC_CHECK(in, "a thread that holds the mutex could not take it again by %s", lkn[k2]); cnt(); point(); cnt(); rel(); }
		point();
		shared = v + 1;		// unordered accesses are reported by the race detector
		cnt();
		rel();
	}
	void finish(long entered) {
		cnt();
		MC_CHECK(linearizable(h.all(), Own{ -1, 0 }, mutexStep), "ownership or lock count is wrong: %s", h.str(lkn).c_str());
		long in = 0; for (auto &o : h.all()) if (o.kind <= TIMED0 && o.res) in++;
		(void)in; (void)entered;
		std::string s; for (auto &o : h.all()) if (o.kind < REL) { s += lkn[o.kind]; s += o.res ? "+ " : "- "; } outcome(s);
	}
};
MC_SCENARIO(C09, timed_values, CONC, "timed locks of every magnitude against a holder that releases before, at, after the limit or never", o.quick = 2, o.thorough = 3)
{
	setClock(1700000000, phases[choose(5, "clock phase")]);
	static const int T[] = { INT_MIN, -100000, -1, 0, 1, 2, 999, 1000, 1001, 60000, 86400000, 2000000000, INT_MAX }; int t = T[choose(13, "time-out")]; int64_t lim = t > 0 ? t * 1000LL : 0;
	int when = choose(5, "released"); int64_t rel = when == 0 ? -1 : when == 1 ? 500 : when == 2 ? lim / 2 : when == 3 ? lim + 5000000 : lim > 3000 ? lim - 2000 : 1500; int depth_ = 1 + choose(2, "nesting");
	Mutex *m = new Mutex; bool *got = new bool(false); int64_t *el = new int64_t(-1), *freed = new int64_t(-1); int *cnt = new int(0); bool *done = new bool(false);
	for (int i = 0; i < depth_; i++) m->lock();
	int64_t t0 = nowUs();
	int w = spawn([=] { *got = m->timedlock(t); *el = nowUs() - t0; if (*got) { *cnt = m->lockcnt(); m->unlock(); } *done = true; }, "waiter");
	if (rel < 0) join(w); else { struct timespec ts = { (time_t)(rel / 1000000), (long)(rel % 1000000 * 1000) }; nanosleep(&ts, 0); }
	for (int i = 0; i < depth_; i++) m->unlock();
	*freed = nowUs() - t0;
	if (rel >= 0) joinAll();
	if (!timeoutsFired()) {
		if (!*got) MC_CHECK(*el >= lim && *el <= lim + 1000, "timedlock(%d) gave up after %lld us", t, (long long)*el);
		if (rel >= 0 && rel < lim) MC_CHECK(*got && *el == *freed, "timedlock(%d) did not get the mutex freed after %lld us (returned after %lld us)", t, (long long)*freed, (long long)*el);
	} else if (!*got) MC_CHECK(*el >= lim, "timedlock(%d) gave up after %lld us", t, (long long)*el);
	if (*got) MC_CHECK(*cnt == 1, "lock count is %d", *cnt);
	MC_CHECK(m->lockcnt() == 0 && m->trylock(), "the mutex is not free at the end"); m->unlock();
	outcome(*got ? "got it" : "timed out"); delete m;
}
static void c09_two_threads()
{
	setClock(1700000000, phases[choose(5, "clock phase")]);
	MutexRun *r = new MutexRun;
	int a = choose(6, "manner"), an = choose(4, "nesting") * 2 - 2, b = choose(6, "manner");
	static const int holds[] = { 0, 10000, 50000 };
	int ha = holds[choose(3, "hold")];
	spawn([=] { r->section(a, an < 0 ? -1 : an, ha); });
	spawn([=] { r->section(b, -1, 0); });
	joinAll();
	r->finish(0);
	delete r;
}
MC_SCENARIO(C09, two_threads, CONC, "two threads, every way to lock, every nesting, holds of 0/10/50 ms", o.quick = 2, o.thorough = 4, o.timeAdvance = false)
{ c09_two_threads(); }
MC_SCENARIO(C09, two_threads_clock, CONC, "two threads, every way to lock, every nesting, holds of 0/10/50 ms" ", the clock may run on at any point", o.quick = 2, o.thorough = 4, o.races = false)
{ c09_two_threads(); }
static void c09_three_threads()
{
	MutexRun *r = new MutexRun;
	int c[3]; for (int i = 0; i < 3; i++) { c[i] = choose(6, "manner"); if (i && c[i] < c[i - 1]) skip(); }
	for (int i = 0; i < 3; i++) { int k = c[i]; spawn([=] { r->section(k, -1, k == LOCK ? 30000 : 0); }); }
	joinAll();
	r->finish(0);
	delete r;
}
MC_SCENARIO(C09, three_threads, CONC, "three threads, every way to lock", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{ c09_three_threads(); }
MC_SCENARIO(C09, three_threads_clock, CONC, "three threads, every way to lock" ", the clock may run on at any point", o.quick = 2, o.thorough = 3, o.races = false)
{ c09_three_threads(); }
static void c09_repeated()
{
	MutexRun *r = new MutexRun;
	int a = choose(6, "manner"), b = choose(6, "manner"), c = choose(3, "manner") * 2;
	spawn([=] { r->section(a, -1, 0); r->section(c, -1, 0); });
	spawn([=] { r->section(b, -1, 0); r->section(c, -1, 10000); });
	joinAll();
	r->finish(0);
	delete r;
}
MC_SCENARIO(C09, repeated, CONC, "two threads lock twice in a row", o.quick = 2, o.thorough = 4, o.timeAdvance = false)
{ c09_repeated(); }
MC_SCENARIO(C09, repeated_clock, CONC, "two threads lock twice in a row" ", the clock may run on at any point", o.quick = 2, o.thorough = 4, o.races = false)
{ c09_repeated(); }
MC_SCENARIO(C09, long_block, CONC, "a holder keeps a mutex for seconds while others block with and without a source location", o.quick = 1, o.thorough = 2, o.races = false)
{
	setClock(1700000000, phases[choose(5, "clock phase")]);
	MutexRun *r = new MutexRun;
	int a = choose(2, "manner"), b = choose(2, "manner");
	static const int hs[] = { 999000, 1000000, 1001000, 5000000 };
	int h = hs[choose(4, "hold")];
	spawn([=] { r->section(a ? LOCKF : LOCK, -1, h); });
	spawn([=] { r->section(LOCKF, -1, 0); });
	spawn([=] { r->section(b ? LOCKF : LOCK, -1, 0); });
	joinAll();
	r->finish(0);
	MC_CHECK(r->shared == 3, "an update under the mutex was lost (%ld of 3)", r->shared);
	delete r;
}
static void c09_deep_recursion()
{
	MutexRun *r = new MutexRun;
	int n = 1 + choose(9, "depth"), k = choose(6, "manner"), k2 = choose(6, "manner");
	spawn([=] {
		int in = 0; std::vector<int> how;
		for (int i = 0; i < n; i++) { if (r->acq(i & 1 ? k2 : k)) { in++; how.push_back(i & 1 ? k2 : k); } else MC_CHECK(in == 0, "a nested lock failed"); }
		if (in) {
			r->cnt(); std::string s = r->m.mutext(); MC_CHECK(s.find("lockcnt=" + std::to_string(in)) != std::string::npos, "description %s with %d locks", s.c_str(), in);
			for (int f = 0; f < 2; f++) { int lo = 0, hi = 0, got = 0; const char *w = f ? "driver.cpp:43" : "driver.cpp:42"; for (int i = 0; i < in; i++) if (how[i] == (f ? TRYF : LOCKF)) { hi++; lo += i < 5; } for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) got++; MC_CHECK(got >= lo && got <= hi, "description %s names %s %d times, it was taken there %d times", s.c_str(), w, got, hi); }
		}
		while (in--) r->rel();
	});
	spawn([=] { r->section(TRY, -1, 0); });
	joinAll();
	r->finish(0);
	delete r;
}
MC_SCENARIO(C09, deep_recursion, CONC, "recursion deeper than the recorded locations", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{ c09_deep_recursion(); }
MC_SCENARIO(C09, deep_recursion_clock, CONC, "recursion deeper than the recorded locations" ", the clock may run on at any point", o.quick = 2, o.thorough = 3, o.races = false)
{ c09_deep_recursion(); }

MC_SCENARIO(C09, vast_recursion, CONC, "a mutex taken up to 70000 times over by its holder, in every way to lock, is free to others after as many unlocks and not before", o.quick = 0, o.thorough = 1, o.timeAdvance = false, o.races = false, o.maxSteps = 100000000)
{
	int n = chooseSize(thorough() ? 70001 : 5001, 65600), k = choose(6, "manner"); if (!n) skip(); if (n == 65600 && k > 3) skip(); Mutex *m = new Mutex; setClock(1700000000, 0);
	auto held = [=](int left) { MC_CHECK(m->lockcnt() == left, "locked %d times, the count says %d", left, m->lockcnt()); join(spawn([=] { bool got = m->trylock(); MC_CHECK(got == (left == 0), left ? "with %d locks left another thread gets the mutex" : "after the last unlock (%d left) the mutex is not free", left); if (got) m->unlock(); })); };
	for (int i = 1; i <= n; i++) { bool ok = true; switch (k) { case LOCK: m->lock(); break; case LOCKF: m->lock(FILE1, 42); break; case TRY: ok = m->trylock(); break; case TRYF: ok = m->trylock(FILE1, 43); break; case TIMED: ok = m->timedlock(20); break; default: ok = m->timedlock(0); } MC_CHECK(ok, "the holder does not get the mutex the %dth time", i); }
	held(n); std::string t = m->mutext(); MC_CHECK(t.find("lockcnt=" + std::to_string(n)) != std::string::npos, "description %s with %d locks", t.c_str(), n);
	for (int left = n - 1; left >= 0; left--) { m->unlock(); if (left < 2 || left == n / 2 || left == n - 256 || left == n - 65536) held(left); }
	delete m; outcome(std::to_string(n));
}

// ================================================================ C10: scoped locks
static const int perm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
struct Multi {
	Mutex *m[3]; int holder[3]; long data[3];
	Multi() { for (int i = 0; i < 3; i++) { m[i] = new Mutex; data[i] = 0; holder[i] = 0; } }
	~Multi() { for (int i = 0; i < 3; i++) delete m[i]; }
	void touch(int i) { long v = data[i]; point(); data[i] = v + 1; }
	// order: which mutex is wA,wB,wC; own: bits (in argument order) locked by the caller first
	void use(const int *p, int n, int own, bool file) {
		for (int i = 0; i < n; i++) if (own >> i & 1) { m[p[i]]->lock(); }
		{
			if (n == 3) {
				if (file) { ScopedLockMultiple l(own, *m[p[0]], *m[p[1]], *m[p[2]], FILE1, 7); in(p, n); }
				else { ScopedLockMultiple l(own, *m[p[0]], *m[p[1]], *m[p[2]]); in(p, n); }
			} else {
				if (file) { ScopedLockMultiple l(own, *m[p[0]], *m[p[1]], FILE1, 8); in(p, n); }
				else { ScopedLockMultiple l(own, *m[p[0]], *m[p[1]]); in(p, n); }
			}
		}
		for (int i = 0; i < n; i++) if (own >> i & 1) {
			MC_CHECK(m[p[i]]->lockcnt() == 1, "a mutex owned before the scope has lock count %d after it", m[p[i]]->lockcnt());
			touch(p[i]);
			m[p[i]]->unlock();	// fails the run if this thread does not hold it
		}
	}
	void in(const int *p, int n) { for (int i = 0; i < n; i++) { MC_CHECK(m[p[i]]->lockcnt() == 1, "a mutex has lock count %d inside the scope", m[p[i]]->lockcnt()); touch(p[i]); } }
	void finish(int runs, int extra[3]) {
		for (int i = 0; i < 3; i++) { MC_CHECK(m[i]->trylock(), "a mutex is still locked at the end"); MC_CHECK(m[i]->lockcnt() == 1, "lock count off at the end"); m[i]->unlock(); }
	}
};
static void c10_three_of_three()
{
	Multi *M = new Multi;
	int pa = choose(6, "order"), pb = choose(6, "order"), oa = choose(7, "owned"), ob = choose(7, "owned");
	if (pa) skip();		// by renaming the mutexes, thread A's order can be fixed
	if (__builtin_popcount(oa) > 1 || __builtin_popcount(ob) > 1) {
		// owning two beforehand is only used when the caller took them in the global order
		for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) {
			if ((oa >> i & 1) && (oa >> j & 1) && perm[pa][i] > perm[pa][j]) skip();
			if ((ob >> i & 1) && (ob >> j & 1) && perm[pb][i] > perm[pb][j]) skip();
		}
	}
	spawn([=] { M->use(perm[pa], 3, oa, false); });
	spawn([=] { M->use(perm[pb], 3, ob, false); });
	joinAll();
	int e[3] = { 0 }; M->finish(2, e);
	outcome("done");
	delete M;
}
MC_SCENARIO(C10, three_of_three, CONC, "two threads, all orders of three mutexes, all sets owned beforehand", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{ c10_three_of_three(); }
MC_SCENARIO(C10, three_of_three_clock, CONC, "two threads, all orders of three mutexes, all sets owned beforehand" ", the clock may run on at any point", o.quick = 2, o.thorough = 3, o.races = false)
{ c10_three_of_three(); }
static void c10_two_of_three()
{
	Multi *M = new Multi;
	int o1 = choose(3, "owned"), o2 = choose(3, "owned"), o3 = choose(3, "owned"), rev = choose(2, "order");
	static const int ab[] = { 0, 1 }, bc[] = { 1, 2 }, ca[] = { 2, 0 }, ac[] = { 0, 2 };
	spawn([=] { M->use(ab, 2, o1, false); });
	spawn([=] { M->use(bc, 2, o2, false); });
	spawn([=] { M->use(rev ? ac : ca, 2, o3, false); });
	joinAll();
	int e[3] = { 0 }; M->finish(3, e);
	outcome("done");
	delete M;
}
MC_SCENARIO(C10, two_of_three, CONC, "three threads each lock a different pair, all owned sets", o.quick = 1, o.thorough = 2, o.timeAdvance = false)
{ c10_two_of_three(); }
MC_SCENARIO(C10, two_of_three_clock, CONC, "three threads each lock a different pair, all owned sets" ", the clock may run on at any point", o.quick = 1, o.thorough = 2, o.races = false)
{ c10_two_of_three(); }
static void c10_with_location()
{
	Multi *M = new Multi;
	int pb = choose(6, "order"), oa = choose(4, "owned"), ob = choose(4, "owned");
	if (oa == 3) oa = 4; if (ob == 3) ob = 4;
	spawn([=] { M->use(perm[0], 3, oa, true); });
	spawn([=] { M->use(perm[pb], 3, ob, true); });
	joinAll();
	int e[3] = { 0 }; M->finish(2, e);
	outcome("done");
	delete M;
}
MC_SCENARIO(C10, with_location, CONC, "scopes that carry a source location", o.quick = 1, o.thorough = 2, o.timeAdvance = false)
{ c10_with_location(); }
MC_SCENARIO(C10, with_location_clock, CONC, "scopes that carry a source location" ", the clock may run on at any point", o.quick = 1, o.thorough = 2, o.races = false)
{ c10_with_location(); }
static void c10_against_plain_locks()
{
	Multi *M = new Multi;
	int pa = choose(6, "order"), oa = choose(4, "owned"), x = choose(3, "mutex"), y = choose(3, "mutex");
	if (oa == 3) oa = 4;
	spawn([=] { M->use(perm[pa], 3, oa, false); });
	spawn([=] { ScopedLock l(*M->m[x]); M->touch(x); });
	spawn([=] { ScopedLock l(*M->m[y], FILE1, 3); M->touch(y); });
	joinAll();
	int e[3] = { 0 }; M->finish(1, e);
	outcome("done");
	delete M;
}
MC_SCENARIO(C10, against_plain_locks, CONC, "a multiple lock against threads that lock single mutexes", o.quick = 2, o.thorough = 3, o.timeAdvance = false)
{ c10_against_plain_locks(); }
MC_SCENARIO(C10, against_plain_locks_clock, CONC, "a multiple lock against threads that lock single mutexes" ", the clock may run on at any point", o.quick = 2, o.thorough = 3, o.races = false)
{ c10_against_plain_locks(); }
// The mutexes are never all free: another thread always takes the next one before it gives up the one it has, up to 14 times over.
MC_SCENARIO(C10, contended, CONC, "a multiple lock whose attempts keep failing because another thread always holds one of the mutexes", o.quick = 1, o.thorough = 3, o.timeAdvance = false, o.fixedOrder = true)
{
	Multi *M = new Multi;
	int n = 2 + choose(2, "mutexes"), pa = choose(6, "order"), own = choose(4, "owned"), h = choose(n, "held"), dir = 1 + choose(2, "direction"), steps = choose(8, "steps") * 2, file = choose(2, "location");
	if (own == 3) own = 4;
	if ((n == 2 && (pa > 1 || own == 4 || dir == 2))) skip();
	static const int two[2][2] = { { 0, 1 }, { 1, 0 } }; const int *p = n == 2 ? two[pa] : perm[pa];
	M->m[h]->lock();
	spawn([=] { M->use(p, n, own, file); });
	for (int k = 0; k < steps; k++) { if (file) point(); else quiesce(); int next = (h + dir) % n; M->m[next]->lock(); M->m[h]->unlock(); h = next; }
	M->m[h]->unlock();
	joinAll(); int e[3] = { 0 }; M->finish(1, e); outcome("done"); delete M;
}
static void c10_scoped_lock()
{
	Multi *M = new Multi;
	int how = choose(4, "exit"), how2 = choose(4, "exit"), file = choose(2, "location");
	auto body = [=](int h) {
		try {
			if (file) { ScopedLock l(*M->m[0], FILE1, 5); MC_CHECK(M->m[0]->lockcnt() == 1, "lock count"); if (h == 1) { ScopedLock l2(*M->m[0]); M->touch(0); if (h == 1) throw 5; } M->touch(0); if (h == 2) throw std::runtime_error("x"); }
			else { ScopedLock l(*M->m[0]); if (h == 3) { ScopedLock l2(*M->m[0]); MC_CHECK(M->m[0]->lockcnt() == 2, "lock count"); M->touch(0); } MC_CHECK(M->m[0]->lockcnt() == 1, "lock count"); M->touch(0); if (h == 1) throw 1; }
		} catch (int) { } catch (std::exception &) { }
	};
	spawn([=] { body(how); }); spawn([=] { body(how2); });
	joinAll();
	int e[3] = { 0 }; M->finish(2, e);
	outcome("done");
	delete M;
}
MC_SCENARIO(C10, scoped_lock, CONC, "scoped lock released on return, nesting and exception", o.quick = 3, o.thorough = 99, o.timeAdvance = false)
{ c10_scoped_lock(); }
MC_SCENARIO(C10, scoped_lock_clock, CONC, "scoped lock released on return, nesting and exception" ", the clock may run on at any point", o.quick = 2, o.thorough = 3, o.races = false)
{ c10_scoped_lock(); }

// ================================================================ C11: read/write lock
struct RwRun {
	RWLock l; int rd, wr; long data; History h;
	RwRun() : rd(0), wr(0), data(0) {}
};
enum { RR, WW, TR, TW, RREL, WREL };
static const char *const rwn[] = { "rlock", "wlock", "tryrlock", "trywlock", "unlock(read)", "unlock(write)" };
struct RwS { int r, w; };
static bool rwStep(RwS &s, const Op &o)
{
	switch (o.kind) {
	case RR: if (s.w) return false; s.r++; return true;
	case WW: if (s.w || s.r) return false; s.w = 1; return true;
	case TR: if (!o.res) return s.w; if (s.w) return false; s.r++; return true;
	case TW: if (!o.res) return s.w || s.r; if (s.w || s.r) return false; s.w = 1; return true;
	case RREL: if (!s.r) return false; s.r--; return true;
	case WREL: if (!s.w) return false; s.w = 0; return true;
	}
	return false;
}
static void rwSection(RwRun *r, int k, int twice)
{
	for (int i = 0; i <= twice; i++) {
		int id = r->h.call(k); bool ok = true;
		switch (k) { case RR: r->l.rlock(); break; case WW: r->l.wlock(); break; case TR: ok = r->l.tryrlock(); break; case TW: ok = r->l.trywlock(); break; }
		r->h.ret(id, ok);
		note("%s -> %d", rwn[k], ok);
		if (!ok) continue;
		bool w = k == WW || k == TW;
		long v = r->data; point(); if (w) r->data = v + 1; else MC_CHECK(r->data == v, "data changed under a reader");
		int id2 = r->h.call(w ? WREL : RREL); r->l.unlock(); r->h.ret(id2);
	}
}
static void rwFinish(RwRun *r)
{
	MC_CHECK(linearizable(r->h.all(), RwS{0,0}, rwStep), "reader/writer rules broken: %s", r->h.str(rwn).c_str());
	MC_CHECK(r->l.trywlock(), "the lock is not free at the end"); r->l.unlock();
	std::string s; for (auto &o : r->h.all()) if (o.kind < RREL) { s += rwn[o.kind]; s += o.res ? "+ " : "- "; } outcome(s);
	delete r;
}
MC_SCENARIO(C11, three_threads, CONC, "three threads, every way to lock", o.quick = 3, o.thorough = 99)
{ RwRun *r = new RwRun; int c[3]; for (int i = 0; i < 3; i++) { c[i] = choose(4, "manner"); if (i && c[i] < c[i-1]) skip(); } for (int i = 0; i < 3; i++) { int k = c[i]; spawn([=] { rwSection(r, k, 0); }); } joinAll(); rwFinish(r); }
MC_SCENARIO(C11, twice, CONC, "two threads, two sections each", o.quick = 3, o.thorough = 99)
{ RwRun *r = new RwRun; int a = choose(4, "manner"), b = choose(4, "manner"), c = choose(4, "manner"), d = choose(4, "manner"); spawn([=] { rwSection(r, a, 0); rwSection(r, b, 0); }); spawn([=] { rwSection(r, c, 0); rwSection(r, d, 0); }); joinAll(); rwFinish(r); }
MC_SCENARIO(C11, readers_share, CONC, "readers must be able to hold the lock together", o.quick = 99, o.thorough = 99)
{
	RwRun *r = new RwRun; int how = choose(2, "manner"), how2 = choose(2, "manner"); int *in = new int(0); Mutex *m = new Mutex;
	auto body = [=](int h) {
		if (h) { MC_CHECK(r->l.tryrlock(), "a reader was refused although nobody writes"); } else r->l.rlock();
		{ ScopedLock l(*m); ++*in; }
		for (;;) { { ScopedLock l(*m); if (*in == 2) break; } quiesce(); ScopedLock l(*m); MC_CHECK(*in == 2, "a second reader could not enter while the first one reads"); }
		r->l.unlock();
	};
	spawn([=] { body(how); }); spawn([=] { body(how2); });
	joinAll();
	outcome("together");
	MC_CHECK(r->l.trywlock(), "the lock is not free at the end"); r->l.unlock();
	delete r; delete m;
}

MC_SCENARIO(C11, tries_never_wait, CONC, "a holder that lets go only after another thread's tries have been answered", o.quick = 99, o.thorough = 99)
{
	struct Sh { RWLock l; Mutex m; Signal s; int phase; }; Sh *r = new Sh; r->phase = 0; int hold = choose(4, "held"), n = 1 + choose(2, "tries"), k0 = choose(2, "try"), k1 = n > 1 ? choose(2, "try") : 0;
	auto to = [=](int p) { ScopedLock l(r->m); r->phase = p; r->s.broadcast(); }; auto at = [=](int p) { ScopedLock l(r->m); while (r->phase < p) r->s.wait(r->m); };
	spawn([=] { switch (hold) { case 0: r->l.rlock(); break; case 1: r->l.wlock(); break; case 2: MC_CHECK(r->l.tryrlock(), "try refused"); break; case 3: MC_CHECK(r->l.trywlock(), "try refused"); break; } to(1); at(2); r->l.unlock(); }, "holder");
	spawn([=] { at(1); for (int i = 0; i < n; i++) { bool w = i ? k1 : k0; bool ok = w ? r->l.trywlock() : r->l.tryrlock(); MC_CHECK(ok == (!w && !(hold & 1)), "a try to %s while another thread %s gives %d", w ? "write" : "read", hold & 1 ? "writes" : "reads", ok); if (ok) r->l.unlock(); } to(2); }, "tryer");
	joinAll(); MC_CHECK(r->l.trywlock(), "the lock is not free at the end"); r->l.unlock(); outcome(hold & 1 ? "refused" : "shared"); delete r;
}
MC_SCENARIO(C11, reader_past_writer, CONC, "readers enter, and enter again, while a writer waits for them to leave", o.quick = 3, o.thorough = 99)
{
	RwRun *r = new RwRun; int first = choose(2, "first hold"), again = choose(2, "second hold"), other = choose(3, "another reader"), *in = new int(0);
	auto rd = [=](int how) { if (how) MC_CHECK(r->l.tryrlock(), "a reader is refused although nobody writes"); else r->l.rlock(); MC_CHECK(!*in, "a reader enters while the writer is inside"); };
	rd(first);
	int w = spawn([=] { r->l.wlock(); *in = 1; point(); *in = 0; r->l.unlock(); }, "writer");
	if (other < 2) { spawn([=] { if (other) { if (!r->l.tryrlock()) return; } else r->l.rlock(); r->l.unlock(); }, "reader"); }
	quiesce(); rd(again); quiesce(); MC_CHECK(!finished(w), "the writer got in while readers hold the lock");
	r->l.unlock(); quiesce(); MC_CHECK(!finished(w), "the writer got in while a reader holds the lock"); r->l.unlock();
	joinAll(); MC_CHECK(r->l.trywlock(), "the lock is not free at the end"); r->l.unlock(); outcome("ok"); delete r;
}
MC_SCENARIO(C11, vast_readers, CONC, "a lock held by up to 70000 readers is closed to writers until the last one lets go", o.quick = 0, o.thorough = 1, o.races = false, o.maxSteps = 100000000)
{
	int n = chooseSize(thorough() ? 70001 : 3001, 65600), how = choose(2, "manner"); if (!n) skip(); RWLock *l = new RWLock; MC_CHECK(l->trywlock(), "a new lock is held"); l->unlock();
	auto writer = [=](int left) { join(spawn([=] { bool got = l->trywlock(); MC_CHECK(got == (left == 0), "with %d readers a writer %s the lock", left, got ? "gets" : "does not get"); if (got) l->unlock(); })); };
	for (int i = 1; i <= n; i++) { if (how) MC_CHECK(l->tryrlock(), "reader %d is refused", i); else l->rlock(); } writer(n);
	for (int left = n - 1; left >= 0; left--) { l->unlock(); if (left < 2 || left == n / 2 || left == n - 256 || left == n - 65536) writer(left); }
	delete l; outcome(std::to_string(n));
}

// ================================================================ C12: Signal
struct SigRun { Mutex m; Signal s; int tokens; int woken; SigRun() : tokens(0), woken(0) {} };
MC_SCENARIO(C12, broadcast_wakes_all, CONC, "up to 3 waiters, one broadcast", o.quick = 2, o.thorough = 99)
{
	SigRun *r = new SigRun; int n = 1 + choose(3, "waiters"), inside = choose(2, "under the lock"), timed = choose(2, "timed");
	for (int i = 0; i < n; i++) spawn([=] {
		ScopedLock l(r->m);
		while (!r->tokens) { if (timed) r->s.wait(r->m, 3600000); else r->s.wait(r->m); }
		MC_CHECK(r->m.lockcnt() == 1, "lock count is %d after a wait", r->m.lockcnt());
		r->woken++;
	});
	spawn([=] {
		if (inside) { ScopedLock l(r->m); MC_CHECK(r->m.lockcnt() == 1, "lock count is %d while others wait", r->m.lockcnt()); r->tokens = 1; r->s.broadcast(); }
		else { { ScopedLock l(r->m); r->tokens = 1; } r->s.broadcast(); }
	});
	joinAll();
	MC_CHECK(r->woken == n, "%d of %d waiters woke", r->woken, n);
	MC_CHECK(nowUs() == 0 || timeoutsFired(), "a waiter was only released by its time-out");
	MC_CHECK(r->m.lockcnt() == 0, "lock count is %d when nobody holds the mutex", r->m.lockcnt());
	outcome("ok"); delete r;
}
MC_SCENARIO(C12, signal_wakes_one, CONC, "as many signals as waiters", o.quick = 1, o.thorough = 4)
{
	SigRun *r = new SigRun; int n = 1 + choose(3, "waiters"), inside = choose(2, "under the lock"), two = choose(2, "signallers"), timed = choose(2, "timed");
	for (int i = 0; i < n; i++) spawn([=] {
		ScopedLock l(r->m);
		while (!r->tokens) { if (timed) r->s.wait(r->m, 3600000); else r->s.wait(r->m); }
		MC_CHECK(r->m.lockcnt() == 1, "lock count is %d after a wait", r->m.lockcnt());
		r->tokens--; r->woken++;
	});
	auto give = [=](int k) { while (k--) { if (inside) { ScopedLock l(r->m); r->tokens++; r->s.signal(); } else { { ScopedLock l(r->m); r->tokens++; } r->s.signal(); } } };
	if (two && n > 1) { spawn([=] { give(1); }); spawn([=] { give(n - 1); }); } else spawn([=] { give(n); });
	joinAll();
	MC_CHECK(r->woken == n && r->tokens == 0, "%d of %d waiters woke", r->woken, n);
	MC_CHECK(nowUs() == 0 || timeoutsFired(), "a waiter was only released by its time-out");
	MC_CHECK(r->m.lockcnt() == 0, "lock count is %d when nobody holds the mutex", r->m.lockcnt());
	outcome("ok"); delete r;
}
MC_SCENARIO(C12, timed_wait, CONC, "waits with every kind of time-out, with and without a signal", o.quick = 2, o.thorough = 4)
{
	setClock(1700000000, phases[choose(5, "clock phase")]);
	SigRun *r = new SigRun;
	static const long T[] = { LONG_MIN, -4294967276L, -2147483648L, -1, 0, 1, 20, 50, 1000, 86400000L, 2147483647L, 4294967295L, 4294967296L, 4294967346L, 1000000000000L };
	long t = T[choose(15, "time-out")]; int sig = choose(4, "signal"); int bc = sig ? choose(2, "broadcast") : 0;
	int64_t *el = new int64_t(-1);
	spawn([=] { ScopedLock l(r->m); int64_t s = nowUs(); r->s.wait(r->m, t); *el = nowUs() - s; MC_CHECK(r->m.lockcnt() == 1, "lock count %d after a timed wait", r->m.lockcnt()); r->woken++; point(); }, "waiter");
	if (sig) spawn([=] { if (sig == 2) usleep(10000); if (sig == 3) usleep(400000); { ScopedLock l(r->m); r->tokens = 1; } if (bc) r->s.broadcast(); else r->s.signal(); }, "signaller");
	joinAll();
	double ms = *el / 1000.0;
	if (t <= 0) MC_CHECK(ms == 0 || timeoutsFired(), "a wait of %ld ms waited %g ms", t, ms);
	else if (!timeoutsFired()) {
		double arr = sig == 2 ? 10 : sig == 3 ? 400 : 0;
		MC_CHECK(ms <= t + 0.001, "a wait of %ld ms took %g ms", t, ms);
		if (!sig) MC_CHECK(ms >= t, "a wait of %ld ms ended after %g ms without a signal", t, ms);
		else if (ms < t) MC_CHECK(ms == arr, "a wait of %ld ms ended after %g ms, the signal came at %g", t, ms, arr);
	}
	MC_CHECK(r->m.lockcnt() == 0, "lock count off at the end");
	outcome(std::to_string((long)ms)); delete r; delete el;
}
MC_SCENARIO(C12, mutex_free_while_waiting, CONC, "the mutex can be taken by others while a thread waits, and is held on return", o.timeAdvance = false, o.quick = 3, o.thorough = 99)
{
	SigRun *r = new SigRun; long *data = new long(0); int k = choose(4, "manner"), timed = choose(2, "timed");
	spawn([=] { ScopedLock l(r->m, FILE1, 9); while (!r->tokens) { if (timed) r->s.wait(r->m, 3600000); else r->s.wait(r->m); long v = *data; point(); *data = v + 1; } }, "waiter");
	spawn([=] {
		if (timed) usleep(1000); else quiesce();	// the waiter waits now
		if (timeoutsFired()) { ScopedLock l(r->m); r->tokens = 1; r->s.signal(); return; }
		bool ok = true;
		if (k == 0) r->m.lock(); else if (k == 1) ok = r->m.trylock(); else if (k == 2) ok = r->m.timedlock(50); else r->m.lock(FILE1, 2);
		MC_CHECK(ok, "the mutex is not free although its holder waits on a signal");
		MC_CHECK(r->m.lockcnt() == 1, "lock count is %d, not 1, when the only other user waits", r->m.lockcnt());
		long v = *data; point(); *data = v + 1; r->tokens = 1;
		r->s.signal(); point(); *data = *data + 1;
		r->m.unlock();
	}, "other");
	joinAll();
	outcome(std::to_string(*data)); delete r; delete data;
}
MC_SCENARIO(C12, spurious, CONC, "waiters woken without reason keep a correct lock count", o.spurious = true, o.quick = 2, o.thorough = 3)
{
	SigRun *r = new SigRun;
	for (int i = 0; i < 2; i++) spawn([=] { ScopedLock l(r->m); while (!r->tokens) r->s.wait(r->m); MC_CHECK(r->m.lockcnt() == 1, "lock count"); r->woken++; });
	spawn([=] { { ScopedLock l(r->m); r->tokens = 1; MC_CHECK(r->m.lockcnt() == 1, "lock count"); } r->s.broadcast(); });
	joinAll();
	MC_CHECK(r->woken == 2 && r->m.lockcnt() == 0, "lock count off");
	outcome("ok"); delete r;
}

MC_SCENARIO(C12, many_waiters, CONC, "up to six waiters, woken all at once or one by one", o.fixedOrder = true, o.quick = 2, o.thorough = 4)
{
	struct R { Mutex m; Signal s; int in = 0, out = 0; } *r = new R; int n = 3 + choose(4, "waiters"), all = choose(2, "broadcast");
	for (int i = 0; i < n; i++) spawn([=] { r->m.lock(); r->in++; r->s.wait(r->m); r->out++; MC_CHECK(r->m.lockcnt() == 1, "lock count %d after waiting", r->m.lockcnt()); r->m.unlock(); });
	auto got = [=](bool ins) { quiesce(); r->m.lock(); int x = ins ? r->in : r->out; r->m.unlock(); return x; }; MC_CHECK(got(true) == n && got(false) == 0, "not all of %d wait, or some were woken without a signal", n);
	if (all) { r->s.broadcast(); int w = got(false); MC_CHECK(w == n, "a broadcast wakes %d of %d", w, n); } else for (int i = 0; i < n; i++) { r->s.signal(); int w = got(false); MC_CHECK(w > i, "%d signals wake %d of %d", i + 1, w, n); }
	joinAll(); MC_CHECK(r->out == n, "%d of %d return", r->out, n); delete r; outcome(std::to_string(n));
}

// ================================================================ C13: Thread
struct ThrArg { int id; long before, after; int runs; };
static void *thrBody(void *p) { ThrArg *a = (ThrArg *)p; MC_CHECK(a->before == 100 + a->id, "the thread got a wrong argument"); point(); a->runs++; a->after = a->id * 7; point(); return 0; }
static void *thrLeaves(void *p) { thrBody(p); pthread_exit(0); }
MC_SCENARIO(C13, start_join, CONC, "up to three threads started in every way, joined in every order", o.quick = 2, o.thorough = 99)
{
	int n = 1 + choose(3, "threads"), how = choose(3, "start"), ord = choose(2, "join order"), again = choose(2, "restart"); Thread::Task_t body = choose(2, "task ends by pthread_exit") ? thrLeaves : thrBody;
	std::vector<Thread *> t; std::vector<ThrArg *> a;
	for (int i = 0; i < n; i++) {
		t.push_back(choose(2, "stack") ? new Thread(1 << 20) : new Thread); a.push_back(new ThrArg{ i, 0, 0, 0 });
		a[i]->before = 100 + i;
		if (how == 0) t[i]->start(body, a[i]); else if (how == 1) t[i]->start2(body, a[i], 262144); else { START_THREAD((*t[i]), body, a[i]); }
	}
	for (int k = 0; k < n; k++) { int i = ord ? n - 1 - k : k; t[i]->join(); MC_CHECK(a[i]->runs == 1 && a[i]->after == i * 7, "after join the body ran %d times", a[i]->runs); }
	if (again) { a[0]->before = 100; t[0]->start(thrBody, a[0]); t[0]->join(); MC_CHECK(a[0]->runs == 2, "restarted body ran %d times", a[0]->runs); }
	for (int i = 0; i < n; i++) { delete t[i]; MC_CHECK(a[i]->runs == (again && !i ? 2 : 1), "body ran %d times", a[i]->runs); }
	outcome("ok");
}
static void *thrNested(void *p) { ThrArg *a = (ThrArg *)p; Thread t; ThrArg *b = new ThrArg{ 5, 105, 0, 0 }; t.start(thrBody, b); t.join(); MC_CHECK(b->runs == 1, "nested thread"); a->runs += b->runs; return 0; }
MC_SCENARIO(C13, nested, CONC, "threads that start threads", o.quick = 2, o.thorough = 99)
{
	Thread *t = new Thread, *u = new Thread; ThrArg *a = new ThrArg{ 0, 0, 0, 0 }, *b = new ThrArg{ 1, 0, 0, 0 };
	t->start(thrNested, a); u->start(thrNested, b); t->join(); u->join();
	MC_CHECK(a->runs == 1 && b->runs == 1, "nested threads ran %d and %d times", a->runs, b->runs);
	delete t; delete u; Thread unused; outcome("ok");
}

MC_SCENARIO(C13, many, CONC, "up to seven threads at once, and one thread object used up to 300 times", o.fixedOrder = true, o.quick = 1, o.thorough = 2, o.maxSteps = 1000000)
{
	int n = chooseSize(301), one = choose(2, "one object"); if (!one && n > 7) skip(); std::vector<Thread *> t; std::vector<ThrArg *> a;
	for (int i = 0; i < n; i++) { if (!one || !i) t.push_back(new Thread); a.push_back(new ThrArg{ i, 100 + i, 0, 0 }); if (i % 3) t.back()->start(thrBody, a[i]); else t.back()->start2(thrBody, a[i], 262144); if (one) { t[0]->join(); MC_CHECK(a[i]->runs == 1 && a[i]->after == i * 7, "after join %d the body ran %d times", i, a[i]->runs); } }
	if (!one) for (int i = 0; i < n; i++) { t[i]->join(); MC_CHECK(a[i]->runs == 1 && a[i]->after == i * 7, "after join of thread %d of %d its body ran %d times", i, n, a[i]->runs); }
	for (auto x : t) delete x; for (auto x : a) delete x; outcome(std::to_string(n));
}

// ================================================================ C14: reference counts
struct Counted : public RefCntBase { int magic; long payload; int *dead; Counted(int *d) : magic(77), payload(1), dead(d) {} ~Counted() { MC_CHECK(magic == 77, "object destroyed twice"); magic = 0; note("destroyed"); ++*dead; } };
typedef RefCntPointer<Counted> CP;
static void useRef(CP &p) { if (!p.isNULL()) { MC_CHECK(p->magic == 77, "object used after it was destroyed"); } }
// what a thread does with its own pointer
static void refOps(CP *mine, CP *other, int op)
{
	switch (op) {
	case 0: mine->free(); MC_CHECK(mine->isNULL(), "pointer not empty after free"); break;
	case 1: { CP c(*mine); useRef(c); *mine = CP(); useRef(c); break; }
	case 2: { CP c; c = *mine; CP d(c); *mine = (Counted *)0; useRef(d); c = d; useRef(c); break; }
	case 3: { *mine = *mine; useRef(*mine); CP c(mine->self()); useRef(c); break; }
	case 4: { CP c(*mine); c.free(); useRef(*mine); mine->free(); break; }
	case 5: { CP c(*mine); CP d = c; c = d; d.free(); useRef(c); *mine = c.self(); useRef(*mine); break; }
	}
}
MC_SCENARIO(C14, two_threads, CONC, "two threads with their own pointers to one object, every pair of pointer operations", o.quick = 2, o.thorough = 99)
{
	int *dead = new int(0);
	CP *a, *b;
	{ CP p(new Counted(dead)); a = new CP(p); b = new CP(*a); }
	int x = choose(6, "operations"), y = choose(6, "operations");
	if (y < x) skip();
	int last = choose(2, "driver pointer"); CP *c = last ? new CP(*a) : 0;
	spawn([=] { refOps(a, b, x); delete a; });
	spawn([=] { refOps(b, a, y); delete b; });
	joinAll();
	if (c) { MC_CHECK(*dead == 0, "object destroyed although a pointer to it exists"); MC_CHECK((*c)->getRefCnt() == 1, "reference count is %d with one pointer", (*c)->getRefCnt()); useRef(*c); delete c; }
	MC_CHECK(*dead == 1, "object destroyed %d times", *dead);
	outcome("ok");
}
MC_SCENARIO(C14, three_threads, CONC, "three threads drop their pointers", o.quick = 1, o.thorough = 99)
{
	int *dead = new int(0); CP *p[3];
	{ CP q(new Counted(dead)); for (int i = 0; i < 3; i++) p[i] = new CP(q); MC_CHECK(q->getRefCnt() == 4, "count"); }
	for (int i = 0; i < 3; i++) { int op = choose(3, "operation"); CP *m = p[i]; spawn([=] { if (op == 0) delete m; else if (op == 1) { m->free(); delete m; } else { CP c(*m); delete m; useRef(c); } }); }
	joinAll();
	MC_CHECK(*dead == 1, "object destroyed %d times", *dead);
	outcome("ok");
}
MC_SCENARIO(C14, many_pointers, CONC, "objects with up to 40000 pointers", o.maxSteps = 100000000)
{
	static const int N[] = { 100, 127, 128, 255, 256, 300, 32766, 32767, 32768, 40000 }; int n = N[choose(10, "pointers")]; int *dead = new int(0); Counted *o = new Counted(dead);
	{ std::vector<CP> *v = new std::vector<CP>; v->reserve(n); for (int i = 0; i < n; i++) v->push_back(CP(o)); MC_CHECK(*dead == 0 && o->getRefCnt() == n, "%d pointers counted as %d", n, o->getRefCnt()); CP last((*v)[n / 2]); delete v; MC_CHECK(*dead == 0, "destroyed although a pointer exists"); MC_CHECK(last->getRefCnt() == 1, "count %d", last->getRefCnt()); }
	MC_CHECK(*dead == 1, "destroyed %d times", *dead); outcome("ok");
}
MC_SCENARIO(C14, sequences, CONC, "every sequence of pointer operations on three pointers and two objects", o.quickDepth = 4, o.thoroughDepth = 6)
{
	int *d0 = new int(0), *d1 = new int(0); int *dd[2] = { d0, d1 };
	Counted *obj[2] = { new Counted(d0), new Counted(d1) };
	CP *p[3]; int at[3] = { -1, -1, -1 };
	{ p[0] = new CP(obj[0]); at[0] = 0; p[1] = new CP(obj[1]); at[1] = 1; p[2] = new CP; }
	for (int s = 0; s < depth(); s++) {
		int op = choose(6, "operation"), i = choose(3, "pointer"), j = op < 3 ? choose(3, "source") : 0;
		switch (op) {
		case 0: *p[i] = *p[j]; at[i] = at[j]; break;
		case 1: { Counted *raw = p[j]->self(); *p[i] = raw; at[i] = at[j]; break; }
		case 2: { CP c(*p[j]); CP e; e = c; *p[i] = e; at[i] = at[j]; break; }
		case 3: p[i]->free(); at[i] = -1; break;
		case 4: *p[i] = (Counted *)0; at[i] = -1; break;
		case 5: delete p[i]; p[i] = new CP; at[i] = -1; break;
		}
		for (int o = 0; o < 2; o++) {
			int refs = 0; for (int k = 0; k < 3; k++) if (at[k] == o) refs++;
			MC_CHECK(*dd[o] == (refs ? 0 : 1), "object with %d pointers destroyed %d times", refs, *dd[o]);
			if (refs) MC_CHECK(obj[o]->getRefCnt() == refs, "reference count %d with %d pointers", obj[o]->getRefCnt(), refs);
		}
		for (int k = 0; k < 3; k++) { MC_CHECK(p[k]->isNULL() == (at[k] < 0), "pointer emptiness wrong"); if (at[k] >= 0) MC_CHECK(*p[k] == obj[at[k]] && !(*p[k] != obj[at[k]]) && p[k]->self() == obj[at[k]], "pointer refers to the wrong object");
			for (int q = 0; q < 3; q++) MC_CHECK((*p[k] == *p[q]) == (at[k] == at[q]) && (*p[k] != *p[q]) == (at[k] != at[q]), "comparison wrong"); }
		H h = 0; for (int k = 0; k < 3; k++) h = mix(h, at[k] + 2); h = mix(h, *d0 * 2 + *d1); state(h, depth() - s - 1);
	}
	for (int k = 0; k < 3; k++) delete p[k];
	MC_CHECK(*d0 == 1 && *d1 == 1, "objects destroyed %d and %d times", *d0, *d1);
	outcome("ok");
}

// Objects that hold pointers to one another and to themselves: losing the last pointer to one may take others with it, even the one whose pointer is being changed.
struct Linked : public RefCntBase { static int dead[3]; static Linked *owner[3]; int magic, id; RefCntPointer<Linked> next; Linked(int i) : magic(77), id(i) {}
	~Linked() { MC_CHECK(magic == 77, "object %d destroyed twice", id); magic = 0; dead[id]++; if (Linked *o = owner[id]) { owner[id] = 0; MC_CHECK(!(o->next == this), "object %d is destroyed while its owner's pointer still refers to it", id); } } };
int Linked::dead[3]; Linked *Linked::owner[3];
MC_SCENARIO(C14, linked_objects, CONC, "every sequence of linking, unlinking and dropping three objects that point to one another or to themselves", o.quickDepth = 4, o.thoroughDepth = 6)
{
	typedef RefCntPointer<Linked> LP; LP p[3]; Linked *obj[3]; int ext[3] = { 1, 1, 1 }, next[3] = { -1, -1, -1 }, gone[3] = { 0, 0, 0 };
	for (int i = 0; i < 3; i++) { Linked::dead[i] = 0; Linked::owner[i] = 0; p[i] = obj[i] = new Linked(i); }
	auto refs = [&](int i) { int n = ext[i]; for (int k = 0; k < 3; k++) n += !gone[k] && next[k] == i; return n; };
	auto settle = [&]() { for (bool more = true; more;) { more = false; for (int i = 0; i < 3; i++) if (!gone[i] && !refs(i)) { gone[i] = 1; next[i] = -1; more = true; } } for (int i = 0; i < 3; i++) { MC_CHECK(Linked::dead[i] == gone[i], "object %d with %d pointers destroyed %d times", i, refs(i), Linked::dead[i]); if (!gone[i]) MC_CHECK(obj[i]->magic == 77 && obj[i]->getRefCnt() == refs(i), "object %d has %d pointers and counts %d", i, refs(i), obj[i]->getRefCnt()); } };
	auto drop = [&](LP &q, int how) { switch (how) { case 0: q.free(); break; case 1: q = (Linked *)0; break; case 2: q = LP(); break; } };
	for (int s = 0; s < depth(); s++) {
		int op = choose(3, "operation"), i = choose(3, "object"), how = op ? choose(3, "how") : 0;
		if (op == 0) { int j = choose(3, "successor"); if (gone[i] || gone[j] || next[i] == j) skip(); next[i] = j; LP keep = obj[j]; obj[i]->next = keep; note("%d -> %d", i, j); }
		else if (op == 1) { if (gone[i] || next[i] < 0) skip(); int j = next[i]; Linked::owner[j] = j != i && refs(j) == 1 ? obj[i] : 0; next[i] = -1; note("%d -> none, %d", i, how); drop(obj[i]->next, how); }
		else { if (!ext[i]) skip(); ext[i] = 0; note("drop %d, %d", i, how); drop(p[i], how); }
		for (int k = 0; k < 3; k++) Linked::owner[k] = 0;
		settle();
		H h = 0; for (int k = 0; k < 3; k++) h = mix(h, gone[k] * 64 + ext[k] * 32 + next[k] + 2); state(h, depth() - s - 1);
	}
	for (int i = 0; i < 3; i++) { ext[i] = 0; p[i].free(); settle(); } for (int i = 0; i < 3; i++) if (!gone[i]) { next[i] = -1; obj[i]->next.free(); settle(); }
	outcome("ok");
}

// ================================================================ C44: object counters used from several threads
#include "MemoryLeak.h"
#include <sstream>
DEFINE_MEMORY_LEAK_DETECTOR_CLASS(TBF, CheckT) struct Tallied : public CheckT { };
static Tallied *makeTallied() { Tallied *c = new Tallied; RN_MEMLOG(Tallied, c); return c; }
static int labelled() { int n = 0; for (auto &p : gMemStats.mMemMap) if (p.first.find("Tallied_") == 0) n += p.second; return n; }
MC_SCENARIO(C44, counting_threads, CONC, "two threads create and destroy counted objects while a third prints the counters", o.quick = 2, o.thorough = 99)
{
	int n0 = gMemStats.mMemNow[MemStats::mTBF], t0 = gMemStats.mMemTotal[MemStats::mTBF], l0 = labelled(); Tallied *keep[2] = { 0, 0 }; int p = choose(3, "third");
	for (int t = 0; t < 2; t++) spawn([&, t]() { delete makeTallied(); keep[t] = makeTallied(); });
	if (p == 1) spawn([&]() { std::ostringstream os; gMemStats.text(os); }); 
	if (p == 2) spawn([&]() { Tallied *c = new Tallied; delete c; });
	joinAll();
	MC_CHECK(gMemStats.mMemNow[MemStats::mTBF] == n0 + 2 && gMemStats.mMemTotal[MemStats::mTBF] == t0 + 4 + (p == 2) && labelled() == l0 + 2, "two objects exist, the counters say %d now, %d in all, %d labelled", gMemStats.mMemNow[MemStats::mTBF] - n0, gMemStats.mMemTotal[MemStats::mTBF] - t0, labelled() - l0);
	delete keep[0]; delete keep[1];
	MC_CHECK(gMemStats.mMemNow[MemStats::mTBF] == n0 && labelled() == l0, "counters do not return to their start");
	outcome(std::to_string(p));
}
