// Drivers for the inter-thread containers: C01 C02 C03 C04 C05 C06 C07 C08.
#include "common.h"
#include "Interthread.h"
#include <deque>
#include <algorithm>
#include "sizes.h"
#include "main.inc"
using namespace mc;

// ---------------------------------------------------------------- elements with a census
struct Census { int live, made, dead[64]; };
static Census *gCensus;	// allocated by each driver

#define UNTRACKED __attribute__((no_sanitize("thread"), noinline))	// bookkeeping of the driver itself
UNTRACKED static void census(int born, int v) { if (born) { gCensus->live++; gCensus->made++; } else { gCensus->live--; if (v >= 0 && v < 64) gCensus->dead[v]++; } }
UNTRACKED static int fresh(int &n) { return n++; }
struct Item : public SingleLinkListNode {
	int v; long magic;
	Item(int x) : v(x), magic(0x600d) { census(1, x); }
	~Item() { MC_CHECK(magic == 0x600d, "element %d deleted twice", v); magic = 0; census(0, v); }
	Item *next() { return (Item *)SingleLinkListNode::next(); }
	bool operator>(const Item &o) const { return v > o.v; }
};

enum K { WRITE, WFRONT, READ, READT, READNB, FRONT, SIZE, CLEAR, FLUSH, WAITLOW, NKIND };
static const char *const kn[] = { "write", "write_front", "read", "read_timeout", "readNoBlock", "front", "size", "clear", "flushNoDelete", "wait" };

typedef std::deque<int> Model;
static bool fifoStep(Model &m, const Op &o)
{
	switch (o.kind) {
	case WRITE: m.push_back(o.a); return true;
	case WFRONT: m.push_front(o.a); return true;
	case READ: if (m.empty() || m.front() != o.res) return false; m.pop_front(); return true;
	case READT: case READNB:
		if (o.res < 0) return m.empty();
		if (m.empty() || m.front() != o.res) return false; m.pop_front(); return true;
	case FRONT: return m.empty() ? o.res < 0 : m.front() == o.res;
	case SIZE: return (long)m.size() == o.res;
	case CLEAR: case FLUSH: m.clear(); return true;
	case WAITLOW: return (long)m.size() <= o.a;
	}
	return false;
}
// priority queue: smallest first (PointerCompare uses operator>)
static bool prioStep(Model &m, const Op &o)
{
	Model::iterator it = std::min_element(m.begin(), m.end());
	switch (o.kind) {
	case WRITE: m.push_back(o.a); return true;
	case READ: if (m.empty() || *it != o.res) return false; m.erase(it); return true;
	case READT: case READNB: if (o.res < 0) return m.empty(); if (m.empty() || *it != o.res) return false; m.erase(it); return true;
	case FRONT: return m.empty() ? o.res < 0 : *it == o.res;
	case SIZE: return (long)m.size() == o.res;
	case CLEAR: m.clear(); return true;
	}
	return false;
}

// ---------------------------------------------------------------- one uniform face per container
struct Cmd { int k; int arg; };

template <class Q> struct Face {
	Q *q;
	Face() : q(new Q) {}
	~Face() { }
};
typedef InterthreadQueue<Item> QList;
typedef InterthreadQueue<Item, SingleLinkList<Item> > QSll;
typedef InterthreadQueueWithWait<Item> QWait;
typedef InterthreadPriorityQueue<Item> QPrio;

static Item *gPool;	// when set, elements live here and are told apart by address only
static Item *make(int a) { return gPool ? new (gPool + a) Item(a) : new Item(a); }
static long take(Item *i) { if (!i) return -1; if (gPool) return i - gPool; long v = i->v; delete i; return v; }
static long peek(Item *i) { return i ? i->v : -1; }

template <class Q> struct Ops {
	static long run(Q &q, int k, int a) {
		switch (k) {
		case WRITE: q.write(make(a)); return 0;
		case READ: return take(q.read());
		case READT: return take(q.read((unsigned)a));
		case READNB: return take(q.readNoBlock());
		case SIZE: return q.size();
		case CLEAR: q.clear(); return 0;
		}
		return more(q, k, a);
	}
	static long more(QList &q, int k, int a) { return more2(q, k, a); }
	static long more(QSll &q, int k, int a) { return more2(q, k, a); }
	template <class X> static long more2(X &q, int k, int a) {
		switch (k) {
		case WFRONT: q.write_front(make(a)); return 0;
		// The element may be consumed by another thread once front() returns, so only the pointer
		// identity may be used; elements are never freed while fronts are looked at (see Hold).
		case FRONT: { Item *p = q.front(); return p ? gPool ? p - gPool : (long)p->v : -1; }
		case FLUSH: q.flushNoDelete(); return 0;
		}
		return 0;
	}
	static long more(QWait &q, int k, int a) { if (k == WAITLOW) q.wait(a); return 0; }
	static long more(QPrio &q, int k, int a) { if (k == FRONT) { Item *p = q.peek(); return p ? gPool ? p - gPool : (long)p->v : -1; } return 0; }
};

struct Driver {
	History h; int nextVal; bool checkLin;
	Driver() : nextVal(0), checkLin(true) { gCensus = new Census(); if (gPool) gPool = (Item *)malloc(32 * sizeof(Item)); }
};

template <class Q> static long issue(Driver &d, Q &q, int k, int a)
{
	int id = d.h.call(k, a);
	long r = Ops<Q>::run(q, k, a);
	d.h.ret(id, r);
	note("%s(%d) = %ld", kn[k], a, r);
	return r;
}

static std::string outStr(const std::vector<Op> &ops)
{
	std::string s;
	for (auto &o : ops) { char b[60]; snprintf(b, sizeof b, "t%d:%s(%ld)=%ld ", o.thread, kn[o.kind], o.a, o.res); s += b; }
	return s;
}

// Runs `prog` (one command list per thread) on a queue preloaded with `pre` elements, releases
// blocked readers, drains the queue, and compares the whole history with the sequential queue.
template <class Q> static void drive(const std::vector<std::vector<Cmd> > &prog, int pre, bool (*step)(Model &, const Op &), bool canSize = true)
{
	Driver *d = new Driver;
	Q *q = new Q;
	for (int i = 0; i < pre; i++) issue(*d, *q, WRITE, d->nextVal++);
	std::vector<std::vector<Cmd> > p = prog;
	for (auto &t : p) for (auto &c : t) if (c.k == WRITE || c.k == WFRONT) c.arg = d->nextVal++;
	for (unsigned t = 0; t < p.size(); t++) {
		std::vector<Cmd> *cmds = new std::vector<Cmd>(p[t]);
		spawn([=] { for (auto &c : *cmds) issue(*d, *q, c.k, c.arg); });
	}
	for (int round = 0; round < 8; round++) {
		quiesce();
		bool stuck = false;
		for (unsigned t = 1; t <= p.size(); t++) if (!finished(t)) stuck = true;
		if (!stuck) break;
		long n = canSize ? issue(*d, *q, SIZE, 0) : 0;
		MC_CHECK(n == 0, "a thread waits to read although %ld element(s) are queued and nobody else will act: %s", n, d->h.str(kn).c_str());
		issue(*d, *q, WRITE, d->nextVal++);
	}
	joinAll();
	for (int k = 0; k < 12; k++) if (issue(*d, *q, READNB, 0) < 0) break;
	MC_CHECK(linearizable(d->h.all(), Model(), step), "results do not correspond to any order of the operations: %s", d->h.str(kn).c_str());
	outcome(outStr(d->h.all()));
	bool flushed = false; for (auto &o : d->h.all()) if (o.kind == FLUSH) flushed = true;
	delete q;
	if (!flushed && !gPool) MC_CHECK(gCensus->live == 0, "%d of %d elements were lost (neither returned to a reader nor deleted by the queue)", gCensus->live, gCensus->made);
}

// All client programs of the given shape over the given alphabet.
template <class Q> static void programs(int threads, int len, const std::vector<Cmd> &alpha, int maxPre, bool (*step)(Model &, const Op &), bool sym = true)
{
	int pre = choose(maxPre + 1, "preloaded");
	std::vector<std::vector<Cmd> > p(threads);
	std::vector<int> code(threads);
	for (int t = 0; t < threads; t++) {
		code[t] = 0;
		for (int i = 0; i < len; i++) { int c = choose(alpha.size(), "command"); p[t].push_back(alpha[c]); code[t] = code[t] * alpha.size() + c; }
		if (sym && t && code[t] < code[t - 1]) skip();	// thread symmetry
	}
	drive<Q>(p, pre, step);
}

// ================================================================ C01: FIFO order, exactly once
MC_SCENARIO(C01, two_threads_all_programs, CONC, "every pair of 2-command programs on one queue", o.quick = 2, o.thorough = 99)
{ programs<QList>(2, 2, { {WRITE,0}, {READNB,0}, {WFRONT,0}, {READ,0}, {SIZE,0} }, 1, fifoStep); }
MC_SCENARIO(C01, intrusive_storage, CONC, "every pair of 2-command programs, intrusive list storage", o.quick = 2, o.thorough = 99)
{ programs<QSll>(2, 2, { {WRITE,0}, {READNB,0}, {WFRONT,0}, {READ,0}, {SIZE,0} }, 1, fifoStep); }
MC_SCENARIO(C01, with_wait_storage, CONC, "every pair of 2-command programs, queue with low-water wait", o.quick = 2, o.thorough = 99)
{ programs<QWait>(2, 2, { {WRITE,0}, {READNB,0}, {READ,0}, {SIZE,0}, {CLEAR,0} }, 2, fifoStep); }
MC_SCENARIO(C01, three_threads, CONC, "three threads, one command each, 0..2 preloaded", o.quick = 3, o.thorough = 99)
{ programs<QList>(3, 1, { {WRITE,0}, {READNB,0}, {WFRONT,0}, {READ,0}, {CLEAR,0}, {FLUSH,0}, {SIZE,0} }, 2, fifoStep); }
MC_SCENARIO(C01, three_threads_two_cmds, CONC, "three threads, two commands each", o.quick = 1, o.thorough = 2)
{ programs<QList>(3, 2, { {WRITE,0}, {READNB,0}, {READ,0} }, 1, fifoStep); }
MC_SCENARIO(C01, clear_flush, CONC, "clearing and flushing against readers and writers", o.quick = 2, o.thorough = 99)
{ programs<QList>(2, 2, { {CLEAR,0}, {FLUSH,0}, {WRITE,0}, {READNB,0} }, 2, fifoStep); }
MC_SCENARIO(C01, clear_flush_intrusive, CONC, "clearing and flushing, intrusive storage", o.quick = 2, o.thorough = 99)
{ programs<QSll>(2, 2, { {CLEAR,0}, {FLUSH,0}, {WRITE,0}, {READNB,0} }, 2, fifoStep); }
MC_SCENARIO(C01, timed_reads, CONC, "timed reads against writers", o.quick = 2, o.thorough = 3)
{ programs<QList>(2, 2, { {READT,30}, {WRITE,0}, {READNB,0} }, 1, fifoStep); }
// front() is compared on programs where nobody deletes the element meanwhile
template <class Q> static void frontProg()
{
	int pre = choose(2, "preloaded"), w1 = choose(2, "cmd"), w2 = choose(2, "cmd");
	drive<Q>({ { {FRONT,0}, {FRONT,0} }, { {w1 ? WRITE : WFRONT,0}, {w2 ? WRITE : WFRONT,0} } }, pre, fifoStep);
}
MC_SCENARIO(C01, peek, CONC, "looking at the first element while others write at both ends", o.quick = 2, o.thorough = 99) { frontProg<QList>(); }
MC_SCENARIO(C01, peek_intrusive, CONC, "same, intrusive storage", o.quick = 2, o.thorough = 99) { frontProg<QSll>(); }

// ... and by address against readers, whose elements stay in place
template <class Q> static void frontAndReaders(const std::vector<Cmd> &other, bool (*step)(Model &, const Op &))
{
	gPool = (Item *)1; int pre = choose(3, "preloaded"), n = 1 + choose(2, "looks"); std::vector<Cmd> a, b; for (int i = 0; i < n; i++) a.push_back({ FRONT, 0 });
	for (int i = 0; i < 2; i++) b.push_back(other[choose(other.size(), "cmd")]); drive<Q>({ a, b }, pre, step); gPool = 0;
}
MC_SCENARIO(C01, peek_readers, CONC, "looking at the first element while others take and add elements", o.quick = 2, o.thorough = 99) { frontAndReaders<QList>({ {READNB,0}, {READ,0}, {READT,30}, {WRITE,0}, {WFRONT,0}, {FLUSH,0} }, fifoStep); }
MC_SCENARIO(C01, peek_readers_intrusive, CONC, "same, intrusive storage", o.quick = 2, o.thorough = 99) { frontAndReaders<QSll>({ {READNB,0}, {READ,0}, {READT,30}, {WRITE,0}, {WFRONT,0}, {FLUSH,0} }, fifoStep); }
MC_SCENARIO(C07, peek_readers, CONC, "looking at the most urgent element while others take and add elements", o.quick = 2, o.thorough = 99) { frontAndReaders<QPrio>({ {READNB,0}, {READ,0}, {READT,30}, {WRITE,0} }, prioStep); }

// ================================================================ C02: no reader sleeps over an element
MC_SCENARIO(C02, readers_writers, CONC, "2 readers and 2 writers, every 1-2 command program", o.quick = 1, o.thorough = 3)
{
	int nr = 1 + choose(2, "readers"), nw = 1 + choose(2, "writers");
	std::vector<std::vector<Cmd> > p;
	for (int i = 0; i < nr; i++) { std::vector<Cmd> c; int n = 1 + choose(2, "reads"); while (n--) c.push_back({READ,0}); p.push_back(c); }
	for (int i = 0; i < nw; i++) { std::vector<Cmd> c; int n = 1 + choose(2, "writes"), fr = choose(2, "front"); while (n--) c.push_back({fr ? WFRONT : WRITE,0}); p.push_back(c); }
	drive<QList>(p, 0, fifoStep);
}
template <class Q> static void wakeups(bool (*step)(Model &, const Op &))
{
	int nr = 2 + choose(2, "readers");
	std::vector<std::vector<Cmd> > p;
	for (int i = 0; i < nr; i++) p.push_back({ {READ,0} });
	int w = choose(3, "writer shape");
	if (w == 0) p.push_back({ {WRITE,0}, {WRITE,0} });
	else if (w == 1) { p.push_back({ {WRITE,0} }); p.push_back({ {WRITE,0} }); }
	else p.push_back({ {WRITE,0}, {WRITE,0}, {WRITE,0} });
	drive<Q>(p, 0, step);
}
MC_SCENARIO(C02, list, CONC, "up to 3 blocked readers, 1-2 writers, list storage", o.quick = 2, o.thorough = 99) { wakeups<QList>(fifoStep); }
MC_SCENARIO(C02, intrusive, CONC, "same, intrusive storage", o.quick = 2, o.thorough = 99) { wakeups<QSll>(fifoStep); }
MC_SCENARIO(C02, with_wait, CONC, "same, queue with low-water wait", o.quick = 2, o.thorough = 99) { wakeups<QWait>(fifoStep); }
MC_SCENARIO(C02, priority, CONC, "same, priority queue", o.quick = 2, o.thorough = 99) { wakeups<QPrio>(prioStep); }
MC_SCENARIO(C02, spurious, CONC, "readers woken without reason", o.spurious = true, o.quick = 1, o.thorough = 3) { wakeups<QList>(fifoStep); }
MC_SCENARIO(C02, spurious_with_wait, CONC, "readers woken without reason, queue with low-water wait", o.spurious = true, o.quick = 1, o.thorough = 3) { wakeups<QWait>(fifoStep); }
MC_SCENARIO(C02, spurious_priority, CONC, "readers woken without reason, priority queue", o.spurious = true, o.quick = 1, o.thorough = 3) { wakeups<QPrio>(prioStep); }
// a blocking reader, a timed reader and a polling reader compete
template <class Q> static void mixedReaders(bool (*step)(Model &, const Op &))
{
	static const Cmd rd[] = { {READ,0}, {READT,50}, {READNB,0} };
	int a = choose(3, "reader"), b = choose(3, "reader"), c = choose(2, "third");
	std::vector<std::vector<Cmd> > p = { { rd[a] }, { rd[b] }, { {WRITE,0}, {WRITE,0} } };
	if (c) p.push_back({ {READ,0} });
	drive<Q>(p, 0, step);
}
MC_SCENARIO(C02, mixed, CONC, "blocking, timed and polling readers compete", o.quick = 2, o.thorough = 4) { mixedReaders<QList>(fifoStep); }
MC_SCENARIO(C02, mixed_intrusive, CONC, "same, intrusive storage", o.quick = 2, o.thorough = 4) { mixedReaders<QSll>(fifoStep); }
MC_SCENARIO(C02, mixed_with_wait, CONC, "same, queue with low-water wait", o.quick = 2, o.thorough = 4) { mixedReaders<QWait>(fifoStep); }
MC_SCENARIO(C02, mixed_priority, CONC, "same, priority queue", o.quick = 2, o.thorough = 4) { mixedReaders<QPrio>(prioStep); }

template <class Q> static void manyReaders()
{
	int n = 4 + choose(3, "readers"), how = choose(2, "way to write"); Q *q = new Q; long *got = new long(0), *sum = new long(0);
	for (int i = 0; i < n; i++) spawn([=] { Item *p = q->read(); MC_CHECK(p, "a blocking read returns nothing"); ++*got; *sum += p->v; delete p; });
	quiesce(); MC_CHECK(*got == 0, "%ld readers of an empty queue return", *got); long e = 0;
	for (int i = 0; i < n; i++) { q->write(new Item(i % 60)); e += i % 60; if (how) { quiesce(); MC_CHECK(*got == i + 1, "after %d writes %ld of %d readers have returned", i + 1, *got, n); } }
	quiesce(); MC_CHECK(*got == n && *sum == e && q->size() == 0, "%d writes free %ld of %d readers", n, *got, n); joinAll(); delete q; MC_CHECK(gCensus->live == 0, "element lost"); outcome(std::to_string(n));
}
MC_SCENARIO(C02, many_readers, CONC, "up to six blocked readers, list storage", o.fixedOrder = true, o.quick = 2, o.thorough = 4, o.races = false) { gCensus = new Census(); manyReaders<InterthreadQueue<Item> >(); }
MC_SCENARIO(C02, many_readers_with_wait, CONC, "up to six blocked readers, queue with low-water wait", o.fixedOrder = true, o.quick = 2, o.thorough = 4, o.races = false) { gCensus = new Census(); manyReaders<InterthreadQueueWithWait<Item> >(); }
MC_SCENARIO(C02, many_readers_priority, CONC, "up to six blocked readers, priority queue", o.fixedOrder = true, o.quick = 2, o.thorough = 4, o.races = false) { gCensus = new Census(); manyReaders<InterthreadPriorityQueue<Item> >(); }

// ================================================================ C03: timed reads
static const int phases[] = { 0, 500000, 999999, 1000000 - 20000, 1000000 - 21000, 1 };
// One reader with time-out T; the element arrives d ms later (or never).  Slack for rounding: 2 ms.
template <class Q> static void oneTimed(const std::vector<unsigned> &T, bool wakeNoise)
{
	setClock(1700000000, phases[choose(6, "clock phase")]);
	gCensus = new Census();
	Q *q = new Q;
	unsigned t = T[choose(T.size(), "time-out")];
	long delays[] = { -1, 0, 1, (long)t / 2, (long)t - 4, (long)t + 5 };
	long d = delays[choose(6, "arrival")];
	if (d < -1) skip();
	int64_t start = nowUs(), *got = new int64_t(-1); long *val = new long(-2);
	int rd = spawn([=] { int64_t s = nowUs(); Item *i = q->read(t); *got = nowUs() - s; *val = i ? i->v : -1; delete i; });
	if (d >= 0) spawn([=] { if (d) usleep(d * 1000); q->write(new Item(7)); });
	if (wakeNoise) spawn([=] { q->write(new Item(5)); Item *i = q->readNoBlock(); delete i; usleep(5000); q->write(new Item(6)); i = q->readNoBlock(); delete i; });
	joinAll();
	double ms = *got / 1000.0;
	(void)start; (void)rd;
	outcome(*val < 0 ? "timed out" : "got an element");
	if (t == 0) { MC_CHECK(ms == 0 || timeoutsFired(), "a zero time-out read waited %g ms", ms); }
	else if (*val < 0) {
		MC_CHECK(ms >= (double)t - 2.0, "read(%u) gave up after %g ms", t, ms);
		MC_CHECK(d < 0 || d > (long)t - 3 || timeoutsFired(), "read(%u) returned nothing although an element arrived after %ld ms", t, d);
	}
	if (d < 0 && !wakeNoise) MC_CHECK(*val < 0, "read returned an element nobody wrote");
	if (!wakeNoise && d >= 0 && d < (long)t - 3 && !timeoutsFired()) MC_CHECK(*val == 7, "read(%u) returned %ld although an element arrived after %ld ms", t, *val, d);
	MC_CHECK(ms <= (double)t + 2.0 || timeoutsFired(), "read(%u) took %g ms", t, ms);
	if (!timeoutsFired() && *val >= 0 && d >= 0 && !wakeNoise) MC_CHECK(ms >= 0 && ms <= (double)(d < 0 ? 0 : d) + 1.0, "read(%u) returned an element %g ms late", t, ms - d);
	delete q;
	MC_CHECK(gCensus->live == 0, "element lost");
}
#define TIMED(NAME, Q) \
MC_SCENARIO(C03, NAME, CONC, "one timed reader, one element arriving before/at/after the limit, every clock phase", o.quick = 2, o.thorough = 3) { oneTimed<Q>({ 0, 1, 2, 20, 21, 1000, 999, 1500 }, false); } \
MC_SCENARIO(C03, NAME##_noise, CONC, "timed reader woken by elements others take", o.quick = 1, o.thorough = 3) { oneTimed<Q>({ 20, 21, 50 }, true); } \
MC_SCENARIO(C03, NAME##_long, CONC, "very long time-outs", o.quick = 1, o.thorough = 2) { oneTimed<Q>({ 60000, 86400000u, 2147483u, 2147483647u, 2147484000u, 3000000000u, 4294967295u }, false); }
TIMED(list, QList)
TIMED(intrusive, QSll)
TIMED(with_wait, QWait)
TIMED(priority, QPrio)
MC_SCENARIO(C03, spurious, CONC, "wake-ups without reason do not extend or cut the wait", o.spurious = true, o.quick = 2, o.thorough = 3) { oneTimed<QList>({ 20, 50 }, false); }
// The reader gets to run only after its limit, but the element arrived well before it.
template <class Q> static void lateReader()
{
	setClock(1700000000, phases[choose(3, "clock phase")]); gCensus = new Census(); Q *q = new Q;
	static const unsigned T[] = { 3, 20, 1000, 4294967295u }; unsigned t = T[choose(4, "time-out")]; int64_t lim = (int64_t)t * 1000;
	int noise = choose(2, "wake-up before"); static const int64_t off[] = { -4000, 0, 1, 5000000 }; int64_t extra = off[choose(4, "reader runs")];
	int64_t s = nowUs(), *end = new int64_t(-1), *wrote = new int64_t(-1); long *val = new long(-2);
	spawn([=] { Item *i = q->read(t); *end = nowUs(); *val = i ? i->v : -1; delete i; }, "reader");
	usleep(100);
	if (noise) { q->write(new Item(5)); Item *i = q->readNoBlock(); delete i; }
	q->write(new Item(7)); *wrote = nowUs(); if (lim + extra > 0) advance(lim + extra);
	joinAll();
	if (*wrote - s <= lim - 3000 && !(noise && *val == 5)) MC_CHECK(*val == 7, "read(%u) returned %ld although an element was queued %lld us after it began", t, *val, (long long)(*wrote - s));
	outcome(std::to_string(*val)); q->clear(); delete q; MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C03, late_list, CONC, "the reader runs only after its limit though the element came in time", o.quick = 2, o.thorough = 4) { lateReader<QList>(); }
MC_SCENARIO(C03, late_intrusive, CONC, "same, intrusive storage", o.quick = 2, o.thorough = 4) { lateReader<QSll>(); }
MC_SCENARIO(C03, late_with_wait, CONC, "same, queue with low-water wait", o.quick = 2, o.thorough = 4) { lateReader<QWait>(); }
MC_SCENARIO(C03, late_priority, CONC, "same, priority queue", o.quick = 2, o.thorough = 4) { lateReader<QPrio>(); }
MC_SCENARIO(C03, late_map, CONC, "same, timed lookup in the map, with and without removal", o.quick = 2, o.thorough = 4)
{
	setClock(1700000000, phases[choose(3, "clock phase")]); InterthreadMap1<int, long> *m = new InterthreadMap1<int, long>;
	static const unsigned T[] = { 3, 20, 1000, 4294967295u }; unsigned t = T[choose(4, "time-out")]; int64_t lim = (int64_t)t * 1000; int rm = choose(2, "remove"), noise = choose(2, "other key before");
	static const int64_t off[] = { -4000, 0, 1, 5000000 }; int64_t extra = off[choose(4, "reader runs")]; int64_t s = nowUs(), *wrote = new int64_t(-1); long *val = new long(-2);
	spawn([=] { long v = -1; bool ok = m->get(1, v, t, rm); *val = ok ? v : -1; }, "reader");
	usleep(100); if (noise) m->write(2, 9); m->write(1, 7); *wrote = nowUs(); if (lim + extra > 0) advance(lim + extra);
	joinAll(); if (*wrote - s <= lim - 3000) MC_CHECK(*val == 7, "get(%u) returned %ld although the key was written %lld us after it began", t, *val, (long long)(*wrote - s));
	outcome(std::to_string(*val)); delete m;
}
// Another thread keeps the container busy (it is deleting slow elements) while the reader's limit runs: the time the reader is
// kept out counts.  The reader starts 1 ms after the deletion began.
struct SlowItem : public SingleLinkListNode {
	long v; int ms;
	SlowItem(long wV, int wMs) : v(wV), ms(wMs) {}
	~SlowItem() { if (ms) usleep(ms * 1000); }
	SlowItem *next() { return (SlowItem *)SingleLinkListNode::next(); }
	bool operator>(const SlowItem &o) const { return v > o.v; }
};
struct BusyMap : public InterthreadMap1<int, SlowItem *> { void vdelete(SlowItem *i) { delete i; } };
static void busy(std::function<void()> start, std::function<SlowItem *(unsigned)> read, std::function<void(SlowItem *)> write, std::function<void()> end, std::function<void(int)> prepare)
{
	setClock(1700000000, phases[choose(3, "clock phase")]);
	static const unsigned T[] = { 20, 50, 1000 }; unsigned t = T[choose(3, "time-out")];
	static const int H[] = { 10, 19, 45, 990, 1500 }; int h = H[choose(5, "busy for")];
	static const int W[] = { -1, 2, 12, 30, 48, 1200 }; int w = W[choose(6, "element arrives")];
	prepare(h);
	int64_t *from = new int64_t(-1), *got = new int64_t(-1), *wrote = new int64_t(-1), *freed = new int64_t(-1), t0 = nowUs(); long *val = new long(-2);
	spawn([=] { start(); *freed = nowUs() - t0; }, "busy thread");
	spawn([=] { usleep(1000); *from = nowUs() - t0; SlowItem *i = read(t); *got = nowUs() - t0; *val = i ? i->v : -1; delete i; }, "reader");
	if (w >= 0) spawn([=] { usleep(w * 1000); write(new SlowItem(7, 0)); *wrote = nowUs() - t0; }, "writer");
	joinAll();
	if (timeoutsFired() || *from > 1000) { end(); return; }
	int64_t limit = *from + (int64_t)t * 1000;
	if (*val < 0) {
		MC_CHECK(*got <= std::max(limit, *freed) + 2000, "read(%u) begun at %lld us returned nothing at %lld us; the container was busy until %lld us", t, (long long)*from, (long long)*got, (long long)*freed);
		MC_CHECK(*got >= limit - 2000, "read(%u) gave up after %lld us", t, (long long)(*got - *from));
		MC_CHECK(*wrote < 0 || *wrote > std::max(limit - 3000, *freed - 1), "read(%u) returned nothing though an element was there", t);
	} else MC_CHECK(*got <= std::max(limit, *freed) + 2000, "read(%u) took %lld us", t, (long long)(*got - *from));
	outcome(*val < 0 ? "timed out" : "got an element");
	end();
}
template <class Q> static void busyQueue()
{
	Q *q = new Q;
	busy([=] { q->clear(); }, [=](unsigned t) { return q->read(t); }, [=](SlowItem *i) { q->write(i); }, [=] { q->clear(); delete q; }, [=](int h) { q->write(new SlowItem(1, h / 2)); q->write(new SlowItem(2, h - h / 2)); });
}
MC_SCENARIO(C03, busy_list, CONC, "the queue is kept busy by another thread while the limit runs", o.quick = 1, o.thorough = 3) { busyQueue<InterthreadQueue<SlowItem> >(); }
MC_SCENARIO(C03, busy_intrusive, CONC, "same, intrusive storage", o.quick = 1, o.thorough = 3) { busyQueue<InterthreadQueue<SlowItem, SingleLinkList<SlowItem> > >(); }
MC_SCENARIO(C03, busy_with_wait, CONC, "same, queue with low-water wait", o.quick = 1, o.thorough = 3) { busyQueue<InterthreadQueueWithWait<SlowItem> >(); }
MC_SCENARIO(C03, busy_priority, CONC, "same, priority queue", o.quick = 1, o.thorough = 3) { busyQueue<InterthreadPriorityQueue<SlowItem> >(); }
MC_SCENARIO(C03, busy_map, CONC, "same, timed lookup in the map", o.quick = 1, o.thorough = 3)
{
	BusyMap *m = new BusyMap;
	busy([=] { m->write(1, new SlowItem(2, 0)); }, [=](unsigned t) { SlowItem *i = 0; return m->get(3, i, t) ? i : (SlowItem *)0; }, [=](SlowItem *i) { m->write(3, i); }, [=] { delete m; }, [=](int h) { m->write(1, new SlowItem(1, h)); });
}
// map: timed get
MC_SCENARIO(C03, map_get, CONC, "timed lookup in the map", o.quick = 2, o.thorough = 3)
{
	setClock(1700000000, phases[choose(6, "clock phase")]);
	static const unsigned T[] = { 0, 1, 20, 21, 1000, 86400000u, 2147483647u, 3000000000u, 4294967295u };
	unsigned t = T[choose(9, "time-out")]; int rm = choose(3, "variant");
	long delays[] = { -1, 0, 1, (long)t / 2, (long)t - 4, (long)t + 5 };
	long d = delays[choose(6, "arrival")];
	if (d < -1) skip();
	InterthreadMap1<int, long> *m = new InterthreadMap1<int, long>;
	int64_t *got = new int64_t(-1); long *val = new long(0); bool *ok = new bool(false);
	spawn([=] { int64_t s = nowUs(); if (rm == 2) { *val = m->read(3, t); *ok = *val != 0; } else *ok = m->get(3, *val, t, rm); *got = nowUs() - s; });
	if (d >= 0) spawn([=] { if (d) usleep(d * 1000); m->write(4, 1); m->write(3, 77); });
	joinAll();
	double ms = *got / 1000.0;
	outcome(*ok ? "found" : "timed out");
	if (t == 0) MC_CHECK(ms == 0 || timeoutsFired(), "a zero time-out lookup waited %g ms", ms);
	else if (!*ok) MC_CHECK(ms >= (double)t - 2.0, "get with time-out %u gave up after %g ms", t, ms);
	if (*ok) MC_CHECK(*val == 77 && d >= 0, "wrong value %ld", *val);
	if (d >= 0 && d < (long)t - 3 && !timeoutsFired()) MC_CHECK(*ok, "get with time-out %u missed a value that arrived after %ld ms", t, d);
	MC_CHECK(ms <= (double)t + 2.0 || timeoutsFired(), "get with time-out %u took %g ms", t, ms);
	delete m;
}

// ================================================================ C04: connected queues
MC_SCENARIO(C04, wait_either, CONC, "one consumer waits on two connected queues, two producers", o.quick = 2, o.thorough = 99)
{
	gCensus = new Census();
	QList *a = new QList, *b = new QList;
	int dir = choose(2, "direction");
	if (dir) a->iqConnect(*b); else b->iqConnect(*a);
	int via = choose(2, "waiter"), n = 2 + choose(2, "elements"), front = choose(2, "front");
	unsigned tmo = choose(2, "time-out") ? 100 : 0;
	int *seen = new int(0);
	spawn([=] {
		int k = 0;
		while (k < n) {
			if (via) a->iqWaitForEither(*b, tmo); else b->iqWaitForEither(*a, tmo);
			Item *i = a->readNoBlock(); if (!i) i = b->readNoBlock();
			if (!tmo) MC_CHECK(i, "the wait ended although both queues are empty");
			if (i) { k++; *seen |= 1 << i->v; delete i; }
			else if (timeoutsFired() || tmo) { if (nowUs() > 1000000) break; }
		}
	}, "consumer");
	spawn([=] { if (front) a->write_front(new Item(0)); else a->write(new Item(0)); if (n == 3) b->write(new Item(2)); }, "producer A");
	spawn([=] { b->write(new Item(1)); }, "producer B");
	joinAll();
	while (Item *i = a->readNoBlock()) { *seen |= 1 << i->v; delete i; } while (Item *i = b->readNoBlock()) { *seen |= 1 << i->v; delete i; }	// what came after a consumer tired of waiting left
	MC_CHECK(*seen == (1 << n) - 1, "elements lost: seen mask %d of %d", *seen, n);
	if (dir) { delete a; delete b; } else { delete b; delete a; }	// the one that lends its lock goes last
	MC_CHECK(gCensus->live == 0, "element lost");
	outcome("ok");
}
MC_SCENARIO(C04, wait_either_timeout, CONC, "waiting on two queues with a time-out and late or no elements", o.quick = 2, o.thorough = 3)
{
	setClock(1700000000, phases[choose(6, "clock phase")]);
	gCensus = new Census();
	QList *a = new QList, *b = new QList;
	int dir = choose(2, "direction");
	if (dir) a->iqConnect(*b); else b->iqConnect(*a);
	int which = choose(2, "queue");
	static const unsigned T[] = { 1, 20, 21, 500, 2147484000u, 4294967295u };
	unsigned t = T[choose(6, "time-out")];
	long delays[] = { -1, 0, (long)t / 2, (long)t - 4, (long)t + 5 };
	long d = delays[choose(5, "arrival")];
	if (d < -1) skip();
	int64_t *el = new int64_t(-1); bool *have = new bool(false);
	spawn([=] { int64_t s = nowUs(); a->iqWaitForEither(*b, t); *el = nowUs() - s; *have = a->size() + b->size() > 0; });
	if (d >= 0) spawn([=] { if (d) usleep(d * 1000); (which ? a : b)->write(new Item(3)); });
	joinAll();
	double ms = *el / 1000.0;
	MC_CHECK(ms <= (double)t + 2 || timeoutsFired(), "wait of %u ms took %g ms", t, ms);
	if (d >= 0 && d < (long)t - 3 && !timeoutsFired()) MC_CHECK(*have && ms <= d + 1.0, "the wait missed an element that arrived after %ld ms (returned at %g ms)", d, ms);
	if (!*have) MC_CHECK(ms >= (double)t - 2.0, "wait of %u ms gave up after %g ms with nothing queued", t, ms);
	outcome(*have ? "element" : "timed out");
	if (dir) { delete a; delete b; } else { delete b; delete a; }
}
template <class F> static void eitherNoise(F conn)
{
	setClock(1700000000, phases[choose(3, "clock phase")]); gCensus = new Census();
	QList *a = new QList, *b = new QList; int dir = conn(a, b);
	static const unsigned T[] = { 20, 50, 0 }; unsigned t = T[choose(3, "time-out")]; int nz = choose(4, "elements others take at once"), late = t ? choose(2, "an element stays") : 1;
	int64_t *el = new int64_t(-1); bool *have = new bool(false);
	spawn([=] { int64_t s = nowUs(); a->iqWaitForEither(*b, t); *el = nowUs() - s; *have = a->size() + b->size() > 0; }, "waiter");
	// others take each element before anyone else can see it: both happen under the lock
	if (nz) spawn([=] { for (int k = 0; k < nz; k++) { QList *q = k & 1 ? b : a; { ScopedLock l(q->qGetLock()); q->write(new Item(k)); Item *i = q->readNoBlock(); delete i; } if (k == 1) usleep(3000); } }, "others");
	if (late) spawn([=] { usleep(10000); b->write(new Item(9)); }, "writer");
	joinAll(); double ms = *el / 1000.0;
	if (!*have) MC_CHECK(t && ms >= (double)t - 2.0, "waiting %u ms for either of two queues ended after %g ms with both empty", t, ms);
	if (t) MC_CHECK(ms <= t + 2.0 || timeoutsFired(), "wait of %u ms took %g ms", t, ms);
	outcome(*have ? "element" : "timed out"); a->clear(); b->clear(); if (dir) { delete a; delete b; } else { delete b; delete a; } MC_CHECK(gCensus->live == 0, "element lost");
}
static int connectEither(QList *a, QList *b) { int d = choose(2, "direction"); if (d) a->iqConnect(*b); else b->iqConnect(*a); return d; }
MC_SCENARIO(C04, busy, CONC, "the queues are kept busy by another thread while the limit of the waiter runs", o.quick = 1, o.thorough = 3)
{
	typedef InterthreadQueue<SlowItem> Q; Q *a = new Q, *b = new Q; int dir = choose(2, "direction"); if (dir) a->iqConnect(*b); else b->iqConnect(*a);
	int side = choose(2, "busy side"); Q *x = side ? a : b;
	busy([=] { x->clear(); }, [=](unsigned t) { a->iqWaitForEither(*b, t); SlowItem *i = a->readNoBlock(); return i ? i : b->readNoBlock(); }, [=](SlowItem *i) { x->write(i); },
		[=] { a->clear(); b->clear(); if (dir) { delete a; delete b; } else { delete b; delete a; } }, [=](int h) { x->write(new SlowItem(1, h / 2)); x->write(new SlowItem(2, h - h / 2)); });
}
MC_SCENARIO(C04, busy_read, CONC, "a timed read of a connected queue while another thread keeps the other one busy", o.quick = 1, o.thorough = 3)
{
	typedef InterthreadQueue<SlowItem> Q; Q *a = new Q, *b = new Q; int dir = choose(2, "direction"); if (dir) a->iqConnect(*b); else b->iqConnect(*a);
	busy([=] { a->clear(); }, [=](unsigned t) { return b->read(t); }, [=](SlowItem *i) { b->write(i); },
		[=] { a->clear(); b->clear(); if (dir) { delete a; delete b; } else { delete b; delete a; } }, [=](int h) { a->write(new SlowItem(1, h / 2)); a->write(new SlowItem(2, h - h / 2)); });
}
MC_SCENARIO(C04, wait_either_noise, CONC, "the waiter of two queues is woken by elements others take", o.quick = 2, o.thorough = 4) { eitherNoise(connectEither); }
MC_SCENARIO(C04, wait_either_spurious, CONC, "the waiter of two queues is woken without reason", o.spurious = true, o.quick = 1, o.thorough = 3) { eitherNoise(connectEither); }
// three queues connected one after another share one lock and signal, whichever way the chain was built
MC_SCENARIO(C04, chain, CONC, "three queues connected in a chain: waiting for and iterating any two of them", o.quick = 2, o.thorough = 4)
{
	gCensus = new Census(); QList *q[3]; for (auto &x : q) x = new QList; int shape = choose(3, "chain");
	if (shape == 0) { q[1]->iqConnect(*q[0]); q[2]->iqConnect(*q[1]); } else if (shape == 1) { q[1]->iqConnect(*q[0]); q[2]->iqConnect(*q[0]); } else { q[1]->iqConnect(*q[0]); q[2]->iqConnect(*q[1]); q[1]->iqConnect(*q[2]); }
	MC_CHECK(&q[0]->qGetLock() == &q[1]->qGetLock() && &q[1]->qGetLock() == &q[2]->qGetLock(), "connected queues have different locks");
	int x = choose(3, "waits on"), y = (x + 1 + choose(2, "or on")) % 3, w = choose(2, "written") ? x : y, front = choose(2, "front"); unsigned t = choose(2, "time-out") ? 50 : 0; long d = choose(2, "later") * 10000;
	QList *qx = q[x], *qy = q[y], *qw = q[w]; int64_t *el = new int64_t(-1); bool *have = new bool(false);
	spawn([=] { int64_t s = nowUs(); qx->iqWaitForEither(*qy, t); *el = nowUs() - s; *have = qx->size() + qy->size() > 0; }, "waiter");
	spawn([=] { if (d) usleep(d); if (front) qw->write_front(new Item(4)); else qw->write(new Item(4)); }, "writer");
	joinAll(); if (!timeoutsFired()) MC_CHECK(*have && *el <= d + 1000, "the wait missed an element written after %ld us (returned after %lld us)", d, (long long)*el);
	MC_CHECK(*have || t, "the wait without time-out ended with both queues empty"); outcome(*have ? "element" : "timed out");
	for (int i = 2; i >= 0; i--) delete q[i];
	MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C04, iterate_locked, CONC, "iterating a connected queue under its own lock while the other side is written", o.quick = 2, o.thorough = 99)
{
	gCensus = new Census();
	QList *a = new QList, *b = new QList;
	int conn = choose(3, "connection");
	if (conn == 1) a->iqConnect(*b); else if (conn == 2) b->iqConnect(*a);
	QList *q = choose(2, "queue") ? a : b;
	q->write(new Item(0));
	int w = choose(3, "other side");
	spawn([=] { ScopedLock l(q->qGetLock()); int n = 0, s = 0; for (QList::iterator it = q->begin(); it != q->end(); ++it) { n++; s += (*it)->v; point(); } outcome(std::to_string(n)); });
	spawn([=] { if (w == 0) q->write(new Item(1)); else if (w == 1) { Item *i = q->readNoBlock(); delete i; } else q->clear(); });
	joinAll();
	if (conn == 1) { delete a; delete b; } else { delete b; delete a; }
	MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C04, reads_after_connect, CONC, "plain blocking reads on connected queues with two consumers", o.quick = 3, o.thorough = 99)
{
	// Both queues share one lock and signal, so each queue has one kind of consumer at a time here.
	gCensus = new Census();
	QList *a = new QList, *b = new QList;
	a->iqConnect(*b);
	QList *q = choose(2, "queue") ? a : b;
	int timed = choose(2, "timed");
	spawn([=] { Item *i = timed ? q->read(100) : q->read(); if (i) { MC_CHECK(i->v == 4, "wrong element"); delete i; } else MC_CHECK(timed && timeoutsFired(), "nothing read"); });
	spawn([=] { q->write(new Item(4)); });
	joinAll();
	delete a; delete b;
	MC_CHECK(gCensus->live == 0, "element lost");
}

// a queue connected to another, used alone; and timed reads of it while the other is written
struct Lender { QList other; }; struct QConn : Lender, QList { QConn() { iqConnect(other); } };
struct QConnTo : QList { QList other; QConnTo() { other.iqConnect(*this); } };
template <class Q> static void connTimed()
{
	setClock(1700000000, phases[choose(2, "clock phase")]); gCensus = new Census(); Q *q = new Q;
	unsigned t = choose(2, "time-out") ? 50 : 21; long d = choose(3, "arrival") * 15 - 1; int nz = choose(4, "writes to the other queue"); bool front = choose(2, "front");
	int64_t *got = new int64_t(-1); long *val = new long(-2);
	spawn([=] { int64_t s = nowUs(); Item *i = q->read(t); *got = nowUs() - s; *val = i ? i->v : -1; delete i; }, "reader");
	if (nz) spawn([=] { for (int k = 0; k < nz; k++) { q->other.write(new Item(9)); usleep(3000); } }, "other queue");
	if (d >= 0) spawn([=] { usleep(d * 1000); if (front) q->write_front(new Item(7)); else q->write(new Item(7)); }, "this queue");
	joinAll();
	double ms = *got / 1000.0;
	if (*val < 0) MC_CHECK(ms >= (double)t - 2.0, "read(%u) of a connected queue gave up after %g ms", t, ms);
	else MC_CHECK(*val == 7, "read an element of the other queue");
	if (!timeoutsFired()) { MC_CHECK(ms <= t + 2.0, "read(%u) took %g ms", t, ms); if (d >= 0 && d < (long)t - 3) MC_CHECK(*val == 7 && ms <= d + 1.0, "read(%u) returned %ld after %g ms although an element arrived after %ld ms", t, *val, ms, d); }
	MC_CHECK((int)q->other.size() == nz, "the other queue holds %zu elements, expected %d", q->other.size(), nz);
	outcome(*val < 0 ? "timed out" : "element"); q->clear(); q->other.clear(); MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C04, timed_connected, CONC, "a timed reader of one queue while both are written", o.quick = 1, o.thorough = 3) { connTimed<QConn>(); }
MC_SCENARIO(C04, timed_lender, CONC, "the same on the queue that lends its lock", o.quick = 1, o.thorough = 3) { connTimed<QConnTo>(); }
MC_SCENARIO(C04, programs_connected, CONC, "every pair of 2-command programs on a connected queue is still atomic and FIFO", o.quick = 1, o.thorough = 3)
{ programs<QConn>(2, 2, { {WRITE,0}, {WFRONT,0}, {READNB,0}, {READ,0}, {FRONT,0}, {SIZE,0}, {CLEAR,0} }, 2, fifoStep); }
MC_SCENARIO(C04, wakeups_connected, CONC, "up to 3 blocked readers of a connected queue", o.quick = 1, o.thorough = 3) { wakeups<QConn>(fifoStep); }

// ================================================================ C05: low-water wait
MC_SCENARIO(C05, marks, CONC, "two producers-side waiters with different marks, consumers of every kind", o.quick = 2, o.thorough = 3)
{
	Driver *d = new Driver;
	QWait *q = new QWait;
	int pre = 1 + choose(3, "preloaded");
	for (int i = 0; i < pre; i++) issue(*d, *q, WRITE, d->nextVal++);
	int nw = 1 + choose(2, "waiters");
	int m1 = choose(3, "mark"), m2 = nw > 1 ? choose(3, "mark") : 0;
	if (nw > 1 && m2 < m1) skip();
	int how = choose(5, "consumer");
	spawn([=] { issue(*d, *q, WAITLOW, m1); }, "waiter 1");
	if (nw > 1) spawn([=] { issue(*d, *q, WAITLOW, m2); }, "waiter 2");
	auto consume = [=](int n) {
		for (int i = 0; i < n; i++)
			switch (how) {
			case 0: issue(*d, *q, READ, 0); break;
			case 1: issue(*d, *q, READT, 100); break;
			case 2: issue(*d, *q, READNB, 0); break;
			case 3: issue(*d, *q, CLEAR, 0); break;
			case 4: issue(*d, *q, i & 1 ? READT : READNB, 100); break;
			}
	};
	int split = choose(2, "consumers");
	if (how == 3) spawn([=] { consume(1); }, "consumer");
	else if (split && pre > 1) { spawn([=] { consume(1); }, "consumer 1"); spawn([=] { consume(pre - 1); }, "consumer 2"); }
	else spawn([=] { consume(pre); }, "consumer");
	joinAll();	// the queue ends empty, so no waiter may be left behind
	MC_CHECK(linearizable(d->h.all(), Model(), fifoStep), "a waiter returned above its mark or a result is wrong: %s", d->h.str(kn).c_str());
	outcome(outStr(d->h.all()));
	delete q;
	MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C05, partly, CONC, "the queue is only partly emptied, to each waiter's mark and no further", o.quick = 2, o.thorough = 3)
{
	Driver *d = new Driver; QWait *q = new QWait; int pre = 2 + choose(2, "preloaded"), left = choose(pre, "left"), how = choose(3, "consumer"), nw = 1 + choose(2, "waiters");
	for (int i = 0; i < pre; i++) issue(*d, *q, WRITE, d->nextVal++);
	for (int i = 0; i < nw; i++) { int m = left + i; spawn([=] { issue(*d, *q, WAITLOW, m); }, "waiter"); }
	spawn([=] { for (int i = 0; i < pre - left; i++) switch (how) { case 0: issue(*d, *q, READ, 0); break; case 1: issue(*d, *q, READT, 100); break; case 2: issue(*d, *q, READNB, 0); break; } }, "consumer");
	joinAll();	// every waiter's mark is reached, so none may be left behind
	MC_CHECK(linearizable(d->h.all(), Model(), fifoStep), "a waiter returned above its mark or a result is wrong: %s", d->h.str(kn).c_str()); MC_CHECK((int)q->size() == left, "%zu elements left", q->size());
	outcome(outStr(d->h.all())); delete q; MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C05, refill, CONC, "the queue is refilled while a producer waits for it to drain", o.quick = 2, o.thorough = 4)
{
	Driver *d = new Driver;
	QWait *q = new QWait;
	int mark = choose(2, "mark"), pre = choose(3, "preloaded");
	for (int i = 0; i < pre; i++) issue(*d, *q, WRITE, d->nextVal++);
	int v = d->nextVal;
	spawn([=] { issue(*d, *q, WAITLOW, mark); issue(*d, *q, WRITE, v); }, "producer");
	spawn([=] { issue(*d, *q, WRITE, v + 1); }, "other producer");
	spawn([=] { for (int i = 0; i < pre + 2; i++) issue(*d, *q, READ, 0); }, "consumer");
	joinAll();
	MC_CHECK(linearizable(d->h.all(), Model(), fifoStep), "a waiter returned above its mark or a result is wrong: %s", d->h.str(kn).c_str());
	outcome(outStr(d->h.all()));
	delete q;
	MC_CHECK(gCensus->live == 0, "element lost");
}
MC_SCENARIO(C05, spurious, CONC, "waiters woken without reason", o.spurious = true, o.quick = 2, o.thorough = 3)
{
	Driver *d = new Driver;
	QWait *q = new QWait;
	int pre = 2, mark = choose(2, "mark");
	for (int i = 0; i < pre; i++) issue(*d, *q, WRITE, d->nextVal++);
	spawn([=] { issue(*d, *q, WAITLOW, mark); }, "waiter");
	spawn([=] { issue(*d, *q, READ, 0); issue(*d, *q, READ, 0); }, "consumer");
	joinAll();
	MC_CHECK(linearizable(d->h.all(), Model(), fifoStep), "a waiter returned above its mark: %s", d->h.str(kn).c_str());
	delete q;
	outcome("ok");
}

// ================================================================ C06: maps
enum MK { MWRITE, MGETNB, MREADNB, MGET, MREAD, MGETT, MREADT, MREMOVE, MSIZE, MPEEK };
static const char *const mkn[] = { "write", "getNoBlock", "readNoBlock", "get", "read", "get(timed)", "read(timed)", "remove", "size", "getNoBlock(keep)" };
typedef std::map<long, long> MModel;
static bool mapStep(MModel &m, const Op &o)	// a = key, b = value; res 0 = absent
{
	long k = o.a; MModel::iterator it = m.find(k);
	long have = it == m.end() ? 0 : it->second;
	switch (o.kind) {
	case MWRITE: m[k] = o.b; return true;
	case MGETNB: case MGETT: if (o.res != have) return false; m.erase(k); return true;
	case MREADNB: case MREADT: case MPEEK: return o.res == have;
	case MGET: if (!have || o.res != have) return false; m.erase(k); return true;
	case MREAD: return have && o.res == have;
	case MREMOVE: if (o.res != (have != 0)) return false; m.erase(k); return true;
	case MSIZE: return o.res == (long)m.size();
	}
	return false;
}
typedef InterthreadMap1<int, long> VMap;
static void mIssue(History &h, VMap &m, int k, int key, long val)
{
	int id = h.call(k, key, val);
	long r = 0; 
	switch (k) {
	case MWRITE: m.write(key, val); break;
	case MGETNB: if (!m.getNoBlock(key, r)) r = 0; break;
	case MPEEK: if (!m.getNoBlock(key, r, false)) r = 0; break;
	case MREADNB: r = m.readNoBlock(key); break;
	case MGET: if (!m.get(key, r)) r = -9; break;
	case MREAD: r = m.read(key); break;
	case MGETT: if (!m.get(key, r, 30u)) r = 0; break;
	case MREADT: r = m.read(key, 30u); break;
	case MREMOVE: r = m.remove(key); break;
	case MSIZE: r = m.size(); break;
	}
	h.ret(id, r);
	note("%s(%d,%ld) = %ld", mkn[k], key, val, r);
}
struct MCmd { int k, key; };
static void mapPrograms(int threads, int len, const std::vector<MCmd> &alpha, int maxPre, bool sym = true)
{
	History *h = new History; VMap *m = new VMap;
	long *next = new long(1);
	int pre = choose(maxPre + 1, "preloaded");
	for (int i = 0; i < pre; i++) mIssue(*h, *m, MWRITE, i + 1, (*next)++);
	std::vector<int> code(threads);
	std::vector<std::vector<MCmd> > p(threads);
	for (int t = 0; t < threads; t++) {
		code[t] = 0;
		for (int i = 0; i < len; i++) { int c = choose(alpha.size(), "command"); p[t].push_back(alpha[c]); code[t] = code[t] * alpha.size() + c; }
		if (sym && t && code[t] < code[t - 1]) skip();
	}
	for (int t = 0; t < threads; t++) {
		auto *cmds = new std::vector<MCmd>(p[t]); long v = 10 + t * 10;
		spawn([=] { long n = v; for (auto &c : *cmds) mIssue(*h, *m, c.k, c.key, n++); });
	}
	for (int round = 0; round < 8; round++) {
		quiesce();
		bool stuck = false;
		for (int t = 1; t <= threads; t++) if (!finished(t)) stuck = true;
		if (!stuck) break;
		// every thread still waiting wants key 1 or 2; a key that is present must release its waiters
		for (int key = 1; key <= 2; key++) mIssue(*h, *m, MREADNB, key, 0);
		for (int key = 1; key <= 2; key++) mIssue(*h, *m, MWRITE, key, 100 + round * 2 + key);
	}
	joinAll();
	for (int key = 1; key <= 2; key++) mIssue(*h, *m, MREADNB, key, 0);
	mIssue(*h, *m, MSIZE, 0, 0);
	MC_CHECK(linearizable(h->all(), MModel(), mapStep), "results do not correspond to any order of the operations: %s", h->str(mkn).c_str());
	std::string s; for (auto &o : h->all()) { char b[60]; snprintf(b, sizeof b, "t%d:%s(%ld)=%ld ", o.thread, mkn[o.kind], o.a, o.res); s += b; }
	outcome(s);
	delete m;
}
MC_SCENARIO(C06, non_blocking, CONC, "every pair of 2-command programs over one or two keys", o.quick = 2, o.thorough = 99)
{ mapPrograms(2, 2, { {MWRITE,1}, {MGETNB,1}, {MREADNB,1}, {MREMOVE,1}, {MSIZE,0}, {MWRITE,2}, {MPEEK,2} }, 2); }
MC_SCENARIO(C06, blocking, CONC, "blocking lookups with and without removal", o.quick = 2, o.thorough = 99)
{ mapPrograms(2, 2, { {MWRITE,1}, {MGET,1}, {MREAD,1}, {MREMOVE,1}, {MWRITE,2}, {MGET,2} }, 1); }
MC_SCENARIO(C06, three_threads, CONC, "three threads, one command each, blocking and timed", o.quick = 3, o.thorough = 99)
{ mapPrograms(3, 1, { {MWRITE,1}, {MGET,1}, {MREAD,1}, {MGETT,1}, {MREADT,1}, {MREMOVE,1}, {MGETNB,1}, {MWRITE,2}, {MREAD,2} }, 1); }
MC_SCENARIO(C06, timed, CONC, "timed lookups against writers", o.quick = 2, o.thorough = 3)
{ mapPrograms(2, 2, { {MWRITE,1}, {MGETT,1}, {MREADT,1}, {MREMOVE,1} }, 1); }
MC_SCENARIO(C06, spurious, CONC, "lookups woken without reason", o.spurious = true, o.quick = 2, o.thorough = 3)
{ mapPrograms(2, 1, { {MGET,1}, {MREAD,1}, {MGETT,1}, {MWRITE,1}, {MWRITE,2} }, 1); }
MC_SCENARIO(C06, many_waiters, CONC, "readers of different keys wait for one writer", o.quick = 3, o.thorough = 99)
{
	History *h = new History; VMap *m = new VMap;
	int k1 = 1 + choose(2, "key"), k2 = 1 + choose(2, "key"), k3 = choose(3, "third");
	spawn([=] { mIssue(*h, *m, MREAD, k1, 0); }); spawn([=] { mIssue(*h, *m, MREAD, k2, 0); });
	if (k3) spawn([=] { mIssue(*h, *m, MREAD, k3, 0); });
	spawn([=] { mIssue(*h, *m, MWRITE, 1, 5); mIssue(*h, *m, MWRITE, 2, 6); });
	joinAll();
	MC_CHECK(linearizable(h->all(), MModel(), mapStep), "wrong results: %s", h->str(mkn).c_str());
	outcome("ok"); delete m;
}
// one thread looks a key up; another writes, replaces and removes that key and another in every order
static void mapWaiter(int len, const std::vector<int> &looks)
{
	History *h = new History; VMap *m = new VMap; int pre = choose(4, "preloaded"), look = looks[choose(looks.size(), "lookup")];
	for (int k = 1; k <= 2; k++) if (pre & k) mIssue(*h, *m, MWRITE, k, k);
	static const MCmd al[] = { {MWRITE,1}, {MWRITE,2}, {MREMOVE,1}, {MREMOVE,2}, {MGETNB,1}, {MGETNB,2} };
	auto *cmds = new std::vector<MCmd>; for (int i = 0; i < len; i++) cmds->push_back(al[choose(6, "command")]);
	int t1 = spawn([=] { mIssue(*h, *m, look, 1, 0); }); spawn([=] { long n = 10; for (auto &c : *cmds) mIssue(*h, *m, c.k, c.key, n++); });
	quiesce();
	if (!finished(t1)) { MC_CHECK(m->readNoBlock(1) == 0, "a lookup still waits although its key holds %ld", m->readNoBlock(1)); mIssue(*h, *m, MWRITE, 2, 98); mIssue(*h, *m, MREMOVE, 2, 0); mIssue(*h, *m, MWRITE, 1, 99); }
	joinAll(); for (int key = 1; key <= 2; key++) mIssue(*h, *m, MREADNB, key, 0);
	MC_CHECK(linearizable(h->all(), MModel(), mapStep), "results do not correspond to any order of the operations: %s", h->str(mkn).c_str());
	outcome(std::to_string(finished(t1))); delete m;
}
MC_SCENARIO(C06, waiter, CONC, "one blocked lookup, every program of 3 (4 thorough) writes and removals of its key and another", o.quick = 2, o.thorough = 99, o.quickDepth = 3, o.thoroughDepth = 4) { mapWaiter(depth(), { MGET, MREAD }); }
MC_SCENARIO(C06, timed_waiter, CONC, "same with a timed lookup", o.quick = 1, o.thorough = 3, o.quickDepth = 3, o.thoroughDepth = 3) { mapWaiter(depth(), { MGETT, MREADT }); }
// a map of plain values tells its user about every value it drops, whatever the value
struct DropMap : InterthreadMap1<int, long> { std::map<long, int> *dropped; void vdelete(long v) { ++(*dropped)[v]; } };
MC_SCENARIO(C06, plain_values, CONC, "a map of plain values reports each value replaced or removed once, zero and repeats included", o.quick = 2, o.thorough = 99, o.quickDepth = 3, o.thoroughDepth = 4)
{
	DropMap *m = new DropMap; m->dropped = new std::map<long, int>; std::map<long, int> want; std::map<int, long> now;
	for (int i = 0; i < depth(); i++) {
		int c = choose(4, "operation"), k = choose(2, "key"); long v = choose(3, "value") - 1;
		if (c < 2) { if (now.count(k)) ++want[now[k]]; now[k] = v; m->write(k, v); }
		else if (c == 2) { bool was = now.count(k); if (was) ++want[now[k]]; MC_CHECK(m->remove(k) == was, "remove returns %d", !was); now.erase(k); }
		else { long r = 77; bool was = now.count(k); MC_CHECK(m->getNoBlock(k, r) == was && (!was || r == now[k]), "getNoBlock yields %ld", r); now.erase(k); }
		MC_CHECK(*m->dropped == want, "after operation %d the values dropped are not those replaced or removed", i + 1);
	}
	outcome(std::to_string(want.size())); delete m;
}
// values whose destructors use the map they were in, and values written again where they are
struct Member; typedef InterthreadMap<int, Member> MemberMap;
static MemberMap *gMembers; static int gMemberDead[16], gMemberMade;
struct Member {
	int id, key, kind, magic; Member(int k, int kd) : id(gMemberMade++), key(k), kind(kd), magic(0x600d) { gMemberDead[id] = 0; }
	~Member() { MC_CHECK(magic == 0x600d, "value %d deleted twice", id); magic = 0; gMemberDead[id]++; Member *v = 0;
		if (kind == 1) MC_CHECK(gMembers->readNoBlock(key) != this, "the map hands out value %d while it is being deleted", id);
		if (kind == 2) gMembers->remove(!key);
		if (kind == 3) { if (gMembers->getNoBlock(!key, v)) { MC_CHECK(v && v != this && v->magic == 0x600d, "got a deleted value"); delete v; } }
		if (kind == 4) { if (gMembers->getNoBlock(key, v)) { MC_CHECK(v && v != this && v->magic == 0x600d, "value %d finds itself or a deleted value in the map while it is deleted", id); delete v; } }
	}
};
MC_SCENARIO(C06, self_removing_values, CONC, "every sequence of writes, repeated writes and removals of values whose destructors look up or remove values of the same map, then the map's destruction", o.quickDepth = 3, o.thoroughDepth = 4)
{
	gMemberMade = 0; gMembers = new MemberMap; 
	for (int i = 0; i < depth(); i++) {
		int op = choose(4, "operation"), k = choose(2, "key");
		switch (op) {
		case 0: { int kind = choose(5, "destructor"); note("write %d, destructor %d", k, kind); gMembers->write(k, new Member(k, kind)); break; }
		case 1: { Member *m = gMembers->readNoBlock(k); if (!m) skip(); note("write %d again", k); gMembers->write(k, m); MC_CHECK(gMembers->readNoBlock(k) == m && m->magic == 0x600d, "a value written again where it was is deleted"); break; }
		case 2: { Member *m = gMembers->readNoBlock(k); if (!m) skip(); note("remove %d", k); int id = m->id; MC_CHECK(gMembers->remove(k) && gMemberDead[id] == 1, "remove leaves the value"); break; }
		case 3: { Member *m = 0; if (!gMembers->getNoBlock(k, m)) skip(); note("get %d", k); MC_CHECK(m->magic == 0x600d, "got a deleted value"); delete m; break; }
		}
		int live = 0; for (int j = 0; j < gMemberMade; j++) { MC_CHECK(gMemberDead[j] <= 1, "value %d deleted %d times", j, gMemberDead[j]); live += !gMemberDead[j]; } int in = 0; for (int q = 0; q < 2; q++) if (Member *m = gMembers->readNoBlock(q)) { in++; MC_CHECK(m->magic == 0x600d, "the map holds a deleted value"); }
		MC_CHECK(live == in && (int)gMembers->size() == in, "%d values live, the map of size %u holds %d", live, gMembers->size(), in);
	}
	delete gMembers; for (int j = 0; j < gMemberMade; j++) MC_CHECK(gMemberDead[j] == 1, "value %d deleted %d times", j, gMemberDead[j]); outcome(std::to_string(gMemberMade));
}
// ownership in the pointer map: replaced and removed values are deleted once, values got belong to the caller
MC_SCENARIO(C06, ownership, CONC, "pointer map: replacement, removal and destruction delete each value once", o.quick = 2, o.thorough = 3)
{
	gCensus = new Census();
	typedef InterthreadMap<int, Item> PMap;
	PMap *m = new PMap;
	int *next = new int(0), *held = new int(0);
	auto step = [=](int c, int v) {
		switch (c) {
		case 0: m->write(1, new Item(v)); break;
		case 1: m->write(2, new Item(v)); break;
		case 2: m->remove(1); break;
		case 3: { Item *i = 0; if (m->getNoBlock(1, i)) { MC_CHECK(i && i->magic == 0x600d, "got a deleted value"); delete i; } break; }
		case 4: { Item *i = 0; if (m->get(1, i, 20u)) { MC_CHECK(i && i->magic == 0x600d, "got a deleted value"); delete i; } break; }
		}
	};
	(void)next; (void)held;
	int a = choose(5, "cmd"), b = choose(5, "cmd"), c = choose(5, "cmd"), d = choose(5, "cmd");
	spawn([=] { step(a, 0); step(b, 1); });
	spawn([=] { step(c, 2); step(d, 3); });
	joinAll();
	delete m;
	MC_CHECK(gCensus->live == 0, "%d of %d values were never deleted", gCensus->live, gCensus->made);
	for (int i = 0; i < 4; i++) MC_CHECK(gCensus->dead[i] <= 1, "value deleted %d times", gCensus->dead[i]);
	outcome(std::to_string(gCensus->made));
}

// ================================================================ C07: priority queue
MC_SCENARIO(C07, programs, CONC, "every pair of 2-command programs", o.quick = 2, o.thorough = 99)
{ programs<QPrio>(2, 2, { {WRITE,0}, {READNB,0}, {READ,0}, {SIZE,0}, {CLEAR,0} }, 2, prioStep); }
MC_SCENARIO(C07, three_threads, CONC, "three threads, one command each", o.quick = 3, o.thorough = 99)
{ programs<QPrio>(3, 1, { {WRITE,0}, {READNB,0}, {READ,0}, {READT,30}, {CLEAR,0}, {SIZE,0} }, 2, prioStep); }
MC_SCENARIO(C07, blocked_readers, CONC, "up to 3 blocked readers, 1-2 writers", o.quick = 2, o.thorough = 99) { wakeups<QPrio>(prioStep); }
MC_SCENARIO(C07, competing_readers, CONC, "blocking, timed and polling readers compete", o.quick = 2, o.thorough = 4) { mixedReaders<QPrio>(prioStep); }
MC_SCENARIO(C07, timed, CONC, "one timed reader, one element arriving before/at/after the limit", o.quick = 1, o.thorough = 3) { oneTimed<QPrio>({ 0, 1, 20, 1000 }, false); }
MC_SCENARIO(C07, timed_noise, CONC, "timed reader woken by elements others take", o.quick = 1, o.thorough = 3) { oneTimed<QPrio>({ 20, 50 }, true); }
MC_SCENARIO(C07, spurious, CONC, "readers woken without reason", o.spurious = true, o.quick = 1, o.thorough = 3) { wakeups<QPrio>(prioStep); }
MC_SCENARIO(C07, order, CONC, "every order of up to 5 (6 thorough) priorities, with repeats and interleaved reads", o.quickDepth = 5, o.thoroughDepth = 7)
{
	gCensus = new Census();
	QPrio *q = new QPrio; std::vector<int> m; std::string s;
	int n = depth();
	for (int i = 0; i < n; i++) {
		int c = choose(5, "operation");
		if (c < 3) { q->write(new Item(c)); m.push_back(c); }
		else if (c == 3) { long v = take(q->readNoBlock()); long e = -1; if (m.size()) { auto it = std::min_element(m.begin(), m.end()); e = *it; m.erase(it); } MC_CHECK(v == e, "read %ld, expected %ld", v, e); s += std::to_string(v); }
		else { Item *p = q->peek(); long v = p ? p->v : -1; long e = m.empty() ? -1 : *std::min_element(m.begin(), m.end()); MC_CHECK(v == e, "peek %ld, expected %ld", v, e); }
		MC_CHECK(q->size() == m.size(), "size %zu, expected %zu", q->size(), m.size());
	}
	while (m.size()) { long v = take(q->read()); auto it = std::min_element(m.begin(), m.end()); MC_CHECK(v == *it, "read %ld, expected %d", v, *it); m.erase(it); s += std::to_string(v); }
	MC_CHECK(q->readNoBlock() == 0, "an extra element");
	outcome(s);
	delete q;
	MC_CHECK(gCensus->live == 0, "element lost");
}

// ================================================================ C08: semaphore
enum SK { SPOST, SGET, STRY };
static const char *const skn[] = { "post", "get", "semtry" };
static bool semStep(bool &f, const Op &o)
{
	switch (o.kind) {
	case SPOST: f = true; return true;
	case SGET: if (!f) return false; f = false; return true;
	case STRY: if (o.res != f) return false; f = false; return true;
	}
	return false;
}
static void semProgram(const std::vector<std::vector<int> > &p)
{
	History *h = new History; Semaphore *s = new Semaphore;
	auto issue = [=](int k) { int id = h->call(k); long r = 0; if (k == SPOST) s->post(); else if (k == SGET) s->get(); else r = s->semtry(); h->ret(id, r); note("%s = %ld", skn[k], r); };
	for (auto &c : p) { auto *v = new std::vector<int>(c); spawn([=] { for (int k : *v) issue(k); }); }
	for (int round = 0; round < 8; round++) {
		quiesce();
		int stuck = 0;
		for (unsigned t = 1; t <= p.size(); t++) if (!finished(t)) stuck++;
		if (!stuck) break;
		// everybody left is blocked in get(): the flag must be down, and one post must free one of them
		int id = h->call(STRY); bool f = s->semtry(); h->ret(id, f);
		MC_CHECK(!f, "a thread waits although the semaphore is posted");
		issue(SPOST);
		quiesce();
		int now = 0; for (unsigned t = 1; t <= p.size(); t++) if (!finished(t)) now++;
		(void)now;
	}
	joinAll();
	MC_CHECK(linearizable(h->all(), false, semStep), "results do not correspond to any order of the operations: %s", h->str(skn).c_str());
	std::string o; for (auto &x : h->all()) { o += skn[x.kind]; o += std::to_string(x.res); o += ' '; }
	outcome(o);
	delete s;
}
MC_SCENARIO(C08, pairs, CONC, "every pair of 3-command programs", o.quick = 3, o.thorough = 99)
{ std::vector<std::vector<int> > p(2); for (auto &v : p) for (int i = 0; i < 3; i++) v.push_back(choose(3, "command")); semProgram(p); }
MC_SCENARIO(C08, triples, CONC, "every triple of 2-command programs", o.quick = 1, o.thorough = 99)
{ std::vector<std::vector<int> > p(3); for (auto &v : p) for (int i = 0; i < 2; i++) v.push_back(choose(3, "command")); semProgram(p); }
MC_SCENARIO(C08, many_waiters, CONC, "up to 3 waiters and 2 posters", o.quick = 2, o.thorough = 99)
{ std::vector<std::vector<int> > p; int w = 2 + choose(2, "waiters"); for (int i = 0; i < w; i++) p.push_back({ SGET }); p.push_back({ SPOST, SPOST }); if (choose(2, "second poster")) p.push_back({ SPOST }); semProgram(p); }
MC_SCENARIO(C08, many_posts, CONC, "up to 70000 posts in a row count as one, and up to six waiters are freed one per post", o.fixedOrder = true, o.quick = 0, o.thorough = 0, o.maxSteps = 100000000)
{
	int n = chooseSize(70001); Semaphore *s = new Semaphore; MC_CHECK(!s->semtry(), "a new semaphore is posted"); for (int i = 0; i < n; i++) s->post(); MC_CHECK(s->semtry() == (n > 0), "%d posts", n); MC_CHECK(!s->semtry(), "%d posts let two through", n);
	for (int i = 0; i < std::min(n, 3000); i++) { s->post(); s->get(); MC_CHECK(!s->semtry(), "the flag stays up after pair %d", i); }
	if (n <= 6) { int *got = new int(0); for (int i = 0; i < n; i++) spawn([=] { s->get(); ++*got; }); quiesce(); MC_CHECK(!*got, "%d waiters pass without a post", *got); for (int i = 0; i < n; i++) { s->post(); quiesce(); MC_CHECK(*got == i + 1, "%d posts free %d of %d waiters", i + 1, *got, n); } joinAll(); }
	delete s; outcome(std::to_string(n));
}
MC_SCENARIO(C08, spurious, CONC, "waiters woken without reason", o.spurious = true, o.quick = 2, o.thorough = 3)
{ semProgram({ { SGET }, { SGET }, { SPOST, STRY } }); }
