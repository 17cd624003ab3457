// Drivers for linked lists, Vector, BitVector and SoftVector: C15 C32 C33 C34 C35 C36.
#include "common.h"
#include "leak.h"
#include "sizes.h"
#include "Interthread.h"
#include "LinkedLists.h"
#include "BitVector.h"
#include <deque>
#include <set>
#include <functional>
#include <sstream>
#include <memory>
#include <math.h>
#include <algorithm>
#include "main.inc"
using namespace mc;
typedef std::vector<int> Bits;

static std::string str(const Bits &b) { std::string s; for (int x : b) s += x ? '1' : '0'; return s; }
static Bits bitsOf(uint64_t v, unsigned n) { Bits b(n); for (unsigned i = 0; i < n; i++) b[i] = v >> (n - 1 - i) & 1; return b; }
static Bits bitsOf(const BitVector &v) { Bits b; for (size_t i = 0; i < v.size(); i++) b.push_back(v.bit(i)); return b; }
static void put(BitVector &v, const Bits &b) { for (size_t i = 0; i < b.size(); i++) v.settfb(i, b[i]); }
// the raw elements must be 0 or 1: comparison and output depend on it
static bool clean(const BitVector &v) { for (size_t i = 0; i < v.size(); i++) if (v[i] != 0 && v[i] != 1) return false; return true; }

// ================================================================ C15: linked lists
struct Item : public SingleLinkListNode { Item *next() { return (Item *)mNext; } void setNext(Item *i) { mNext = i; } unsigned sz; Item(unsigned s) : sz(s) {} unsigned size() { return sz; } virtual ~Item() {} };
static const unsigned sizes[] = { 3, 0, 7, 1, 100, 5, 2, 50, 11, 4, 9, 6 };
MC_SCENARIO(C15, pointer_fifo, SEQ, "every sequence of put, push_front, get, front, size", o.quickDepth = 12, o.thoroughDepth = 15)
{
	long live0 = gLiveNew;
	{
	PointerFIFO q; std::deque<long> m; long next = 1;
	for (int s = 0; s < depth(); s++) {
		switch (choose(3, "operation")) {
		case 0: q.put((void *)next); m.push_back(next++); note("put"); break;
		case 1: q.push_front((void *)next); m.push_front(next++); note("push_front"); break;
		case 2: { long v = (long)q.get(); long e = m.empty() ? 0 : m.front(); if (!m.empty()) m.pop_front(); note("get"); MC_CHECK(v == e, "get returned %ld, expected %ld", v, e); break; }
		}
		MC_CHECK(q.size() == m.size(), "size is %u, expected %zu", q.size(), m.size());
		MC_CHECK((long)q.front() == (m.empty() ? 0 : m.front()), "front is %ld", (long)q.front());
	}
	std::string o;
	if (choose(2, "drain")) while (!m.empty()) { long v = (long)q.get(); MC_CHECK(v == m.front(), "drained %ld, expected %ld", v, m.front()); m.pop_front(); o += std::to_string(v) + ","; }
	outcome(o);
	}
	MC_CHECK(gLiveNew == live0, "%ld blocks leaked", gLiveNew - live0);
}
// SingleLinkListNode has no virtual destructor, so the elements live in plain storage here
MC_SCENARIO(C15, single_link_list, SEQ, "every sequence of push_back, push_front, pop_front over reusable elements", o.quickDepth = 12, o.thoroughDepth = 15)
{
	SingleLinkList<Item> q; std::deque<int> m; std::vector<std::unique_ptr<Item> > it; std::vector<int> freeIt;
	for (unsigned n : sizes) { it.emplace_back(new Item(n)); freeIt.push_back(it.size() - 1); }
	for (int s = 0; s < depth(); s++) {
		int op = choose(3, "operation");
		if (op < 2) {
			if (freeIt.empty()) skip();
			int i = freeIt.front(); freeIt.erase(freeIt.begin());
			if (i & 1) it[i]->setNext(q.front());	// what its link holds beforehand, as that of a copied element does, is of no importance
			if (op == 0) { q.push_back(it[i].get()); m.push_back(i); note("push_back %d", i); } else { q.push_front(it[i].get()); m.push_front(i); note("push_front %d", i); }
		} else {
			Item *v = q.pop_front(); note("pop_front");
			MC_CHECK(v == (m.empty() ? 0 : it[m.front()].get()), "pop_front returned the wrong element");
			if (v) { MC_CHECK(v->next() == 0, "a removed element still has a successor"); freeIt.push_back(m.front()); m.pop_front(); }
		}
		unsigned tot = 0; for (int i : m) tot += it[i]->sz;
		MC_CHECK(q.size() == m.size() && q.totalSize() == tot, "size %u total %u, expected %zu %u", q.size(), q.totalSize(), m.size(), tot);
		MC_CHECK(q.front() == (m.empty() ? 0 : it[m.front()].get()), "front is wrong");
		MC_CHECK(q.back() == (m.empty() ? 0 : it[m.back()].get()), "back is wrong");
		Item *p = q.front(); for (int i : m) { MC_CHECK(p == it[i].get(), "the chain is broken"); p = p->next(); }
		MC_CHECK(p == 0, "the chain does not end");
	}
	std::string o; for (int i : m) o += std::to_string(i) + ","; outcome(o);
}
MC_SCENARIO(C15, ptr_list, SEQ, "every sequence of the pointer list's additions and removals at both ends", o.quickDepth = 9, o.thoroughDepth = 11)
{
	long live0 = gLiveNew;
	{
	PtrList<int> q; std::deque<int *> m; static int v[32]; int n = 0;
	for (int s = 0; s < depth(); s++) {
		int *r, *e;
		switch (choose(5, "operation")) {
		case 0: q.put(&v[n]); m.push_back(&v[n]); n++; break;
		case 1: q.push_front(&v[n]); m.push_front(&v[n]); n++; break;
		case 2: r = q.get(); e = m.empty() ? 0 : m.front(); if (!m.empty()) m.pop_front(); MC_CHECK(r == e, "get is wrong"); break;
		case 3: r = q.pop_frontr(); e = m.empty() ? 0 : m.front(); if (!m.empty()) m.pop_front(); MC_CHECK(r == e, "pop_frontr is wrong"); break;
		case 4: r = q.pop_backr(); e = m.empty() ? 0 : m.back(); if (!m.empty()) m.pop_back(); MC_CHECK(r == e, "pop_backr is wrong"); break;
		}
		MC_CHECK(q.size() == m.size() && std::equal(q.begin(), q.end(), m.begin()), "contents differ");
	}
	}
	MC_CHECK(gLiveNew == live0, "%ld blocks leaked", gLiveNew - live0);
	outcome("ok");
}
// ================================================================ long lists, queues and maps: C15 C01 C06 C07
// the history of every size: filled in some manner, partly drained, filled again (which uses the
// released nodes), drained by every way to read, and given up with a rest
template <class Q, class E> struct LongRun {
	Q *q; std::deque<E *> m; std::vector<std::unique_ptr<E> > *pool; unsigned next;
	std::function<void(E *)> back, front; std::function<E *()> get; std::function<E *()> peek; std::function<E *()> mk;
	void put(bool f) { E *e = mk(); if (f) { front(e); m.push_front(e); } else { back(e); m.push_back(e); } same(); }
	void take() { E *r = get(); MC_CHECK(r == (m.empty() ? 0 : m.front()), "of %zu elements the wrong one is read", m.size()); if (r) { m.pop_front(); done(r); } same(); }
	std::function<void(E *)> done;
	void same() { MC_CHECK(q->size() == m.size(), "the size is %zu with %zu elements", (size_t)q->size(), m.size()); MC_CHECK(peek() == (m.empty() ? 0 : m.front()), "the first of %zu elements is wrong", m.size()); }
	void go(unsigned n, bool canFront) {
		unsigned manner = choose(canFront ? 4 : 1, "manner");
		for (unsigned i = 0; i < n; i++) put(manner == 1 || (manner == 2 && i & 1));
		unsigned k = manner == 3 ? n / 2 : n; for (unsigned i = 0; i < k; i++) take();
		for (unsigned i = 0; i < n; i++) put(manner == 3 && i % 3 == 0);
		while (m.size() > n / 3) take();
		for (unsigned i = 0; i < n / 2; i++) put(false);
		if (choose(2, "drained")) { while (!m.empty()) take(); take(); }
	}
};
MC_SCENARIO(C15, long_pointer_fifo, SEQ, "pointer FIFOs of every size, past 65536 elements")
{
	unsigned n = chooseSize(66000); long live0 = gLiveNew;
	{ PointerFIFO q; LongRun<PointerFIFO, char> r; r.q = &q; unsigned next = 1;
	r.back = [&](char *e) { q.put(e); }; r.front = [&](char *e) { q.push_front(e); }; r.get = [&] { return (char *)q.get(); }; r.peek = [&] { return (char *)q.front(); }; r.mk = [&] { return (char *)0 + next++; }; r.done = [](char *) {};
	r.go(n, true); }
	MC_CHECK(gLiveNew == live0, "%ld blocks leaked", gLiveNew - live0); outcome(std::to_string(n));
}
MC_SCENARIO(C15, long_single_link_list, SEQ, "intrusive lists of every size, past 65536 elements, with large elements")
{
	unsigned n = chooseSize(66000); static const unsigned big[] = { 1, 100000, 0 }; unsigned each = big[choose(3, "element size")];
	std::deque<Item> pool; std::vector<Item *> fr; SingleLinkList<Item> q; unsigned total = 0; LongRun<SingleLinkList<Item>, Item> r; r.q = &q;
	r.back = [&](Item *e) { total += e->sz; q.push_back(e); }; r.front = [&](Item *e) { total += e->sz; q.push_front(e); };
	r.get = [&] { Item *e = q.pop_front(); if (e) { total -= e->sz; fr.push_back(e); } return e; }; r.done = [](Item *) {};
	r.peek = [&] { MC_CHECK(q.totalSize() == total, "total size %u, expected %u", q.totalSize(), total); MC_CHECK((q.back() == 0) == (q.size() == 0), "the last element is wrong"); return q.front(); };
	r.mk = [&] { if (fr.size()) { Item *e = fr.back(); fr.pop_back(); return e; } pool.emplace_back(each); return &pool.back(); };
	r.go(n, true); outcome(std::to_string(n) + "/" + std::to_string(each));
}
struct Counted : public SingleLinkListNode { static long live; unsigned v; Counted(unsigned x) : v(x) { live++; } ~Counted() { live--; } Counted *next() { return (Counted *)mNext; } void setNext(Counted *i) { mNext = i; } bool operator>(const Counted &o) const { return v > o.v; } };
long Counted::live;
static void setFront(InterthreadQueueWithWait<Counted> &, LongRun<InterthreadQueueWithWait<Counted>, Counted> &r) { r.peek = [&r] { return r.m.empty() ? (Counted *)0 : r.m.front(); }; r.front = [](Counted *) {}; }
template <class Q> static void setFront(Q &q, LongRun<Q, Counted> &r) { r.peek = [&q] { return q.front(); }; r.front = [&q](Counted *e) { q.write_front(e); }; }
template <class Q> static void longQueue(unsigned n, bool canFront, bool owns)
{
	Counted::live = 0; long live0 = gLiveNew;
	{ Q q; LongRun<Q, Counted> r; r.q = &q; unsigned next = 0, way = choose(3, "way to read");
	r.back = [&](Counted *e) { q.write(e); }; r.get = [&]() -> Counted * { unsigned w = way == 2 ? next++ % 3 : way; return w == 0 || q.size() == 0 ? q.readNoBlock() : w == 1 ? q.read() : q.read(1000u); };
	setFront(q, r); r.mk = [&] { return new Counted(0); }; r.done = [](Counted *e) { delete e; };
	r.go(n, canFront);
	MC_CHECK(Counted::live == (long)r.m.size(), "%ld elements live of %zu", Counted::live, r.m.size());
	if (choose(2, "cleared")) { q.clear(); r.m.clear(); r.same(); MC_CHECK(Counted::live == 0, "%ld elements survive clear", Counted::live); r.put(false); r.take(); } }
	MC_CHECK(Counted::live == 0, "%ld elements survive the queue", Counted::live); MC_CHECK(gLiveNew == live0, "%ld blocks leaked", gLiveNew - live0); outcome(std::to_string(n)); (void)owns;
}
MC_SCENARIO(C01, long_queue, SEQ, "queues of every size, past 65536 elements") { longQueue<InterthreadQueue<Counted> >(chooseSize(thorough() ? 66000 : 3001, 65537), true, true); }
MC_SCENARIO(C01, long_queue_intrusive, SEQ, "the same, intrusive storage") { longQueue<InterthreadQueue<Counted, SingleLinkList<Counted> > >(chooseSize(thorough() ? 66000 : 3001, 65537), true, true); }
MC_SCENARIO(C01, long_queue_with_wait, SEQ, "the same, queue with low-water wait") { longQueue<InterthreadQueueWithWait<Counted> >(chooseSize(thorough() ? 66000 : 3001, 65537), false, true); }
MC_SCENARIO(C05, long_queue, SEQ, "a queue of every size is at most its size: waiting for that does not block")
{
	unsigned n = chooseSize(66000); Counted::live = 0;
	{ InterthreadQueueWithWait<Counted> q; for (unsigned i = 0; i < n; i++) q.write(new Counted(i)); q.wait(n); q.wait(n + 1); q.wait(~(size_t)0); unsigned k = n; while (k > n / 2) { delete q.read(); q.wait(--k); } q.clear(); q.wait(); MC_CHECK(q.size() == 0, "%zu elements survive clear", q.size()); }
	MC_CHECK(Counted::live == 0, "%ld elements survive the queue", Counted::live); outcome(std::to_string(n));
}
MC_SCENARIO(C07, long_queue, SEQ, "priority queues of every size, past 65536 elements, in every kind of order")
{
	unsigned n = chooseSize(thorough() ? 66000 : 3001, 65537), order = choose(6, "order"), way = choose(2, "way to read"); Counted::live = 0;
	auto prio = [&](unsigned i) -> unsigned { switch (order) { case 0: return i; case 1: return n - i; case 2: return i * 7919u % (n + 1); case 3: return 5; case 4: return i % 7; default: return i & 1 ? i : ~i; } };
	{ InterthreadPriorityQueue<Counted> q; std::multiset<unsigned> m;
	auto in = [&](unsigned i) { q.write(new Counted(prio(i))); m.insert(prio(i)); MC_CHECK(q.size() == m.size(), "the size is %zu with %zu elements", q.size(), m.size()); Counted *p = q.peek(); MC_CHECK(p && p->v == *m.begin(), "the most urgent of %zu elements is %u, not %u", m.size(), *m.begin(), p ? p->v : 0); };
	auto out = [&] { Counted *p = way && m.size() ? q.read() : q.readNoBlock(); MC_CHECK(m.empty() ? p == 0 : p && p->v == *m.begin(), "of %zu elements %u is read, not %u", m.size(), p ? p->v : 0, m.empty() ? 0 : *m.begin()); if (p) { m.erase(m.begin()); delete p; } MC_CHECK(q.size() == m.size(), "the size is %zu with %zu elements", q.size(), m.size()); };
	for (unsigned i = 0; i < n; i++) in(i);
	for (unsigned i = 0; i < n / 2; i++) out();
	for (unsigned i = 0; i < n / 3; i++) in(i);
	if (choose(2, "drained")) { while (m.size()) out(); out(); }
	MC_CHECK(Counted::live == (long)m.size(), "%ld elements live of %zu", Counted::live, m.size()); }
	MC_CHECK(Counted::live == 0, "%ld elements survive the queue", Counted::live); outcome(std::to_string(n) + "/" + std::to_string(order));
}
MC_SCENARIO(C06, long_map, SEQ, "maps of every size, past 65536 keys, in every kind of order")
{
	unsigned n = chooseSize(thorough() ? 66000 : 3001, 65537), order = choose(4, "order"); Counted::live = 0;
	auto key = [&](unsigned i) -> int { switch (order) { case 0: return i; case 1: return -(int)i; case 2: return (int)(i * 2654435761u); default: return i & 1 ? (int)i : -(int)i; } };
	{ InterthreadMap<int, Counted> q; unsigned stride = n > 2000 ? 97 : 1;
	for (unsigned i = 0; i < n; i++) { q.write(key(i), new Counted(i)); MC_CHECK(q.size() == i + 1, "the size is %u with %u keys", q.size(), i + 1); }
	auto all = [&](unsigned from, unsigned add) { for (unsigned i = 0; i < n; i += i < 300 ? 1 : stride) { Counted *p = q.readNoBlock(key(i)), *p2 = i >= from ? q.read(key(i)) : p, *p3 = q.read(key(i), i >= from ? 1000u : 0u); MC_CHECK(i < from ? p == 0 : p && p->v == i + add, "of %u keys number %u is %s", n, i, p ? "wrong" : "missing"); MC_CHECK(p2 == p && p3 == p, "readers of one key disagree"); } };
	all(0, 0);
	for (unsigned i = 0; i < n; i++) q.write(key(i), new Counted(i + 1));
	MC_CHECK(q.size() == n && Counted::live == (long)n, "%u keys and %ld values of %u", q.size(), Counted::live, n); all(0, 1);
	unsigned k = n / 2; for (unsigned i = 0; i < k; i++) { if (i % 3 == 0) { MC_CHECK(q.remove(key(i)), "a key could not be removed"); } else { Counted *p = 0; bool ok = i % 3 == 1 ? q.get(key(i), p) : q.getNoBlock(key(i), p); MC_CHECK(ok && p && p->v == i + 1, "a key could not be taken"); delete p; } }
	MC_CHECK(q.size() == n - k && Counted::live == (long)(n - k), "%u keys and %ld values of %u", q.size(), Counted::live, n - k); all(k, 1);
	unsigned c = 0; { ScopedLock l(q.qGetLock()); for (InterthreadMap<int, Counted>::iterator i = q.begin(); i != q.end(); ++i) c++; } MC_CHECK(c == n - k, "the iteration passes %u keys of %u", c, n - k); }
	MC_CHECK(Counted::live == 0, "%ld values survive the map", Counted::live); outcome(std::to_string(n) + "/" + std::to_string(order));
}
// ================================================================ C32: bit fields
static std::vector<uint64_t> valuesFor(unsigned len, bool full)
{
	std::vector<uint64_t> v;
	if (len <= 6) { for (uint64_t x = 0; x < (1u << len); x++) v.push_back(x); v.push_back(~0ull); return v; }
	v.push_back(0); v.push_back(~0ull); v.push_back(0xAAAAAAAAAAAAAAAAull); v.push_back(0x5555555555555555ull); v.push_back(0x0123456789ABCDEFull); v.push_back(0xFEDCBA9876543210ull);
	for (unsigned b = 0; b < 64; b += full || b < 3 || b + 3 > len ? 1 : 7) v.push_back(1ull << b);
	return v;
}
static uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static void fieldCase(unsigned size, unsigned idx, unsigned len, uint64_t val, int bg, bool rev, bool advance)
{
	// the vector is a window into a larger one: nothing outside may change
	const unsigned G = 9;
	BitVector whole(size + 2 * G); Bits m(size + 2 * G);
	uint64_t s = 88172645463325252ull + size;
	for (size_t i = 0; i < m.size(); i++) m[i] = bg < 2 ? bg : rnd(s) & 1;
	put(whole, m);
	BitVector v = whole.segment(G, size);
	size_t w = idx;
	if (advance) { if (rev) v.writeFieldReversed(w, val, len); else v.writeField(w, val, len); MC_CHECK(w == idx + len, "write index advanced from %u to %zu by %u", idx, w, len); }
	else if (rev) v.fillFieldReversed(idx, val, len); else v.fillField(idx, val, len);
	for (unsigned i = 0; i < len; i++) m[G + idx + i] = val >> (rev ? i : len - 1 - i) & 1;
	MC_CHECK(bitsOf(whole) == m && clean(whole), "size %u: writing %#lx at %u length %u%s gives %s, expected %s", size, (unsigned long)val, idx, len, rev ? " reversed" : "", str(bitsOf(whole)).c_str(), str(m).c_str());
	uint64_t e = len == 64 ? val : val & ((1ull << len) - 1);
	if (rev && len == 0) return;	// unused: an empty reversed read
	size_t r = idx;
	uint64_t g = advance ? (rev ? v.readFieldReversed(r, len) : v.readField(r, len)) : rev ? v.peekFieldReversed(idx, len) : v.peekField(idx, len);
	MC_CHECK(g == e, "size %u: %#lx written at %u length %u%s reads back %#lx", size, (unsigned long)val, idx, len, rev ? " reversed" : "", (unsigned long)g);
	MC_CHECK(!advance || r == idx + len, "read index advanced from %u to %zu by %u", idx, r, len);
	// read in the other bit order
	uint64_t o = 0; for (unsigned i = 0; i < len; i++) o |= (e >> i & 1) << (len - 1 - i);
	if (len) { uint64_t g2 = rev ? v.peekField(idx, len) : v.peekFieldReversed(idx, len); MC_CHECK(g2 == o, "size %u: %#lx at %u length %u reads %#lx in the other bit order, expected %#lx", size, (unsigned long)val, idx, len, (unsigned long)g2, (unsigned long)o); }
	MC_CHECK(bitsOf(whole) == m, "reading changed the vector");
}
static void everyField(bool rev)
{
	static const unsigned big[] = { 31, 32, 33, 40, 56, 63, 64, 65, 72 };
	unsigned k = choose(26 + 9 + (thorough() ? 30 : 0), "size"); unsigned size = k < 26 ? k + 1 : k < 35 ? big[k - 26] : k + 45;
	uint64_t n = 0;
	for (unsigned idx = 0; idx <= size; idx++) for (unsigned len = 0; len <= 64 && idx + len <= size; len++) {
		if (size > 26 && !thorough() && idx > 3 && size - idx - len > 1 && (idx + len) % 8) continue;
		for (uint64_t val : valuesFor(len, thorough())) for (int bg = 0; bg < 3; bg++) { fieldCase(size, idx, len, val, bg, rev, (idx + len + bg) & 1); n++; }
	}
	cases(n); outcome(std::to_string(size));
}
MC_SCENARIO(C32, every_field, SEQ, "every field position and length in vectors of every size up to 26 and around 64, most significant bit first") { everyField(false); }
MC_SCENARIO(C32, every_field_reversed, SEQ, "the same, least significant bit first") { everyField(true); }
MC_SCENARIO(C32, far_fields, SEQ, "fields of every length at positions around round numbers and powers of two up to 70000")
{
	unsigned idx = chooseSize(70001), size = idx + 70; BitVector v(size); uint64_t n = 0;
	for (unsigned len = 0; len <= 64; len++) for (int rev = 0; rev < 2; rev++) {
		if (rev && !len) continue; uint64_t e = 0x9234567890abcdefull >> (64 - len ? 64 - len : 0); if (!len) e = 0; v.segment(idx > 5 ? idx - 5 : 0, size - (idx > 5 ? idx - 5 : 0)).zero(); size_t w = idx; if (rev) v.writeFieldReversed(w, e, len); else v.writeField(w, e, len); MC_CHECK(w == idx + len, "the write index goes from %u to %zu by %u", idx, w, len);
		for (unsigned i = 0; i < len; i++) MC_CHECK(v.bit(idx + i) == (int)(e >> (rev ? i : len - 1 - i) & 1), "bit %u of a field of %u at %u", i, len, idx); for (unsigned i = idx > 5 ? idx - 5 : 0; i < size; i++) if (i < idx || i >= idx + len) MC_CHECK(!v.bit(i), "writing %u bits at %u changes bit %u", len, idx, i);
		size_t r = idx; uint64_t g = rev ? v.readFieldReversed(r, len) : v.readField(r, len); MC_CHECK(g == e && r == idx + len, "%u bits at %u read back as %#lx, expected %#lx", len, idx, (unsigned long)g, (unsigned long)e); MC_CHECK((rev ? v.peekFieldReversed(idx, len) : v.peekField(idx, len)) == e, "a peek of %u bits at %u", len, idx); n++; }
	cases(n); outcome(std::to_string(idx));
}
MC_SCENARIO(C32, write_sequences, SEQ, "every sequence of field writes, then read back by every split into fields", o.quickDepth = 3, o.thoroughDepth = 4)
{
	const unsigned N = 8; BitVector v(N); v.zero(); Bits m(N, 0);
	for (int s = 0; s < depth(); s++) {
		unsigned idx = choose(N, "index"), len = 1 + choose(N - idx, "length"); static const uint64_t vals[] = { ~0ull, 0, 0x95 }; uint64_t val = vals[choose(3, "value")]; bool rev = choose(2, "reversed"); size_t w = idx;
		if (rev) v.writeFieldReversed(w, val, len); else v.writeField(w, val, len);
		for (unsigned i = 0; i < len; i++) m[idx + i] = val >> (rev ? i : len - 1 - i) & 1;
		H h = 0; for (int b : m) h = h * 2 + b; state(mix(h, s), depth() - s - 1);
	}
	MC_CHECK(bitsOf(v) == m, "contents %s, expected %s", str(bitsOf(v)).c_str(), str(m).c_str());
	for (unsigned cut = 0; cut < (1u << (N - 1)); cut++) {
		size_t r = 0;
		while (r < N) { unsigned l = 1; while (r + l < N && !(cut >> (r + l - 1) & 1)) l++; uint64_t e = 0; for (unsigned i = 0; i < l; i++) e = e * 2 + m[r + i]; size_t was = r; uint64_t g = v.readField(r, l); MC_CHECK(g == e && r == was + l, "field of %u at %zu reads %lu, expected %lu", l, was, (unsigned long)g, (unsigned long)e); }
	}
	size_t w = 0; v.write1(w); v.write0(w); MC_CHECK(w == 2 && v.bit(0) && !v.bit(1), "write0/write1");
	cases(1 << (N - 1)); outcome(str(m));
}

// ================================================================ C33: packing and hex
static void packCase(const Bits &m)
{
	unsigned n = m.size(), by = (n + 7) / 8; BitVector v(n); put(v, m);
	std::vector<unsigned char> out(by + 4, 0xC3), ref(by + 4, 0xC3);
	for (unsigned i = 0; i < by; i++) ref[i] = 0;
	for (unsigned i = 0; i < n; i++) ref[i / 8] |= m[i] << (7 - i % 8);
	v.pack(&out[0]);
	MC_CHECK(out == ref, "packing %s gives the wrong bytes", str(m).c_str());
	std::string ps = v.packToString();
	MC_CHECK(ps == std::string((char *)&ref[0], by), "packToString of %s is wrong", str(m).c_str());
	BitVector u(n); u.fill(1); std::vector<unsigned char> in(ref); in[by] = 0xFF;
	if (n % 8) in[by - 1] |= (1 << (8 - n % 8)) - 1;	// unused low bits of the last byte do not matter
	std::vector<unsigned char> exact(in.begin(), in.begin() + by);	// reading past the last byte is caught
	u.unpack(by ? &exact[0] : &in[0]);
	MC_CHECK(bitsOf(u) == m && clean(u) && u == v, "unpacking %s gives %s", str(m).c_str(), str(bitsOf(u)).c_str());
	std::string hex; for (unsigned i = 0; i + 4 <= n; i += 4) hex += "0123456789abcdef"[m[i] * 8 + m[i + 1] * 4 + m[i + 2] * 2 + m[i + 3]];
	if (n % 4) { int d = 0; for (unsigned i = n / 4 * 4; i < n; i++) d = d * 2 + m[i]; hex += '0' + d; }	// the last digit has the bits that are left
	MC_CHECK(v.hexstr() == hex, "hex of %s is %s", str(m).c_str(), v.hexstr().c_str());
	std::ostringstream os; v.hex(os); MC_CHECK(os.str() == hex, "hex output of %s is %s", str(m).c_str(), os.str().c_str());
	os << 10; MC_CHECK(os.str() == hex + "10", "the stream is left in hexadecimal");
	{
		BitVector h(n); h.fill(1);
		MC_CHECK(h.unhex(hex.c_str()) && bitsOf(h) == m, "unhex(\"%s\") gives %s", hex.c_str(), str(bitsOf(h)).c_str());
		std::string up = hex; for (char &c : up) c = toupper(c);
		h.zero(); MC_CHECK(h.unhex(up.c_str()) && h == v, "upper case hex");
	}
}
MC_SCENARIO(C33, all_small, SEQ, "every bit vector of up to 13 bits (thorough 17)")
{
	unsigned n = choose(thorough() ? 18 : 14, "size"); for (uint64_t x = 0; x < (1ull << n); x++) packCase(bitsOf(x, n)); cases(1ull << n); outcome(std::to_string(n));
}
MC_SCENARIO(C33, long_patterns, SEQ, "vectors of every size to 140 with every single bit set or clear and byte patterns")
{
	unsigned n = choose(thorough() ? 700 : 141, "size"); uint64_t c = 0, s = 99 + n;
	Bits b(n);
	for (unsigned i = 0; i < n; i++) { std::fill(b.begin(), b.end(), 0); b[i] = 1; packCase(b); for (auto &x : b) x ^= 1; packCase(b); c += 2; }
	for (int k = 0; k < 16; k++) { for (auto &x : b) x = rnd(s) & 1; packCase(b); c++; }
	std::fill(b.begin(), b.end(), 0); packCase(b); std::fill(b.begin(), b.end(), 1); packCase(b); cases(c + 2); outcome(std::to_string(n));
}
MC_SCENARIO(C33, very_long, SEQ, "vectors of every size around round numbers and powers of two up to 5000, and past 65536 bits")
{
	unsigned n = chooseSize(5001, 65544); uint64_t s = 7 + n; Bits b(n); for (int k = 0; k < 3; k++) { for (auto &x : b) x = rnd(s) & 1; packCase(b); } std::fill(b.begin(), b.end(), 1); packCase(b); if (n) { b[n - 1] = 0; packCase(b); } cases(5); outcome(std::to_string(n));
}
MC_SCENARIO(C33, bad_hex, SEQ, "every string of up to 4 characters over hex digits and others, into vectors of 0..20 bits")
{
	unsigned n = choose(21, "size"), L = choose(6, "length"); uint64_t c = 0;
	static const char ch[] = { '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '-', '+', '/', ':', '@', '`', ' ', '\n', 'x' };
	const unsigned K = sizeof ch; unsigned tot = 1; for (unsigned i = 0; i < L; i++) tot *= K;
	unsigned step = L == 5 ? 23 : 1;
	for (unsigned x = 0; x < tot; x += step) {
		std::string s; for (unsigned i = 0, y = x; i < L; i++, y /= K) s += ch[y % K];
		unsigned need = (n + 3) / 4; bool ok = L >= need; for (unsigned i = 0; i < need && i < L; i++) if (!isxdigit(s[i])) ok = false;
		std::unique_ptr<char[]> exact(new char[L + 1]); memcpy(exact.get(), s.c_str(), L + 1);
		BitVector v(n); v.zero(); bool r = v.unhex(exact.get());
		MC_CHECK(r == ok, "unhex(\"%s\") into %u bits returned %d", s.c_str(), n, r);
		if (ok) for (unsigned i = 0; i < n / 4 * 4; i++) { int d = isdigit(s[i / 4]) ? s[i / 4] - '0' : tolower(s[i / 4]) - 'a' + 10; MC_CHECK(v.bit(i) == (d >> (3 - i % 4) & 1), "unhex(\"%s\") bit %u wrong", s.c_str(), i); if (n % 4) { int d = isdigit(s[n / 4]) ? s[n / 4] - '0' : tolower(s[n / 4]) - 'a' + 10; for (unsigned i = n / 4 * 4, k = 0; i < n; i++, k++) MC_CHECK(v.bit(i) == (d >> (n % 4 - 1 - k) & 1), "unhex(\"%s\") bit %u of the last digit wrong", s.c_str(), i); } }
		c++;
	}
	cases(c); outcome(std::to_string(n));
}

// ================================================================ C34: parity words and syndromes
// long division of data(x) * x^shift by g(x) over GF(2)
static Bits polymod(Bits d, uint64_t g, unsigned len, unsigned shift)
{
	for (unsigned i = 0; i < shift; i++) d.push_back(0);
	// g has degree len: x^len plus the coefficient bits
	for (size_t i = 0; i + len < d.size(); i++) if (d[i]) { d[i] = 0; for (unsigned k = 0; k < len; k++) d[i + 1 + k] ^= g >> (len - 1 - k) & 1; }
	while (d.size() < len) d.insert(d.begin(), 0);
	return Bits(d.end() - len, d.end());
}
static uint64_t num(const Bits &b) { uint64_t v = 0; for (int x : b) v = v * 2 + x; return v; }
static void parityCase(Parity &p, Generator &gen, uint64_t g, unsigned len, const Bits &d)
{
	uint64_t mask = (1ull << len) - 1;
	BitVector v(d.size()); put(v, d);
	Bits rem = polymod(d, g, len, len);
	for (unsigned i = 0; i <= len; i++) gen.encoderShift(1);
	uint64_t par = v.parity(gen);
	MC_CHECK(par == num(rem), "parity of %s by %#lx/%u is %#lx, expected %#lx", str(d).c_str(), (unsigned long)g, len, (unsigned long)par, (unsigned long)num(rem));
	MC_CHECK(gen.state() == par && gen.size() == len, "generator state");
	for (unsigned i = 0; i <= len; i++) gen.syndromeShift(1);	// what the generator did before must not matter
	MC_CHECK(v.syndrome(gen) == num(polymod(d, g, len, 0)), "syndrome of %s by %#lx/%u", str(d).c_str(), (unsigned long)g, len);
	for (int inv = 0; inv < 2; inv++) {
		BitVector cw(d.size() + len + 3); cw.fill(1); BitVector dd = cw.segment(0, d.size()), pp = cw.segment(d.size(), len); put(dd, d); put(pp, Bits(len, inv));
		for (unsigned i = 0; i <= len; i++) p.encoderShift(1);
		if (inv) p.writeParityWord(dd, pp); else p.writeParityWord(dd, pp, false);
		MC_CHECK(p.state() == par, "the generator's state after writing the parity word is %#lx, not the parity", (unsigned long)p.state());
		Bits e = rem; if (inv) for (auto &x : e) x ^= 1;
		MC_CHECK(bitsOf(pp) == e && clean(pp), "%sparity word of %s by %#lx/%u is %s, expected %s", inv ? "inverted " : "", str(d).c_str(), (unsigned long)g, len, str(bitsOf(pp)).c_str(), str(e).c_str());
		MC_CHECK(bitsOf(dd) == d && cw.sum() == dd.sum() + pp.sum() + 3, "writing the parity word changed other bits");
		BitVector word = cw.segment(0, d.size() + len);
		uint64_t s = p.syndrome(word);
		// an inverted parity word leaves the all-ones remainder
		MC_CHECK(s == (inv ? mask : 0), "syndrome of a good %scodeword of %s by %#lx/%u is %#lx", inv ? "inverted " : "", str(d).c_str(), (unsigned long)g, len, (unsigned long)s);
		for (size_t i = 0; i < word.size(); i++) {	// any error's syndrome is the remainder of its pattern
			word.settfb(i, !word.bit(i));
			uint64_t s2 = p.syndrome(word); Bits err(word.size(), 0); err[i] = 1;
			MC_CHECK((s2 ^ s) == num(polymod(err, g, len, 0)), "syndrome with bit %zu wrong", i);
			if (g & 1) MC_CHECK(s2 != s, "a single-bit error at %zu goes undetected", i);
			word.settfb(i, !word.bit(i));
		}
	}
}
MC_SCENARIO(C34, all_small, SEQ, "every polynomial up to degree 6 (thorough 8), every data word up to 7 bits (thorough 10)")
{
	unsigned len = 1 + choose(thorough() ? 8 : 6, "degree"); uint64_t c = 0;
	for (uint64_t g = 0; g < (1ull << len); g++) {
		Generator gen(g, len); Parity p(g, len, 20);
		for (unsigned n = 0; n <= (thorough() ? 10u : 7u); n++) for (uint64_t x = 0; x < (1ull << n); x++) { parityCase(p, gen, g, len, bitsOf(x, n)); c++; }
		// also with the leading coefficient written out, as the users do
		Generator g2(g | 1ull << len, len); BitVector v("1011001"); MC_CHECK(v.parity(g2) == v.parity(gen) && v.syndrome(g2) == v.syndrome(gen), "the leading coefficient changes the result");
	}
	cases(c); outcome(std::to_string(len));
}
MC_SCENARIO(C34, very_long, SEQ, "data words of every length around round numbers and powers of two up to 1000 bits, and at 2048, 4096 and 5000")
{
	std::vector<unsigned> z = sizesUpTo(1025); for (unsigned x : { 2048, 4096, 5000 }) z.push_back(x); unsigned n = z[choose(z.size(), "size")]; static const struct { uint64_t g; unsigned len; } C[] = { { 0x04c11db7, 32 }, { 0x10004820009ull, 40 }, { 0x11021, 16 } }; auto &k = C[choose(3, "code")]; uint64_t g = k.g & ((1ull << k.len) - 1), s = 5 + n; Generator gen(k.g, k.len); Parity p(k.g, k.len, k.len + n); Bits d(n); for (int i = 0; i < (n > 1100 ? 1 : 2); i++) { for (auto &x : d) x = rnd(s) & 1; parityCase(p, gen, g, k.len, d); } cases(2); outcome(std::to_string(n));
}
MC_SCENARIO(C34, long_codes, SEQ, "the codes GSM uses and others up to 63 bits, all one- and two-bit data words")
{
	static const struct { uint64_t g; unsigned len, data; } C[] = { { 0x10004820009ull, 40, 184 }, { 0x575, 10, 25 }, { 0x06f, 6, 8 }, { 0x0b, 3, 50 }, { 0x8ba76, 19, 40 }, { 0x11021, 16, 60 }, { 0x04c11db7, 32, 64 }, { 0x1ull, 63, 70 }, { 0x42f0e1eba9ea3693ull & ((1ull << 63) - 1), 63, 70 }, { 1, 1, 9 } };
	auto &k = C[choose(10, "code")]; uint64_t g = k.g & ((1ull << k.len) - 1), c = 0;
	Generator gen(k.g, k.len); Parity p(k.g, k.len, k.len + k.data);
	Bits d(k.data, 0); unsigned st = thorough() ? 1 : 13;
	for (unsigned i = 0; i < k.data; i += thorough() ? 1 : 3) { std::fill(d.begin(), d.end(), 0); d[i] = 1; parityCase(p, gen, g, k.len, d); c++; for (unsigned j = i + 1; j < k.data; j += st) { d[j] = 1; BitVector v(d.size()); put(v, d); MC_CHECK(v.parity(gen) == num(polymod(d, g, k.len, k.len)) && v.syndrome(gen) == num(polymod(d, g, k.len, 0)), "parity of %s", str(d).c_str()); d[j] = 0; c++; } }
	std::fill(d.begin(), d.end(), 1); parityCase(p, gen, g, k.len, d);
	// all burst errors no longer than the parity word are detected (g has a constant term)
	if (k.g & 1) { BitVector cw(k.data + k.len); cw.zero(); unsigned n = cw.size(); for (unsigned i = 0; i < n; i++) for (unsigned b = 1; b <= k.len && b <= 9 && i + b <= n; b++) for (uint64_t in = 0; in < (b > 2 ? 1u << (b - 2) : 1u); in++) {
		uint64_t pat = b == 1 ? 1 : (1ull << (b - 1)) | in << 1 | 1; cw.zero(); cw.fillField(i, pat, b); MC_CHECK(p.syndrome(cw) != 0, "a burst of %u at %u goes undetected", b, i); c++; if (!thorough() && b > 5) break; } }
	cases(c); outcome(std::to_string(k.len));
}

// ================================================================ C35: ownership and aliases
// Reference: memory blocks with an owner; a vector is a window into a block (or a private empty one).
struct Block { std::vector<int> d; int owner; };
struct Win { int blk; unsigned off, len; };
template <class V, class E> struct OwnModel {
	std::vector<std::unique_ptr<V> > v; std::vector<Block> blocks; std::vector<Win> w; int stamp;
	OwnModel() : stamp(1) {}
	int newBlock(const std::vector<int> &d, int owner) { blocks.push_back(Block{ d, owner }); return blocks.size() - 1; }
	std::vector<int> cont(int i) { if (w[i].blk < 0) return std::vector<int>(); auto &b = blocks[w[i].blk].d; return std::vector<int>(b.begin() + w[i].off, b.begin() + w[i].off + w[i].len); }
	bool owns(int i) { return w[i].blk >= 0 && blocks[w[i].blk].owner == i; }
	bool aliased(int i) { for (size_t k = 0; k < w.size(); k++) if ((int)k != i && w[k].blk >= 0 && w[k].blk == w[i].blk) return true; return false; }
	// i gives up its block: nobody else may still look at it
	void drop(int i) { if (owns(i)) { for (size_t k = 0; k < w.size(); k++) if ((int)k != i && w[k].blk == w[i].blk) skip(); blocks[w[i].blk].owner = -1; } w[i] = Win{ -1, 0, 0 }; }
	void check(const char *op) {
		for (size_t i = 0; i < v.size(); i++) {
			auto e = cont(i);
			MC_CHECK(v[i]->size() == e.size(), "after %s: vector %zu has size %zu, expected %zu", op, i, v[i]->size(), e.size());
			for (size_t k = 0; k < e.size(); k++) MC_CHECK((int)(*v[i])[k] == e[k], "after %s: vector %zu element %zu is %d, expected %d", op, i, k, (int)(*v[i])[k], e[k]);
			MC_CHECK(v[i]->isOwner() == owns(i), "after %s: vector %zu %s its memory", op, i, owns(i) ? "lost" : "claims");
		}
	}
	H hash() { H h = 0; std::vector<int> ren(blocks.size(), -1); int n = 0; for (size_t i = 0; i < w.size(); i++) { int b = w[i].blk; if (b >= 0 && ren[b] < 0) ren[b] = n++; h = mix(h, b < 0 ? 999 : ren[b] * 100 + w[i].off * 10 + w[i].len + (owns(i) ? 5000 : 0)); } return h; }
};
static std::vector<int> fresh(int &stamp, unsigned n) { std::vector<int> d; for (unsigned i = 0; i < n; i++) d.push_back(stamp++ % 120); return d; }
static void bvOps(const unsigned N)
{
	typedef OwnModel<BitVector, char> M; M *m = new M;
	for (unsigned i = 0; i < 2; i++) { m->v.emplace_back(new BitVector((size_t)(3 + i))); auto d = fresh(m->stamp, 3 + i); m->w.push_back(Win{ m->newBlock(d, i), 0, 3 + i }); for (unsigned k = 0; k < 3 + i; k++) (*m->v[i])[k] = d[k]; }
	if (N > 2) { m->v.emplace_back(new BitVector); m->w.push_back(Win{ -1, 0, 0 }); }
	for (int s = 0; s < depth(); s++) {
		unsigned op = choose(11, "operation"), i = choose(N, "target"); unsigned j = op < 8 ? choose(N, "source") : 0; const char *name = "?";
		BitVector &a = *m->v[i], &b = *m->v[j];
		auto cj = m->cont(j);
		auto takeCopy = [&](const std::vector<int> &d) { m->drop(i); m->w[i] = Win{ d.empty() ? -1 : m->newBlock(d, i), 0, (unsigned)d.size() }; };
		auto takeAlias = [&](Win x) {	// i becomes a window into someone's block; a window into its own block keeps it
			bool own = m->owns(i) && x.blk == m->w[i].blk;
			if (own && x.off > m->w[i].off + m->w[i].len) skip();	// outside what the owner still shows
			if (!own) m->drop(i);
			m->w[i] = x;
		};
		switch (op) {
		case 0: name = "assignment"; if (i == j && m->aliased(i)) skip(); a = b; if (i == j) break; if (m->owns(j)) { if (!m->owns(i) && m->w[i].blk == m->w[j].blk) {} takeCopy(cj); } else takeAlias(m->w[j]); break;
		case 1: { name = "copy construction"; if (i == j) skip(); Win wj = m->w[j]; bool oj = m->owns(j); m->drop(i); m->v[i].reset(new BitVector(b)); if (oj) { m->w[i] = Win{ m->newBlock(cj, (int)i), 0, (unsigned)cj.size() }; if (cj.empty()) m->w[i] = Win{ -1,0,0 }; } else m->w[i] = wj; break; }
		case 2: { name = "clone"; if (i != j && m->owns(i) && m->w[j].blk == m->w[i].blk) { /* cloning a window of one's own memory */ } if (i == j && m->aliased(i) && m->owns(i)) skip(); a.clone(b); takeCopy(cj); break; }
		case 3: { name = "segment assignment"; if (m->w[j].len < 2) skip(); unsigned o2 = choose(2, "start"), l = 1 + choose(m->w[j].len - o2, "length"); if (l > 2) skip(); Win x{ m->w[j].blk, m->w[j].off + o2, l }; if (m->owns(i) && m->w[i].blk == m->w[j].blk && m->aliased(i) && i != j) {} a = b.segment(o2, l); takeAlias(x); break; }
		case 4: { name = "head/tail assignment"; if (m->w[j].len < 1) skip(); unsigned c = choose(m->w[j].len + 1, "cut"); bool t = choose(2, "tail"); Win x = t ? Win{ m->w[j].blk, m->w[j].off + c, m->w[j].len - c } : Win{ m->w[j].blk, m->w[j].off, c }; a = t ? b.tail(c) : b.head(c); takeAlias(x); break; }
		case 5: { name = "cloneSegment"; if (m->w[j].len < 1) skip(); unsigned l = 1 + choose(m->w[j].len, "length"), o2 = m->w[j].len - l; std::vector<int> d(cj.begin() + o2, cj.begin() + o2 + l); if (i == j && m->aliased(i) && m->owns(i)) skip(); a = b.cloneSegment(o2, l); takeCopy(d); break; }
		case 6: { name = "alias"; Win x = m->w[j]; a = b.alias(); takeAlias(x); break; }
		case 7: { name = "concatenation"; if (cj.size() > 4 || m->w[i].len > 4) skip(); if (m->owns(i) && m->aliased(i)) skip(); auto d = m->cont(i); d.insert(d.end(), cj.begin(), cj.end()); if (d.empty()) skip(); a.clone(BitVector(a, b)); takeCopy(d); break; }
		case 8: { name = "resize"; unsigned n = choose(3, "size"); auto d = fresh(m->stamp, n); if (m->owns(i) && m->aliased(i)) skip(); a.resize(n); for (unsigned k = 0; k < n; k++) a[k] = d[k]; takeCopy(d); break; }
		case 9: { name = "write"; if (!m->w[i].len) skip(); unsigned k = choose(m->w[i].len, "element"); int val = m->stamp++ % 120; a.settfb(k, val); m->blocks[m->w[i].blk].d[m->w[i].off + k] = val; break; }
		case 10: name = "destruction"; if (m->owns(i) && m->aliased(i)) skip(); m->drop(i); m->v[i].reset(new BitVector); break;
		}
		note("%s %u <- %u", name, i, j);
		m->check(name);
		state(m->hash(), depth() - s - 1);
	}
	// destroy windows first, then owners
	for (unsigned i = 0; i < N; i++) if (!m->owns(i)) m->v[i].reset();
	for (unsigned i = 0; i < N; i++) m->v[i].reset();
	outcome(std::to_string(m->hash()));
	delete m;
}
template<class V, class T> static uint64_t overlapping(unsigned size)
{
	uint64_t n = 0;
	for (unsigned span = 0; span <= size; span++) for (unsigned from = 0; from + span <= size; from++) for (unsigned to = 0; to + span <= size; to++) for (int how = 0; how < 4; how++) {
		V v(size); std::vector<T> m(size), e; for (unsigned i = 0; i < size; i++) v[i] = m[i] = (T)(i * 7 + 1); e = m; for (unsigned i = 0; i < span; i++) e[to + i] = m[from + i];
		{ V src = v.segment(from, size - from), dst = v.segment(to, span);
		switch (how) { case 0: src.copyToSegment(v, to, span); break; case 1: v.segment(from, span).copyToSegment(v, to); break; case 2: v.segment(from, span).copyTo(dst); break; case 3: v.segmentCopyTo(dst, from, span); break; } }
		for (unsigned i = 0; i < size; i++) MC_CHECK(v[i] == e[i], "copying %u of %u elements from %u to %u within a vector, way %d: element %u is %g, expected %g", span, size, from, to, how, i, (double)v[i], (double)e[i]); n++;
	}
	return n;
}
MC_SCENARIO(C35, overlapping_copies, SEQ, "copying every part of a vector to every place of the same vector, parts that overlap included, in every way and for every kind of element")
{
	unsigned size = choose(thorough() ? 40 : 20, "size"); cases(overlapping<BitVector, char>(size) + overlapping<Vector<int>, int>(size) + overlapping<SoftVector, float>(size) + overlapping<Vector<double>, double>(size)); outcome(std::to_string(size));
}
MC_SCENARIO(C35, bitvector_operations, SEQ, "every sequence of constructions, assignments, aliases, segments, clones and writes on three bit vectors", o.quickDepth = 3, o.thoroughDepth = 4) { bvOps(3); }
MC_SCENARIO(C35, two_bitvectors, SEQ, "the same on two bit vectors, deeper", o.quickDepth = 4, o.thoroughDepth = 6) { bvOps(2); }
// An element that is only right as a whole.
struct Wide { int a; double b; unsigned char c[5]; Wide(int x = 0) { *this = x; } Wide &operator=(int x) { a = x; b = x * 3.0; for (int i = 0; i < 5; i++) c[i] = x + i; return *this; } operator int() const { if (b != a * 3.0) return -1; for (int i = 0; i < 5; i++) if (c[i] != (unsigned char)(a + i)) return -2; return a; } };
template <class E> static void vOps(const unsigned N)
{
	typedef Vector<E> V; typedef OwnModel<V, E> M; M *m = new M;
	for (unsigned i = 0; i < 2; i++) { m->v.emplace_back(new V((size_t)(2 + i))); auto d = fresh(m->stamp, 2 + i); m->w.push_back(Win{ m->newBlock(d, i), 0, 2 + i }); for (unsigned k = 0; k < 2 + i; k++) (*m->v[i])[k] = d[k]; }
	if (N > 2) { m->v.emplace_back(new V); m->w.push_back(Win{ -1, 0, 0 }); }
	for (int s = 0; s < depth(); s++) {
		unsigned op = choose(10, "operation"), i = choose(N, "target"), j = op < 7 || op == 9 ? choose(N, "source") : 0; const char *name = "?";
		V &a = *m->v[i], &b = *m->v[j]; auto cj = m->cont(j);
		auto takeCopy = [&](const std::vector<int> &d) { m->drop(i); m->w[i] = Win{ d.empty() ? -1 : m->newBlock(d, i), 0, (unsigned)d.size() }; };
		// ownership moves from j to i; j stays as a window
		auto shift = [&](bool drop) { if (i == j) return; Win wj = m->w[j]; bool oj = m->owns(j); if (drop) { if (m->owns(i) && m->w[j].blk == m->w[i].blk) skip(); m->drop(i); } m->w[i] = wj; if (oj) m->blocks[wj.blk].owner = i; };
		switch (op) {
		case 0: name = "assignment"; if (i != j && m->owns(i) && m->w[j].blk == m->w[i].blk) skip(); if (i != j && m->owns(i) && m->aliased(i)) skip(); a = b; shift(true); break;
		case 1: { name = "const assignment"; if (m->owns(i) && m->aliased(i) && m->w[i].blk != m->w[j].blk) skip(); if (i == j && m->owns(i)) { if (m->aliased(i)) skip(); a = (const V &)b; break; } { bool mine = m->owns(i) && m->w[j].blk == m->w[i].blk; if (mine) { int n = 0; for (auto &x : m->w) if (x.blk == m->w[i].blk) n++; skip(); } } a = (const V &)b; takeCopy(cj); break; }
		case 2: name = "copy construction"; if (i == j) skip(); if (m->owns(i)) { if (m->aliased(i)) skip(); } m->drop(i); m->v[i].reset(new V(b)); shift(false); break;
		case 3: name = "const copy construction"; if (i == j) skip(); if (m->owns(i) && m->aliased(i)) skip(); m->drop(i); m->v[i].reset(new V((const V &)b)); m->w[i] = Win{ cj.empty() ? -1 : m->newBlock(cj, (int)i), 0, (unsigned)cj.size() }; break;
		case 4: { name = "segment"; if (i == j || m->w[j].len < 1) skip(); if (m->owns(i)) { if (m->aliased(i)) skip(); } unsigned o2 = choose(m->w[j].len, "start"), l = 1 + choose(m->w[j].len - o2, "length"); Win x{ m->w[j].blk, m->w[j].off + o2, l }; m->drop(i); m->v[i].reset(new V(b.segment(o2, l))); m->w[i] = x; break; }
		case 5: { name = "concatenation"; if (m->w[i].len + cj.size() > 6) skip(); if (m->owns(i) && m->aliased(i)) skip(); auto d = m->cont(i); d.insert(d.end(), cj.begin(), cj.end()); if (d.empty()) skip(); V *n = new V(a, b); takeCopy(d); m->v[i].reset(n); break; }
		case 6: { name = "copyToSegment"; if (i == j || m->w[j].len > m->w[i].len || !m->w[j].len) skip(); if (m->w[i].blk == m->w[j].blk) skip(); unsigned st = choose(m->w[i].len - m->w[j].len + 1, "start"), how = choose(3, "manner"); if (how == 0) b.copyToSegment(a, st); else if (how == 1) { b.segmentCopyTo(a, 0, cj.size()); st = 0; } else { b.copyTo(a); st = 0; } for (unsigned k = 0; k < cj.size(); k++) m->blocks[m->w[i].blk].d[m->w[i].off + st + k] = cj[k]; break; }
		case 9: { name = "const segment assignment"; if (!m->w[j].len) skip(); if (i != j && m->owns(i) && m->aliased(i)) skip(); if (i == j && m->owns(i) && m->aliased(i)) skip(); unsigned o2 = choose(m->w[j].len, "start"), l = m->w[j].len - o2; if (l > 2) skip(); std::vector<int> d(cj.begin() + o2, cj.begin() + o2 + l); a = ((const V &)b).segment(o2, l); takeCopy(d); break; }
		case 7: { name = "fill"; if (!m->w[i].len) skip(); unsigned st = choose(m->w[i].len, "start"), l = choose(m->w[i].len - st + 1, "length"); int val = m->stamp++ % 120; if (st == 0 && l == m->w[i].len) a.fill(val); else a.fill(val, st, l); for (unsigned k = 0; k < l; k++) m->blocks[m->w[i].blk].d[m->w[i].off + st + k] = val; break; }
		case 8: { name = "resize"; unsigned n = choose(3, "size"); auto d = fresh(m->stamp, n); if (m->owns(i) && m->aliased(i)) skip(); a.resize(n); for (unsigned k = 0; k < n; k++) a[k] = d[k]; takeCopy(d); break; }
		}
		note("%s %u <- %u", name, i, j);
		m->check(name);
		state(m->hash(), depth() - s - 1);
	}
	for (unsigned i = 0; i < N; i++) if (!m->owns(i)) m->v[i].reset();
	for (unsigned i = 0; i < N; i++) m->v[i].reset();
	outcome(std::to_string(m->hash())); delete m;
}
MC_SCENARIO(C35, vector_operations, SEQ, "the same for the plain vector, whose non-const copies hand over ownership", o.quickDepth = 3, o.thoroughDepth = 5) { vOps<int>(3); }
MC_SCENARIO(C35, two_vectors, SEQ, "the same on two plain vectors, deeper", o.quickDepth = 5, o.thoroughDepth = 7) { vOps<int>(2); }
MC_SCENARIO(C35, wide_elements, SEQ, "the same on two vectors of a structure of several members", o.quickDepth = 4, o.thoroughDepth = 5) { vOps<Wide>(2); }
MC_SCENARIO(C35, byte_elements, SEQ, "the same on two vectors of single bytes", o.quickDepth = 4, o.thoroughDepth = 5) { vOps<signed char>(2); }
// Every window that can be taken of a vector: where it lies, what it holds, and whether writes go through.
template <class V, class T> struct WindowTest {
	static void holds(const VectorBase<T> &w, const T *at, size_t len, const char *what) { MC_CHECK(w.size() == len && w.bytes() == len * sizeof(T), "%s has %zu elements (%zu bytes), expected %zu", what, w.size(), w.bytes(), len); MC_CHECK(!len || w.begin() == at, "%s starts %td elements off", what, w.begin() - at); MC_CHECK(w.end() - w.begin() == (ptrdiff_t)len, "%s: end", what); for (size_t i = 0; i < len; i++) MC_CHECK(w[i] == at[i], "%s: element %zu", what, i); }
	static void mark(V &w, V &whole, size_t at, size_t len, const char *what) { std::vector<T> old(whole.begin(), whole.end()); w.fill((T)77); for (size_t i = 0; i < whole.size(); i++) MC_CHECK(whole[i] == (i >= at && i < at + len ? (T)77 : old[i]), "%s: a write reaches element %zu wrongly", what, i); for (size_t i = 0; i < whole.size(); i++) whole[i] = old[i]; MC_CHECK(!w.isOwner(), "%s owns memory", what); }
};
template <class V> static void withAlias(V &v, typename V::const_iterator b, size_t n) { V a(v.alias()); WindowTest<V, typename std::decay<decltype(v[0])>::type>::holds(a, b, n, "an alias"); WindowTest<V, typename std::decay<decltype(v[0])>::type>::mark(a, v, 0, n, "an alias"); }
static void withAlias(Vector<int> &, const int *, size_t) {}
template <class V, class T, class C> static void windows(C constOf)
{
	typedef WindowTest<V, T> W; unsigned n = choose(9, "size"), c = 0; V v(n); for (unsigned i = 0; i < n; i++) v[i] = (T)(i + 1); MC_CHECK(n == 0 || v.isOwner(), "a vector does not own its memory"); T *b = v.begin();
	withAlias(v, b, n);
	for (unsigned st = 0; st <= n; st++) { V t(v.tail(st)); W::holds(t, b + st, n - st, "a tail"); W::mark(t, v, st, n - st, "a tail"); V h(v.head(st)); W::holds(h, b, st, "a head"); W::mark(h, v, 0, st, "a head");
		for (unsigned l = 0; st + l <= n; l++) { V g(v.segment(st, l)); W::holds(g, b + st, l, "a segment"); W::mark(g, v, st, l, "a segment"); constOf(v, st, l); c++;
			for (unsigned s2 = 0; s2 <= l; s2++) for (unsigned l2 = 0; s2 + l2 <= l; l2++) { V k(g.segment(s2, l2)); W::holds(k, b + st + s2, l2, "a segment of a segment"); W::mark(k, v, st + s2, l2, "a segment of a segment"); V h2(g.head(s2)); W::holds(h2, b + st, s2, "the head of a segment"); V t2(g.tail(s2)); W::holds(t2, b + st + s2, l - s2, "the tail of a segment"); c++;
				{ V x(n); x.fill((T)9); k.copyToSegment(x, s2); for (unsigned i = 0; i < n; i++) MC_CHECK(x[i] == (i >= s2 && i < s2 + l2 ? v[st + i] : (T)9), "copying into a segment: element %u", i); }
				{ V x(n); x.fill((T)9); g.segmentCopyTo(x, s2, l2); for (unsigned i = 0; i < n; i++) MC_CHECK(x[i] == (i < l2 ? v[st + s2 + i] : (T)9), "copying from a segment: element %u", i); }
				{ V x(n); for (unsigned i = 0; i < n; i++) x[i] = v[i]; V xg(x.segment(st, l)); xg.fill((T)5, s2, l2); for (unsigned i = 0; i < n; i++) MC_CHECK(x[i] == (i >= st + s2 && i < st + s2 + l2 ? (T)5 : v[i]), "filling part of a segment: element %u", i); }
				{ V x(n); x.fill((T)9); if (l <= n) { g.copyTo(x); for (unsigned i = 0; i < n; i++) MC_CHECK(x[i] == (i < l ? v[st + i] : (T)9), "copying a segment: element %u", i); } } } } }
	cases(c); outcome(std::to_string(n));
}
MC_SCENARIO(C35, windows_of_bits, SEQ, "every head, tail, segment, and segment of a segment of bit vectors up to 8 bits") { windows<BitVector, char>([](const BitVector &v, size_t st, size_t l) { BitVector k(v.cloneSegment(st, l)); MC_CHECK(k.size() == l, "a cloned segment has %zu bits", k.size()); MC_CHECK(!l || k.begin() != v.begin() + st, "a cloned segment is no copy"); for (size_t i = 0; i < l; i++) MC_CHECK(k[i] == v[st + i], "bit %zu of a cloned segment", i); }); }
MC_SCENARIO(C35, windows_of_soft_bits, SEQ, "the same for soft bits, also of constant vectors") { windows<SoftVector, float>([](const SoftVector &v, size_t st, size_t l) { const SoftVector k(v.segment(st, l)), h(v.head(l)), t(v.tail(st)); MC_CHECK(k.size() == l && h.size() == l && t.size() == v.size() - st, "constant windows have %zu %zu %zu elements", k.size(), h.size(), t.size()); for (size_t i = 0; i < l; i++) MC_CHECK(k.softbit(i) == v.softbit(st + i) && h.softbit(i) == v.softbit(i), "element %zu of a constant window", i); for (size_t i = 0; i < t.size(); i++) MC_CHECK(t.softbit(i) == v.softbit(st + i), "element %zu of a constant tail", i); }); }
MC_SCENARIO(C35, windows_of_vectors, SEQ, "the same for plain vectors, also of constant vectors") { windows<Vector<int>, int>([](const Vector<int> &v, size_t st, size_t l) { const Vector<int> k(v.segment(st, l)), h(v.head(l)), t(v.tail(st)); typedef WindowTest<Vector<int>, int> W; W::holds(k, v.begin() + st, l, "a constant segment"); W::holds(h, v.begin(), l, "a constant head"); W::holds(t, v.begin() + st, v.size() - st, "a constant tail"); }); }
MC_SCENARIO(C35, very_long, SEQ, "copies, clones, concatenations, windows and copied segments of vectors of every size around round numbers and powers of two, past 65536 elements")
{
	unsigned n = chooseSize(5001, 65544), at = n / 3, len = n - at - n / 5; long l0 = gLiveNew; {
	Vector<int> v(n); for (unsigned i = 0; i < n; i++) v[i] = i * 7 + 1; BitVector b(n); for (unsigned i = 0; i < n; i++) b[i] = i % 3 == 0; SoftVector s(n); for (unsigned i = 0; i < n; i++) s[i] = i / 70000.0F;
	auto eq = [&](const VectorBase<int> &x, unsigned from, unsigned k, const char *what) { MC_CHECK(x.size() == k && x.bytes() == k * sizeof(int), "%s of %u elements has %zu, expected %u", what, n, x.size(), k); for (unsigned i = 0; i < k; i++) MC_CHECK(x.begin()[i] == (int)((from + i) * 7 + 1), "%s of %u elements: element %u is wrong", what, n, i); };
	auto eqb = [&](const BitVector &x, unsigned from, unsigned k, const char *what) { MC_CHECK(x.size() == k, "%s of %u bits has %zu, expected %u", what, n, x.size(), k); for (unsigned i = 0; i < k; i++) MC_CHECK(x.bit(i) == ((from + i) % 3 == 0), "%s of %u bits: bit %u is wrong", what, n, i); };
	{ const Vector<int> &cv = v; Vector<int> c(cv); eq(c, 0, n, "a copy"); Vector<int> d(1); d = cv; eq(d, 0, n, "an assigned copy"); Vector<int> e; e.clone(v); eq(e, 0, n, "a clone"); Vector<int> f(v, v); MC_CHECK(f.size() == 2 * n, "a concatenation has %zu elements", f.size()); eq(f.head(n), 0, n, "the first part"); eq(f.tail(n), 0, n, "the second part"); eq(v.segment(at, len), at, len, "a segment"); eq(cv.segment(at, len), at, len, "a constant segment");
	Vector<int> g(n); g.fill(5); v.segment(at, len).copyTo(g); for (unsigned i = 0; i < n; i++) MC_CHECK(g[i] == (i < len ? (int)((at + i) * 7 + 1) : 5), "copyTo: element %u of %u", i, n); g.fill(5); v.copyToSegment(g, at, len); for (unsigned i = 0; i < n; i++) MC_CHECK(g[i] == (i >= at && i < at + len ? (int)((i - at) * 7 + 1) : 5), "copyToSegment: element %u of %u", i, n); g.fill(5); v.segmentCopyTo(g, at, len); for (unsigned i = 0; i < n; i++) MC_CHECK(g[i] == (i < len ? (int)((at + i) * 7 + 1) : 5), "segmentCopyTo: element %u of %u", i, n); g.fill(6, at, len); for (unsigned i = at; i < at + len; i++) MC_CHECK(g[i] == 6, "fill of a part: element %u of %u", i, n); g.resize(n + 3); MC_CHECK(g.size() == n + 3, "resized to %zu", g.size()); }
	{ BitVector c(b); eqb(c, 0, n, "a copy"); BitVector d; d = b; eqb(d, 0, n, "an assigned copy"); BitVector e(b, b); eqb(e.head(n), 0, n, "the first part"); BitVector e2(e.tail(n)); for (unsigned i = 0; i < n; i++) MC_CHECK(e2.bit(i) == (i % 3 == 0), "the second part: bit %u of %u", i, n); eqb(b.segment(at, len), at, len, "a segment"); eqb(b.cloneSegment(at, len), at, len, "a cloned segment"); BitVector f; f.clone(b); eqb(f, 0, n, "a clone"); SoftVector sv(b); for (unsigned i = 0; i < n; i++) MC_CHECK(sv.softbit(i) == (i % 3 == 0 ? 1.0F : 0.0F), "soft bit %u of %u", i, n); eqb(sv.sliced(), 0, n, "a sliced copy"); SoftVector t(s); MC_CHECK(t.size() == n, "a soft copy has %zu", t.size()); for (unsigned i = 0; i < n; i++) MC_CHECK(t[i] == i / 70000.0F, "a soft copy: element %u of %u", i, n); }
	eq(v, 0, n, "the original"); eqb(b, 0, n, "the original"); }
	MC_CHECK(gLiveNew == l0, "%ld blocks leaked", gLiveNew - l0); outcome(std::to_string(n));
}
MC_SCENARIO(C35, no_leak, SEQ, "every operation followed by destruction gives all memory back")
{
	unsigned op = choose(10, "operation"); long l0 = gLiveNew;
	{
		BitVector a("10110"), b("011"), c; Vector<int> x(3), y(2); x.fill(1); y.fill(2); SoftVector s(3), t(4);
		switch (op) {
		case 0: a = b; c = a; break;
		case 1: a = b.segment(0, 2); a.resize(9); break;
		case 2: a.clone(a); b.clone(c); break;
		case 3: { BitVector d(a, b); c = d; d = c.segment(1, 3); break; }
		case 4: a = a; a = a.tail(2); a = a.head(1); break;
		case 5: x = y; Vector<int>(x).fill(3); break;
		case 6: x = x; y = (const Vector<int> &)y; break;
		case 7: { SoftVector u(a); BitVector d = u.sliced(); a = d; t = u; break; }
		case 8: c = a.cloneSegment(1, 2); c = c.cloneSegment(0, 1); break;
		case 9: { std::string p = a.packToString() + a.hexstr(); break; }
		}
	}
	MC_CHECK(gLiveNew == l0, "%ld blocks leaked", gLiveNew - l0);
	outcome(std::to_string(op));
}

// ================================================================ C36: transforms
static void transforms(const Bits &m)
{
	unsigned n = m.size(); BitVector v(n); put(v, m);
	std::string t = str(m);
	BitVector fs(t.c_str()); MC_CHECK(fs == v && fs.size() == n, "vector built from \"%s\" differs", t.c_str());
	std::ostringstream os; os << v; MC_CHECK(os.str() == t, "%s prints as %s", t.c_str(), os.str().c_str());
	unsigned ones = 0; for (int b : m) ones += b; MC_CHECK(v.sum() == ones, "sum of %s is %u", t.c_str(), v.sum());
	// inversion
	BitVector iv; iv.clone(v); iv.invert(); Bits im = m; for (auto &x : im) x ^= 1;
	MC_CHECK(bitsOf(iv) == im && iv.sum() == n - ones, "inverting %s gives %s", t.c_str(), str(bitsOf(iv)).c_str());
	BitVector ref(n); put(ref, im); MC_CHECK(iv == ref && ref == iv, "the inverse of %s is not equal to %s", t.c_str(), str(im).c_str());
	MC_CHECK(n == 0 || !(iv == v), "a vector equals its inverse");
	iv.invert(); MC_CHECK(iv == v, "inverting %s twice changes it", t.c_str());
	// byte reversal
	BitVector rv; rv.clone(v); rv.LSB8MSB(); Bits rm = m; for (unsigned i = 0; i + 8 <= n; i += 8) std::reverse(rm.begin() + i, rm.begin() + i + 8);
	MC_CHECK(bitsOf(rv) == rm, "byte reversal of %s gives %s", t.c_str(), str(bitsOf(rv)).c_str());
	rv.LSB8MSB(); MC_CHECK(rv == v, "reversing twice");
	if (n >= 8) { rv.reverse8(); Bits r8 = m; std::reverse(r8.begin(), r8.begin() + 8); MC_CHECK(bitsOf(rv) == r8, "reverse8 of %s gives %s", t.c_str(), str(bitsOf(rv)).c_str()); }
	// soft copies
	SoftVector sv(v); MC_CHECK(sv.size() == n, "soft size"); for (unsigned i = 0; i < n; i++) MC_CHECK(sv.softbit(i) == (float)m[i] && sv.bit(i) == (m[i] == 1) && sv[i] == (float)m[i], "soft bit %u of %s is %g", i, t.c_str(), sv.softbit(i));
	MC_CHECK(sv.sliced() == v, "slicing a soft copy of %s", t.c_str());
	std::ostringstream ss; ss << sv; MC_CHECK(ss.str() == t, "soft %s prints as %s", t.c_str(), ss.str().c_str());
	if (n) { float low; float e = sv.getEnergy(&low); MC_CHECK(e > 0.9999 && e < 1.0001 && low == 1, "energy of perfect bits is %g low %g", e, low); MC_CHECK(sv.getSNR() == 999, "SNR of perfect bits is %g", sv.getSNR()); }
}
MC_SCENARIO(C36, all_small, SEQ, "every bit vector up to 12 bits (thorough 17): inversion, reversal, printing, soft copies")
{ unsigned n = choose(thorough() ? 18 : 13, "size"); for (uint64_t x = 0; x < (1ull << n); x++) transforms(bitsOf(x, n)); cases(1ull << n); outcome(std::to_string(n)); }
MC_SCENARIO(C36, long_vectors, SEQ, "vectors of every size to 100 with single bits set")
{ unsigned n = choose(101, "size"); Bits b(n); for (unsigned i = 0; i < n; i++) { std::fill(b.begin(), b.end(), 0); b[i] = 1; transforms(b); } uint64_t s = n + 5; for (int k = 0; k < 8; k++) { for (auto &x : b) x = rnd(s) & 1; transforms(b); } cases(n + 8); outcome(std::to_string(n)); }
MC_SCENARIO(C36, very_long, SEQ, "vectors of every size around round numbers and powers of two up to 5000")
{
	unsigned n = chooseSize(5001); uint64_t s = 7 + n; Bits b(n); for (int k = 0; k < 2; k++) { for (auto &x : b) x = rnd(s) & 1; transforms(b); } std::fill(b.begin(), b.end(), 1); transforms(b);
	// comparison, concatenation and permutation of long vectors
	BitVector v(n), w(n); put(v, b); put(w, b); MC_CHECK(v == w, "two equal vectors of %u bits differ", n); for (unsigned i : { 0u, n / 2, n ? n - 1 : 0 }) if (i < n) { w.settfb(i, 0); MC_CHECK(!(v == w) && !(w == v), "vectors of %u bits that differ at %u are equal", n, i); w.settfb(i, 1); }
	Bits c(n); for (auto &x : c) x = rnd(s) & 1; put(w, c); BitVector vw(v, w); Bits e = b; e.insert(e.end(), c.begin(), c.end()); MC_CHECK(bitsOf(vw) == e, "the concatenation of two vectors of %u bits is wrong", n);
	std::vector<unsigned> p(n); for (unsigned i = 0; i < n; i++) p[i] = i; for (unsigned i = n; i > 1; i--) std::swap(p[i - 1], p[rnd(s) % i]); if (n) { BitVector d(n), back(n); d.zero(); back.zero(); w.map(&p[0], n, d); for (unsigned i = 0; i < n; i++) MC_CHECK(d.bit(i) == c[p[i]], "map of %u bits puts the wrong bit at %u", n, i); d.unmap(&p[0], n, back); MC_CHECK(back == w, "unmap of %u bits does not undo map", n); }
	std::vector<unsigned> pu; for (unsigned i = 1; i < n; i += 3) pu.push_back(i); if (pu.size()) { BitVector d(n - pu.size()); w.copyPunctured(d, &pu[0], pu.size()); Bits q; for (unsigned i = 0; i < n; i++) if (i % 3 != 1) q.push_back(c[i]); MC_CHECK(bitsOf(d) == q, "puncturing %u bits gives the wrong bits", n); SoftVector sd(d), su(n); su.fill(0.25F); sd.copyUnPunctured(su, &pu[0], pu.size()); for (unsigned i = 0; i < n; i++) MC_CHECK(su.softbit(i) == (i % 3 == 1 ? 0.5F : (float)c[i]), "unpunctured bit %u of %u is %g", i, n, su.softbit(i)); }
	outcome(std::to_string(n));
}
MC_SCENARIO(C36, equality, SEQ, "every pair of bit vectors up to 6 bits, owned and as windows")
{
	unsigned n = choose(7, "size"), k = choose(7, "size"); uint64_t c = 0;
	for (uint64_t x = 0; x < (1ull << n); x++) for (uint64_t y = 0; y < (1ull << k); y++) {
		Bits a = bitsOf(x, n), b = bitsOf(y, k); BitVector va(n), w(k + 2); w.fill(1); BitVector vb = w.segment(1, k); put(va, a); put(vb, b);
		MC_CHECK((va == vb) == (a == b) && (vb == va) == (a == b), "%s == %s is wrong", str(a).c_str(), str(b).c_str());
		BitVector cc(va, vb); Bits e = a; e.insert(e.end(), b.begin(), b.end()); MC_CHECK(bitsOf(cc) == e, "concatenation of %s and %s gives %s", str(a).c_str(), str(b).c_str(), str(bitsOf(cc)).c_str());
		c++;
	}
	cases(c); outcome(std::to_string(n * 10 + k));
}
MC_SCENARIO(C36, interleaving, SEQ, "every permutation of up to 5 positions (thorough 7), forwards and back")
{
	unsigned n = 1 + choose(thorough() ? 7 : 5, "size"); std::vector<unsigned> p(n); for (unsigned i = 0; i < n; i++) p[i] = i; uint64_t c = 0;
	do for (uint64_t x = 0; x < (1ull << n); x++) {
		Bits m = bitsOf(x, n); BitVector v(n), d(n), back(n); put(v, m); d.zero(); back.zero();
		v.map(&p[0], n, d); for (unsigned i = 0; i < n; i++) MC_CHECK(d.bit(i) == m[p[i]], "map puts the wrong bit at %u", i);
		d.unmap(&p[0], n, back); MC_CHECK(back == v, "unmap does not undo map");
		BitVector f(n); f.zero(); v.unmap(&p[0], n, f); for (unsigned i = 0; i < n; i++) MC_CHECK(f.bit(p[i]) == m[i], "unmap puts bit %u in the wrong place", i);
		d.fill(1); v.map(&p[0], n, d); f.fill(1); v.unmap(&p[0], n, f); for (unsigned i = 0; i < n; i++) MC_CHECK(d.bit(i) == m[p[i]] && f.bit(p[i]) == m[i], "mapping into a vector of ones: position %u", i);
		c++;
	} while (std::next_permutation(p.begin(), p.end()));
	// partial maps leave the rest alone
	for (unsigned k = 0; k <= n; k++) { BitVector v(n), d(n); v.fill(1); d.zero(); v.map(&p[0], k, d); MC_CHECK(d.sum() == k, "a map of %u positions wrote %u", k, d.sum()); }
	cases(c); outcome(std::to_string(n));
}
MC_SCENARIO(C36, puncturing, SEQ, "every puncturing pattern of vectors up to 9 bits (thorough 13), and its reversal on soft bits")
{
	unsigned n = choose(thorough() ? 14 : 10, "size"); uint64_t c = 0;
	for (uint64_t pat = 0; pat < (1ull << n); pat++) {
		std::vector<unsigned> p; for (unsigned i = 0; i < n; i++) if (pat >> i & 1) p.push_back(i);
		unsigned dummy = 0; const unsigned *pp = p.empty() ? &dummy : &p[0];
		for (int k = 0; k < 4; k++) {
			uint64_t s = pat * 4 + k + 77; rnd(s); Bits m(n); for (unsigned i = 0; i < n; i++) m[i] = k == 0 ? i & 1 : k == 1 ? !(i & 1) : rnd(s) & 1;
			BitVector v(n), d(n - p.size()); put(v, m); d.fill(0); v.copyPunctured(d, pp, p.size());
			Bits e; for (unsigned i = 0; i < n; i++) if (!(pat >> i & 1)) e.push_back(m[i]);
			MC_CHECK(bitsOf(d) == e, "puncturing %s gives %s, expected %s", str(m).c_str(), str(bitsOf(d)).c_str(), str(e).c_str());
			SoftVector sd(d), su(n); su.fill(0.25F); sd.copyUnPunctured(su, pp, p.size());
			for (unsigned i = 0; i < n; i++) MC_CHECK(su.softbit(i) == (pat >> i & 1 ? 0.5F : (float)m[i]), "unpunctured bit %u is %g", i, su.softbit(i));
			c++;
		}
	}
	cases(c); outcome(std::to_string(n));
}
MC_SCENARIO(C36, soft_values, SEQ, "every soft vector of up to 5 values from a grid: slicing, energy and signal-to-noise ratio")
{
	static const float G[] = { 0, 0.1F, 0.25F, 0.49F, 0.5F, 0.51F, 0.75F, 0.9F, 1 };
	unsigned n = choose(5, "size"); unsigned tot = 1; for (unsigned i = 0; i < n; i++) tot *= 9;
	for (unsigned x = 0; x < tot; x++) {
		SoftVector v(n); double sumE = 0, low = 1, noise = 0; unsigned y = x; std::string pr;
		for (unsigned i = 0; i < n; i++, y /= 9) { float g = G[y % 9]; v.settfb(i, g); double e = 2 * fabs(g - 0.5); sumE += e; if (e < low) low = e; double d = g < 0.5 ? g : 1 - g; noise += d * d; pr += g < 0.25 ? '0' : g > 0.75 ? '1' : '-'; MC_CHECK(v.bit(i) == (g > 0.5F), "bit of %g", g); }
		BitVector s = v.sliced(); for (unsigned i = 0; i < n; i++) MC_CHECK(s.bit(i) == (v.softbit(i) > 0.5F), "slicing %g gives %d", v.softbit(i), s.bit(i));
		float lo = -1, e = v.getEnergy(&lo); MC_CHECK(fabs(e - (n ? sumE / n : 0)) < 1e-5 && fabs(lo - low) < 1e-5, "energy %g low %g, expected %g %g", e, lo, n ? sumE / n : 0, low);
		MC_CHECK(fabs(v.getEnergy() - e) < 1e-6, "energy without low");
		double snr = n ? (noise * 1000 < 0.25 * n ? 999 : 0.25 * n / noise) : 0; MC_CHECK(fabs(v.getSNR() - snr) <= 1e-4 * snr, "SNR %g, expected %g", v.getSNR(), snr);
		std::ostringstream os; os << v; MC_CHECK(os.str() == pr, "printed as %s, expected %s", os.str().c_str(), pr.c_str());
	}
	static const float F[] = { 0, 0.001F, 0.015F, 0.017F, 0.49999F, 0.50001F, 0.96F, 0.985F, 0.999F, 1 }; tot = 1; for (unsigned i = 0; i < n; i++) tot *= 10;
	for (unsigned x = 0; x < tot; x++) {
		SoftVector v(n); double noise = 0, low = 1, sumE = 0; unsigned y = x; for (unsigned i = 0; i < n; i++, y /= 10) { float g = F[y % 10]; v.settfb(i, g); double d = g < 0.5 ? g : 1 - g, e = 1 - 2 * d; noise += d * d; sumE += e; if (e < low) low = e; MC_CHECK(v.bit(i) == (g > 0.5F), "bit of %g", g); }
		double r = n ? 0.25 * n / noise : 0, snr = r > 1000 ? 999 : r, g = v.getSNR(); MC_CHECK(fabs(g - snr) <= 1e-3 * snr || fabs(r - 1000) < 5, "SNR of nearly clean bits %g, expected %g", g, snr); float lo = -1, e = v.getEnergy(&lo); MC_CHECK(fabs(e - (n ? sumE / n : 0)) < 1e-5 && fabs(lo - low) < 1e-5, "energy %g low %g, expected %g %g", e, lo, n ? sumE / n : 0, low);
	}
	SoftVector u(n); u.unknown(); for (unsigned i = 0; i < n; i++) MC_CHECK(u.softbit(i) == 0.5F, "unknown"); 
	cases(tot); outcome(std::to_string(n));
}

// ================================================================ elements that are neither 0 nor 1: only the lowest bit counts
static void dirty(int what)
{
	static const int UP[] = { 2, 0x40, 0x80, 0xFE }; unsigned n = 1 + choose(9, "size"), u = choose(4, "upper bits"), which = choose(3, "elements"); uint64_t c = 0;
	for (uint64_t x = 0; x < (1ull << n); x++) {
		Bits m = bitsOf(x, n); BitVector v(n), clean(n); put(clean, m); for (unsigned i = 0; i < n; i++) v[i] = (char)(m[i] | (which == 0 || (which == 1 ? i % 2 : i == n - 1) ? UP[u] : 0)); std::string t = str(m); c++;
		if (what == 32) for (unsigned i = 0; i <= n; i++) for (unsigned l = 0; i + l <= n; l++) { size_t r = i; MC_CHECK(v.peekField(i, l) == clean.peekField(i, l) && v.readField(r, l) == clean.peekField(i, l) && (!l || v.peekFieldReversed(i, l) == clean.peekFieldReversed(i, l)), "field %u+%u of %s with other bits set", i, l, t.c_str()); }
		if (what == 33) { std::vector<unsigned char> a(3), b(3); v.pack(&a[0]); clean.pack(&b[0]); MC_CHECK(a == b && v.packToString() == clean.packToString() && v.hexstr() == clean.hexstr(), "packing %s with other bits set", t.c_str()); }
		if (what == 34) for (unsigned len = 1; len <= 5; len++) for (uint64_t g = 1; g < (1ull << len); g++) { Generator gen(g, len); MC_CHECK(v.parity(gen) == num(polymod(m, g, len, len)), "parity of %s with other bits set", t.c_str()); MC_CHECK(v.syndrome(gen) == num(polymod(m, g, len, 0)), "syndrome of %s with other bits set", t.c_str()); }
		if (what == 36) { unsigned ones = 0; for (unsigned i = 0; i < n; i++) { ones += m[i]; MC_CHECK(v.bit(i) == (m[i] == 1), "bit %u of %s with other bits set", i, t.c_str()); } MC_CHECK(v.sum() == ones, "sum of %s with other bits set is %u", t.c_str(), v.sum()); std::ostringstream os; os << v; MC_CHECK(os.str() == t, "%s with other bits set prints as %s", t.c_str(), os.str().c_str()); SoftVector sv(v); for (unsigned i = 0; i < n; i++) MC_CHECK(sv.softbit(i) == (float)m[i], "soft bit %u", i); BitVector iv; iv.clone(v); iv.invert(); for (unsigned i = 0; i < n; i++) MC_CHECK(iv[i] == 1 - m[i], "inverse of element %u is %d", i, iv[i]); }
	}
	cases(c); outcome(std::to_string(n));
}
MC_SCENARIO(C32, other_bits, SEQ, "fields of vectors whose elements have other bits set than the lowest") { dirty(32); }
MC_SCENARIO(C33, other_bits, SEQ, "packing vectors whose elements have other bits set than the lowest") { dirty(33); }
MC_SCENARIO(C34, other_bits, SEQ, "parity of vectors whose elements have other bits set than the lowest") { dirty(34); }
MC_SCENARIO(C36, other_bits, SEQ, "sum, print, inverse and soft copy of vectors whose elements have other bits set than the lowest") { dirty(36); }
