// See mc.h.  Two builds of this file:
//   -DMC_CONC : fibers + interposed pthread/clock/malloc + own __tsan_* runtime (race detection)
//   (none)    : sequential scenarios, normally with AddressSanitizer
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <map>
#include <set>
#include <new>
#include <algorithm>

namespace mc {

// ------------------------------------------------------------------ shared between processes
struct Node { uint32_t n, pick; uint64_t costMask; uint8_t costKind; char label[15]; };
enum { MAXPATH = 60000, MAXMSG = 6000, VISBITS = 23, MAXOUT = 64 };
enum Status { ST_RUNNING, ST_DONE, ST_PRUNED, ST_SKIPPED, ST_VIOLATION, ST_DIVERGED };
struct Shared {
	volatile uint32_t pathLen;	// nodes recorded in this execution so far
	uint32_t prefixLen;		// nodes whose pick is prescribed
	volatile uint64_t progress;	// bumped so the monitor sees life
	volatile int status;
	char msg[MAXMSG];
	uint64_t executions, completed, pruned, skipped, steps, states, caseCount, maxDepthSeen;
	uint64_t contextSwitches;
	uint32_t knownCount; char knownHit[16][64];
	uint32_t outcomeCount; uint64_t outcomeHash[4096]; char outcomeText[MAXOUT][200];
	bool visFull, sawCost, cut;
	volatile int finished;		// worker completed its enumeration (1) or hit the cap (2)
	int boundDone;
	Node path[MAXPATH];
	uint64_t visKey[1u << VISBITS];
	uint16_t visVal[1u << VISBITS];
};
static Shared *S;
static const Scenario *gScn;
static std::vector<Scenario> &registry() { static std::vector<Scenario> *r = new std::vector<Scenario>; return *r; }
Register::Register(const Scenario &s) { registry().push_back(s); }

// ------------------------------------------------------------------ per process engine state
enum { MAXF = 8 };
enum OpType { OP_NONE, OP_START, OP_LOCK, OP_TIMEDLOCK, OP_TRYLOCK, OP_UNLOCK, OP_CONDWAIT, OP_REACQ, OP_SIGNAL, OP_BROADCAST,
	OP_CREATE, OP_JOIN, OP_SLEEP, OP_YIELD, OP_RD, OP_WR, OP_TRYRD, OP_TRYWR, OP_RWUNLOCK, OP_SEMWAIT, OP_SEMTRY, OP_SEMPOST,
	OP_ATOMIC, OP_POINT, OP_QUIESCE, OP_GUARD, OP_ONCE, OP_CHOOSE, OP_EXIT, OP_CALL, OP_CLOCK, OP_TIMEDRD, OP_TIMEDWR, OP_SEMTIMED, OP_CANCEL };
static const char *opName[] = { "none","start","lock","timedlock","trylock","unlock","cond_wait","cond_wait(reacquire)","cond_signal","cond_broadcast",
	"create","join","sleep","yield","rdlock","wrlock","tryrdlock","trywrlock","rwunlock","sem_wait","sem_trywait","sem_post",
	"atomic","point","quiesce","static_init","once","choose","exit","call","clock","timedrdlock","timedwrlock","sem_timedwait","cancel" };

struct Vc { uint16_t c[MAXF]; };

struct Obj {
	H hash = 0; Vc vc = {};
	int owner = -1, count = 0, kind = 0;
	bool destroyed = false;
	std::vector<int> waiters;	// condition: waiting fibers in arrival order
	int readers[MAXF] = {}; int nread = 0;
	long sem = 0;
	int guard = 0;
};

struct Fiber {
	int id; void *sp; bool used, done, detached, joined, cancelled, joinedBy;
	std::function<void()> fn; void *(*pfn)(void *); void *parg; void *ret;
	H hash; Vc vc; int op; uintptr_t obj, obj2; 
	bool signalled, timedOut, hasDeadline, yielded; int64_t deadline;
	uint64_t eh[2]; int err; int inEng; int noSched, raceIgn;
	std::string name; char *tls;
	int pickPrio;
};

struct Eng {
	int64_t now, base; H lastSig; bool clockMovedEarly; int clockReads;
	int cur, nf; Fiber f[MAXF];
	bool model; int inEng;
	uint32_t pos; int used; int bound;
	std::map<uintptr_t, Obj> *objs;
	void *engineSp;
	long steps; bool trace; bool replay; bool preTrace;
	uint16_t gen;
	bool seqActive;
	std::vector<unsigned> *picks;
	std::vector<std::string> *known;
	uint64_t retSum; int histClock;
	std::vector<Op> *hist[16]; int nhist;
	bool thorough;
};
static Eng *E;

uint64_t gCases;
H hashStr(const std::string &s) { H h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return mix(h, s.size()); }

static void tracef(const char *fmt, ...)
{
	if (!E->trace) return;
	char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n] = '\n';
	if (write(1, b, n + 1)) {}
}

#ifdef MC_CONC
struct InEng { InEng() { E->inEng++; } ~InEng() { E->inEng--; } };
#else
struct InEng { InEng() {} };
#endif
#ifdef MC_CONC
static void leave(int st);
#endif

static void setViolation(const char *m)
{
	if (S->status != ST_VIOLATION) { snprintf(S->msg, MAXMSG, "%s", m); S->status = ST_VIOLATION; }
}

[[noreturn]] static void die(int st)
{
	if (E->trace && st == ST_VIOLATION) tracef("VIOLATED: %s", S->msg);
	if (st == ST_DIVERGED) S->status = ST_DIVERGED;
	_exit(st == ST_VIOLATION ? 77 : 78);
}

void fail(const char *fmt, ...)
{
	InEng e;
	char b[MAXMSG]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	setViolation(b);
	die(ST_VIOLATION);
}

void note(const char *fmt, ...)
{
	if (!E->trace) return;
	InEng e;
	char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	tracef("  [%d] %s", E->cur, b);
}
bool tracing() { return E->trace; }
bool thorough() { return E->thorough; }
int depth() { return E->thorough ? gScn->opts.thoroughDepth : gScn->opts.quickDepth; }

void outcome(const std::string &s)
{
	InEng e;
	H h = hashStr(s);
	for (unsigned i = 0; i < S->outcomeCount; i++) if (S->outcomeHash[i] == h) return;
	if (S->outcomeCount >= 4096) return;
	if (S->outcomeCount < MAXOUT) snprintf(S->outcomeText[S->outcomeCount], 200, "%s", s.c_str());
	S->outcomeHash[S->outcomeCount++] = h;
	if (E->trace) tracef("  outcome: %s", s.c_str());
}
void cases(uint64_t n) { S->caseCount += n; S->progress = S->progress + 1; }

bool known(const char *id)
{
	InEng e;
	for (auto &k : *E->known) if (k == id) {
		for (unsigned i = 0; i < S->knownCount; i++) if (!strcmp(S->knownHit[i], id)) return true;
		if (S->knownCount < 16) snprintf(S->knownHit[S->knownCount++], 64, "%s", id);
		return true;
	}
	return false;
}

static int visit(H key, int val)	// true if already covered with at least val
{
	if (!key) key = 1;
	uint32_t i = (uint32_t)(key >> 7) & ((1u << VISBITS) - 1);
	for (int probe = 0; probe < 64; probe++, i = (i + 1) & ((1u << VISBITS) - 1)) {
		if (S->visKey[i] == key) {
			if (S->visVal[i] >= val + 1) return 1;
			S->visVal[i] = val + 1; return 0;
		}
		if (!S->visKey[i]) {
			S->visKey[i] = key; S->visVal[i] = val + 1; S->states++; return 0;
		}
	}
	S->visFull = true;
	S->states++;
	return 0;
}

static inline int optCost(const Node &n, uint32_t k)
{
	if (n.costKind == 1) return 0;
	if (n.costKind == 2) return k ? 1 : 0;
	return (n.costMask >> (k & 63)) & 1;
}

// Take the next choice.  Returns option number.
static uint32_t take(uint32_t n, uint8_t costKind, uint64_t mask, const char *label)
{
	if (n <= 1) return 0;
	uint32_t p = E->pos++;
	if (p >= MAXPATH) { setViolation("execution exceeds the choice limit (no termination)"); die(ST_VIOLATION); }
	Node &nd = S->path[p];
	if (E->replay) {
		nd.n = n; nd.pick = p < E->picks->size() ? (*E->picks)[p] : 0; nd.costKind = costKind; nd.costMask = mask;
		if (nd.pick >= n) { snprintf(S->msg, MAXMSG, "replay diverged at choice %u: pick %u of %u options (%s)", p, nd.pick, n, label); die(ST_DIVERGED); }
	} else if (p < S->prefixLen) {
		if (nd.n != n || strncmp(nd.label, label, 14)) {
			snprintf(S->msg, MAXMSG, "replay diverged at choice %u: recorded %u options (%s), now %u (%s)", p, nd.n, nd.label, n, label);
			die(ST_DIVERGED);
		}
	} else {
		nd.n = n; nd.pick = 0; nd.costKind = costKind; nd.costMask = mask;
		strncpy(nd.label, label, 14); nd.label[14] = 0;
	}
	S->pathLen = p + 1;
	if (costKind == 2 || (costKind == 0 && mask)) S->sawCost = true;
	E->used += optCost(nd, nd.pick);
	return nd.pick;
}

static bool beyondPrefix() { return E->pos >= S->prefixLen; }

#ifdef MC_CONC
// ================================================================== fibers
static inline Fiber &me() { return E->f[E->cur]; }

extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
	ret
.size mc_switch,.-mc_switch
)");
extern "C" uint64_t *__cxa_get_globals();

enum { STACKSZ = 512 * 1024 };
static char *gStacks;
static const size_t ARENA = 32u << 20;
static char *gArena;			// MAXF * ARENA
static char *gArenaPtr[MAXF];
static char *gDataLo, *gDataHi, *gSnap;
static char *gSqlLo, *gSqlHi, *gSqlSnap;	// writable data of libsqlite3, restored likewise
static size_t gTlsSize; static char *gTlsInit;

static char *tlsBase() { char *fs; asm("movq %%fs:0,%0" : "=r"(fs)); return fs - gTlsSize; }

struct Cell { uint16_t gen; uint8_t wt; uint8_t freed; uint16_t wc; uint16_t pad; uint16_t rc[MAXF]; };
static Cell *gShadowArena, *gShadowData, *gShadowInit;

static Obj &obj(uintptr_t a) { return (*E->objs)[a]; }

static void joinVc(Vc &a, const Vc &b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(Fiber &f, Obj &o) { joinVc(f.vc, o.vc); }
static void release(Fiber &f, Obj &o) { joinVc(o.vc, f.vc); f.vc.c[f.id]++; }
static void event(Fiber &f, Obj &o, uintptr_t a, int op, H extra = 0)
{
	H h = mix(mix(f.hash, o.hash), mix(mix(op, a), extra));
	f.hash = h; o.hash = h;
}
static void event1(Fiber &f, int op, H extra = 0) { f.hash = mix(f.hash, mix(op + 1000, extra)); }

static void switchTo(int t)
{
	int c = E->cur;
	if (c == t) return;
	Fiber &a = E->f[c], &b = E->f[t];
	uint64_t *g = __cxa_get_globals();
	a.eh[0] = g[0]; a.eh[1] = g[1]; a.err = errno; a.inEng = E->inEng;
	if (gTlsSize) memcpy(a.tls, tlsBase(), gTlsSize);
	E->cur = t;
	S->contextSwitches++;
	mc_switch(&a.sp, b.sp);
	// back in c
	g = __cxa_get_globals();
	g[0] = a.eh[0]; g[1] = a.eh[1]; errno = a.err; E->inEng = a.inEng;
	if (gTlsSize) memcpy(tlsBase(), a.tls, gTlsSize);
}

static void leave(int st)	// abandon the execution
{
	if (S->status == ST_RUNNING) S->status = st;
	void *dummy;
	mc_switch(&dummy, E->engineSp);
	abort();
}

static std::string describe()
{
	std::string s;
	for (int i = 0; i < E->nf; i++) {
		Fiber &f = E->f[i];
		char b[200];
		snprintf(b, sizeof b, "%s thread %d%s%s: %s", i ? ";" : "", i, f.name.empty() ? "" : " ", f.name.c_str(), f.done ? "finished" : opName[f.op]);
		s += b;
		if (!f.done && (f.op == OP_LOCK || f.op == OP_REACQ || f.op == OP_TIMEDLOCK)) {
			snprintf(b, sizeof b, " (mutex owned by %d)", obj(f.obj).owner); s += b;
		}
	}
	return s;
}

// may a reader enter (o.kind: writers that wait go first, as glibc does for PREFER_WRITER_NONRECURSIVE)
static bool rdFree(const Fiber &f, const Obj &o)
{
	if (o.owner >= 0) return false;
	if (o.kind && o.nread) for (int i = 0; i < E->nf; i++) { const Fiber &g = E->f[i]; if (!g.done && g.obj == f.obj && (g.op == OP_WR || g.op == OP_TIMEDWR)) return false; }
	return true;
}
static bool enabledF(Fiber &f)
{
	if (f.done || !f.used) return false;
	switch (f.op) {
	case OP_LOCK: { Obj &o = obj(f.obj); return o.owner < 0 || (o.owner == f.id && o.kind != 0); }
	case OP_TIMEDLOCK: { Obj &o = obj(f.obj); return o.owner < 0 || (o.owner == f.id && o.kind != 0) || f.timedOut; }
	case OP_CONDWAIT: return false;	// waits for a signal; becomes OP_REACQ
	case OP_REACQ: { Obj &o = obj(f.obj); return o.owner < 0; }
	case OP_JOIN: return E->f[f.obj].done;
	case OP_SLEEP: return f.timedOut;
	case OP_RD: { Obj &o = obj(f.obj); return rdFree(f, o); }
	case OP_WR: { Obj &o = obj(f.obj); return o.owner < 0 && o.nread == 0; }
	case OP_TIMEDRD: { Obj &o = obj(f.obj); return rdFree(f, o) || f.timedOut; }
	case OP_TIMEDWR: { Obj &o = obj(f.obj); return (o.owner < 0 && o.nread == 0) || f.timedOut; }
	case OP_SEMWAIT: return obj(f.obj).sem > 0;
	case OP_SEMTIMED: return obj(f.obj).sem > 0 || f.timedOut;
	case OP_GUARD: return obj(f.obj).guard != 1;
	case OP_QUIESCE: {
		for (int i = 0; i < E->nf; i++) if (i != f.id && E->f[i].used && !E->f[i].done) {
			Fiber &g = E->f[i];
			if (g.op == OP_QUIESCE) continue;
			if (g.hasDeadline || enabledF(g)) return false;
		}
		return true;
	}
	default: return true;
	}
}
static bool waitsDeadline(Fiber &f)
{
	return f.used && !f.done && f.hasDeadline && !f.timedOut && (f.op == OP_TIMEDLOCK || f.op == OP_CONDWAIT || f.op == OP_SLEEP
		|| f.op == OP_TIMEDRD || f.op == OP_TIMEDWR || f.op == OP_SEMTIMED);
}

static void fireUpTo()
{
	for (int i = 0; i < E->nf; i++) {
		Fiber &f = E->f[i];
		if (!waitsDeadline(f) || f.deadline > E->now) continue;
		f.timedOut = true;
		f.hash = mix(f.hash, 0x7153);
		if (f.op == OP_CONDWAIT) {
			Obj &c = obj(f.obj2);
			c.waiters.erase(std::find(c.waiters.begin(), c.waiters.end(), i));
			f.op = OP_REACQ;
		}
		if (E->trace) tracef("  time-out of thread %d fires (now=+%lldus)", i, (long long)(E->now - E->base));
	}
}

static void stepCount()
{
	S->steps++;
	if (++E->steps > gScn->opts.maxSteps) {
		std::string d = "no termination within the step bound (livelock or unbounded loop):" + describe();
		setViolation(d.c_str()); die(ST_VIOLATION);
	}
}

static H stateSig()
{
	H h = mix(77, E->now * 2 + E->clockMovedEarly);
	for (int i = 0; i < E->nf; i++) h += mix(mix(i + 1, E->f[i].hash), E->f[i].done * 4 + E->f[i].yielded + (waitsDeadline(E->f[i]) ? (uint64_t)E->f[i].deadline * 8 : 0));
	if (E->bound < 99) h = mix(h, enabledF(me()) ? E->cur + 1 : 0);
	return h;
}

// Called with me().op describing the pending operation; returns when this fiber may perform it.
static void sched()
{
	Fiber &f = me();
	if (f.noSched && enabledF(f)) return;
	if (f.cancelled && (f.op == OP_CONDWAIT || f.op == OP_SLEEP)) { }
	stepCount();
	for (;;) {
		int opts[2 * MAXF + 4], n = 0; uint64_t mask = 0;
		bool meOn = enabledF(f), anyOther = false;
		if (meOn && !f.yielded) opts[n++] = E->cur;
		for (int k = 1; k < E->nf; k++) {
			int i = (E->cur + k) % E->nf;
			if (!enabledF(E->f[i]) || E->f[i].yielded) continue;
			if (n && opts[0] == E->cur) mask |= 1ull << n;
			opts[n++] = i; anyOther = true;
		}
		for (int i = 0; i < E->nf; i++) if (i != E->cur && E->f[i].yielded && enabledF(E->f[i])) {
			if (n) mask |= 1ull << n;
			opts[n++] = i;
		}
		if (meOn && f.yielded) { if (n) mask |= 1ull << n; opts[n++] = E->cur; }
		(void)anyOther;
		int64_t next = -1;
		for (int i = 0; i < E->nf; i++) if (waitsDeadline(E->f[i]) && (next < 0 || E->f[i].deadline < next)) next = E->f[i].deadline;
		if (next >= 0 && (n == 0 || gScn->opts.timeAdvance)) { if (n) mask |= 1ull << n; opts[n++] = 100; }
		if (gScn->opts.spurious)
			for (int i = 0; i < E->nf; i++) if (E->f[i].used && !E->f[i].done && E->f[i].op == OP_CONDWAIT) { if (n) { mask |= 1ull << n; opts[n++] = 200 + i; } }
		if (n == 0) {
			std::string d = "deadlock: no thread can continue:" + describe();
			setViolation(d.c_str()); die(ST_VIOLATION);
		}
		if (!E->replay && beyondPrefix()) {
			int left = E->bound - E->used; if (left < 0 || E->bound >= 99) left = 0;
			H sig = stateSig();	// the state this very execution visited last is not a reason to stop
			if (sig != E->lastSig && visit(sig, left)) leave(ST_PRUNED);
			E->lastSig = sig;
		}
		if (gScn->opts.fixedOrder && n > 1) mask |= ((2ull << (n - 1)) - 1) & ~1ull;
		int t = opts[take(n, 0, mask, "sched")];
		if (t >= 200) {
			Fiber &g = E->f[t - 200];
			Obj &c = obj(g.obj2);
			c.waiters.erase(std::find(c.waiters.begin(), c.waiters.end(), t - 200));
			g.op = OP_REACQ; g.hash = mix(g.hash, 0x5b75);
			if (E->trace) tracef("  spurious wake-up of thread %d", t - 200);
			stepCount();
			continue;
		}
		if (t == 100) {
			for (int i = 0; i < E->nf; i++) if (enabledF(E->f[i])) E->clockMovedEarly = true;
			if (next > E->now) E->now = next;
			fireUpTo();
			stepCount();
			continue;
		}
		for (int i = 0; i < E->nf; i++) if (E->f[i].op != OP_YIELD || i == t) E->f[i].yielded = false;
		if (t != E->cur) switchTo(t);
		// f may have been resumed here by someone else's choice
		if (!enabledF(f)) { setViolation("engine: resumed a disabled thread"); die(ST_DIVERGED); }
		return;
	}
}

static void fiberEnd()
{
	Fiber &f = me();
	f.op = OP_EXIT;
	event1(f, OP_EXIT);
	f.vc.c[f.id]++;
	f.done = true;
	if (E->trace) tracef("  [%d] thread ends", f.id);
	bool all = true;
	for (int i = 0; i < E->nf; i++) if (!E->f[i].done) all = false;
	if (all || (f.id == 0 && gScn->opts.endAtMain)) leave(ST_DONE);
	sched();	// never returns here: this fiber is not enabled
	abort();
}

struct FiberExit {};
static void fiberMain()
{
	Fiber &f = me();
	E->inEng = 0;
	uint64_t *g = __cxa_get_globals(); g[0] = g[1] = 0;
	if (gTlsSize) memcpy(tlsBase(), f.tls, gTlsSize);
	{ InEng e; event1(f, OP_START); if (E->trace) tracef("  [%d] thread starts", f.id); }
	try {
		if (f.pfn) f.ret = f.pfn(f.parg);
		else f.fn();
	} catch (FiberExit &) {
	} catch (...) {
		E->inEng++;
		setViolation("an exception escaped from a thread"); die(ST_VIOLATION);
	}
	E->inEng++;
	fiberEnd();
}

static int newFiber(Fiber *parent)
{
	int id = -1;
	if (E->nf < MAXF) id = E->nf++;
	else for (int i = 1; i < MAXF; i++) if (i != E->cur && E->f[i].done && (E->f[i].joined || E->f[i].detached)) { id = i; break; }
	if (id < 0) { setViolation("engine: too many threads"); die(ST_DIVERGED); }
	Fiber &f = E->f[id];
	uint16_t was = f.used ? f.vc.c[id] : 0;	// a number that is used again goes on counting
	f.id = id; f.used = true; f.done = f.detached = f.joined = f.cancelled = false;
	f.fn = nullptr; f.pfn = 0; f.ret = 0; f.op = OP_START; f.obj = f.obj2 = 0;
	f.signalled = f.timedOut = f.hasDeadline = f.yielded = false;
	f.noSched = f.raceIgn = 0; f.name.clear();
	f.hash = parent ? mix(parent->hash, id + 555) : 4242;
	f.vc = parent ? parent->vc : Vc{};
	f.vc.c[id] = std::max(was, f.vc.c[id]) + 1;
	if (gTlsSize) { if (!f.tls) f.tls = (char *)malloc(gTlsSize); memcpy(f.tls, gTlsInit, gTlsSize); }
	char *top = gStacks + (size_t)(id + 1) * STACKSZ;
	void **sp = (void **)(top - 64);
	*--sp = 0;			// fake return address, keeps alignment
	*--sp = (void *)fiberMain;
	for (int i = 0; i < 6; i++) *--sp = 0;
	f.sp = sp;
	return id;
}

int spawn(std::function<void()> fn, const char *name)
{
	InEng e;
	Fiber &f = me();
	f.op = OP_CREATE; f.obj = 0; sched();
	event1(f, OP_CREATE);
	int id = newFiber(&f);
	f.vc.c[f.id]++;
	E->f[id].fn = fn;
	if (name) E->f[id].name = name;
	return id;
}
void join(int t)
{
	InEng e;
	Fiber &f = me();
	f.op = OP_JOIN; f.obj = t; sched();
	event1(f, OP_JOIN, E->f[t].hash);
	joinVc(f.vc, E->f[t].vc);
	E->f[t].joined = true;
}
void joinAll() { for (int i = 1; i < E->nf; i++) if (i != E->cur) join(i); }
int self() { return E->cur; }
void point() { InEng e; Fiber &f = me(); f.op = OP_POINT; sched(); event1(f, OP_POINT); }
void point(const void *what) { InEng e; Fiber &f = me(); f.op = OP_POINT; sched(); event(f, obj((uintptr_t)what), (uintptr_t)what, OP_POINT); }
bool finished(int t) { return E->f[t].done; }
bool blocked(int t) { InEng e; return !enabledF(E->f[t]); }
void quiesce() { InEng e; Fiber &f = me(); f.op = OP_QUIESCE; sched(); H h = 0; for (int i = 0; i < E->nf; i++) if (i != f.id) h += mix(i, E->f[i].hash); event1(f, OP_QUIESCE, h);
	for (int i = 0; i < E->nf; i++) if (i != f.id) joinVc(f.vc, E->f[i].vc); }
void noSched(int d) { me().noSched += d; }
void raceIgnore(int d) { me().raceIgn += d; }
int64_t nowUs() { if (E->model && !E->seqActive) { InEng e; event1(me(), OP_CLOCK, E->now - E->base); } return E->now - E->base; }
bool timeoutsFired() { return E->clockMovedEarly; }
void setClock(int64_t s, int64_t us) { E->now = E->base = s * 1000000 + us; }
void advance(int64_t us) { InEng e; E->now += us; fireUpTo(); }

unsigned chooseGen(unsigned n, int kind, uint64_t mask, const char *label)
{
	InEng e;
	unsigned r = take(n, kind, mask, label);
	if (E->seqActive) { if (E->trace) tracef("  %s -> %u of %u", label, r, n); return r; }
	event1(me(), OP_CHOOSE, r + 1);
	if (E->trace) tracef("  [%d] %s -> %u of %u", E->cur, label, r, n);
	return r;
}
void skip() { InEng e; if (E->seqActive) { S->status = ST_SKIPPED; } leave(ST_SKIPPED); abort(); }
void state(H h, int remaining)
{
	InEng e;
	if (E->replay || !beyondPrefix()) return;
	if (visit(mix(h, E->used + 17), remaining)) leave(ST_PRUNED);
}

// ---- histories
History::History() { InEng e; ops = new std::vector<Op>; }
History::~History() { InEng e; delete ops; }
int History::call(int kind, long a, long b)
{
	InEng e;
	Fiber &f = me();
	f.op = OP_CALL; sched();
	event1(f, OP_CALL, mix(kind, E->retSum));
	Op o; o.thread = f.id; o.kind = kind; o.a = a; o.b = b; o.res = 0; o.call = E->histClock++; o.ret = -1;
	ops->push_back(o);
	return ops->size() - 1;
}
void History::ret(int id, long res)
{
	InEng e;
	Op &o = (*ops)[id];
	o.res = res; o.ret = E->histClock++;
	event1(me(), OP_CALL, mix(99, res));
	E->retSum += mix(me().hash, id + 31);
}
std::string History::str(const char *const *names) const
{
	std::string s;
	for (auto &o : *ops) {
		char b[120]; snprintf(b, sizeof b, "t%d %s(%ld,%ld)=%ld [%d..%d]; ", o.thread, names[o.kind], o.a, o.b, o.res, o.call, o.ret);
		s += b;
	}
	return s;
}

// ================================================================== memory
// Blocks allocated before main() (by constructors of globals) live in a region of their own that
// is restored before each execution together with the program image.
static const size_t INITSZ = 32u << 20;
static char *gInitLo, *gInitPtr, *gInitSnap; static bool gInitPhase = true;
static inline bool inInit(const void *p) { return gInitLo && (char *)p >= gInitLo && (char *)p < gInitLo + INITSZ; }
static inline bool inArena(const void *p) { return gArena && (char *)p >= gArena && (char *)p < gArena + MAXF * ARENA; }
struct Hdr { size_t size; uint64_t magic; };
static const uint64_t LIVE = 0x4c4956454c495645ull, DEAD = 0x4445414444454144ull;

static void *arenaAlloc(size_t n, size_t align = 16)
{
	int t = E->cur;
	char *p = gArenaPtr[t];
	uintptr_t u = (uintptr_t)p + sizeof(Hdr);
	u = (u + align - 1) & ~(uintptr_t)(align - 1);
	Hdr *h = (Hdr *)(u - sizeof(Hdr));
	gArenaPtr[t] = (char *)((u + n + 31) & ~(uintptr_t)15);
	if (gArenaPtr[t] > gArena + (t + 1) * ARENA) { E->inEng++; fail("execution uses more than %zu MB of heap (unbounded growth)", ARENA >> 20); }
	h->size = n; h->magic = LIVE;
	memset((void *)u, 0xCB, n < 65536 ? n : 65536);
	return (void *)u;
}
static void arenaFree(void *p)
{
	Hdr *h = (Hdr *)p - 1;
	if (h->magic != LIVE) { E->inEng++; fail(h->magic == DEAD ? "double free of heap block %p" : "free of invalid pointer %p", p); }
	h->magic = DEAD;
	size_t n = h->size;
	if (n <= 4096) {
		size_t off = (char *)p - gArena;
		for (size_t i = 0; i < n; i++) { Cell &c = gShadowArena[off + i]; if (c.gen != E->gen) { memset(&c, 0, sizeof c); c.gen = E->gen; c.wt = 0xff; } c.freed = 1; }
		memset(p, 0xDD, n);
	}
}

static void *initAlloc(size_t n, size_t align = 16)
{
	if (!gInitLo) { char *p = (char *)mmap(0, INITSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); gInitLo = gInitPtr = p; }
	uintptr_t u = ((uintptr_t)gInitPtr + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
	if (u + n + 16 > (uintptr_t)gInitLo + INITSZ) abort();
	((Hdr *)u - 1)->size = n; ((Hdr *)u - 1)->magic = LIVE;
	gInitPtr = (char *)((u + n + 15) & ~(uintptr_t)15);
	return (void *)u;
}

extern "C" void *__libc_malloc(size_t), __libc_free(void *), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);

static inline bool modelMem() { return E && E->model && !E->inEng; }

static void access(const void *a, unsigned long n, bool wr, void *pc)
{
	if (!E || !E->model || E->inEng) return;
	Cell *c;
	if (inArena(a)) c = gShadowArena + ((char *)a - gArena);
	else if ((char *)a >= gDataLo && (char *)a < gDataHi) c = gShadowData + ((char *)a - gDataLo);
	else if (inInit(a) && gShadowInit) c = gShadowInit + ((char *)a - gInitLo);
	else return;
	if (E->seqActive) { for (unsigned long i = 0; i < n; i++) if (c[i].gen == E->gen && c[i].freed) { E->inEng++; fail("use of freed memory at %p (pc %p)", a, pc); } return; }
	Fiber &f = me();
	if (f.raceIgn) return;
	for (unsigned long i = 0; i < n; i++, c++) {
		if (c->gen != E->gen) { memset(c, 0, sizeof *c); c->gen = E->gen; c->wt = 0xff; }
		if (c->freed) { E->inEng++; Dl_info di; fail("thread %d uses freed memory (%s of %lu bytes, pc %#lx)", f.id, wr ? "write" : "read", n, (unsigned long)((char *)pc - (dladdr(pc, &di) ? (char *)di.dli_fbase : 0))); }
		bool race = false; int other = -1; const char *ok = "";
		if (c->wt != 0xff && c->wt != f.id && c->wc > f.vc.c[c->wt]) { race = true; other = c->wt; ok = "write"; }
		if (wr) {
			for (int u = 0; u < E->nf; u++) if (u != f.id && c->rc[u] > f.vc.c[u]) { race = true; other = u; ok = "read"; }
			c->wt = f.id; c->wc = f.vc.c[f.id];
		} else c->rc[f.id] = f.vc.c[f.id];
		if (race && gScn->opts.races) {
			E->inEng++;
			Dl_info di; 
			fail("data race: thread %d %s (pc %#lx) is not ordered with an earlier %s by thread %d", f.id, wr ? "write" : "read",
				(unsigned long)((char *)pc - (dladdr(pc, &di) ? (char *)di.dli_fbase : 0)), ok, other);
		}
	}
}
#define RA __builtin_return_address(0)

#else	// !MC_CONC ==================================================== sequential engine
std::function<void()> gOnSleep;
struct Abandon {};
int self() { return 0; }
void noSched(int) {}
void point(const void *) {}
void raceIgnore(int) {}
int64_t nowUs() { return E->now - E->base; }
bool timeoutsFired() { return false; }
void setClock(int64_t s, int64_t us) { E->now = E->base = s * 1000000 + us; }
void advance(int64_t us) { E->now += us; }
unsigned chooseGen(unsigned n, int kind, uint64_t mask, const char *label)
{
	unsigned r = take(n, kind, mask, label);
	if (E->trace) tracef("  %s -> %u of %u", label, r, n);
	return r;
}
void skip() { S->status = ST_SKIPPED; throw Abandon(); }
void state(H h, int remaining)
{
	if (E->replay || !beyondPrefix()) return;
	if (visit(mix(h, E->used + 17), remaining)) { S->status = ST_PRUNED; throw Abandon(); }
}
#endif

unsigned choose(unsigned n, const char *label) { return chooseGen(n, 1, 0, label); }
unsigned chooseCost(unsigned n, const char *label) { return chooseGen(n, 2, 0, label); }
unsigned chooseCosts(unsigned n, const int *costs, const char *label)
{
	uint64_t m = 0; for (unsigned i = 0; i < n; i++) if (costs[i]) m |= 1ull << i;
	return chooseGen(n, 0, m, label);
}

}	// namespace mc

using namespace mc;

// ====================================================================== interposed functions
template <class F> static F realFn(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(fn) ([]{ static decltype(&fn) p = realFn<decltype(&fn)>(#fn); return p; }())

static inline bool virtualTime() { return E && (E->model || E->seqActive); }

extern "C" {

#ifdef MC_CONC
// ---------------------------------------------------------------- allocation
void *malloc(size_t n) { return modelMem() ? arenaAlloc(n) : gInitPhase ? initAlloc(n) : __libc_malloc(n); }
void free(void *p)
{
	if (!p || inInit(p)) return;
	if (inArena(p)) { if (E->model) arenaFree(p); return; }
	if (E && E->model && !E->inEng && gScn && gScn->mode == CONC) return;	// block of the program image: restored later
	__libc_free(p);
}
void *calloc(size_t a, size_t b) { if (!modelMem() && !gInitPhase) return __libc_calloc(a, b); void *p = malloc(a * b); memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n)
{
	if (!p) return malloc(n);
	if (inArena(p) || inInit(p)) {
		size_t o = ((Hdr *)p - 1)->size;
		void *q = malloc(n); memcpy(q, p, o < n ? o : n); if (inArena(p)) arenaFree(p); return q;
	}
	if (modelMem() && gScn->mode == CONC) { void *q = arenaAlloc(n); memcpy(q, p, n); return q; }
	return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) { if (al < 16) al = 16; return modelMem() ? arenaAlloc(n, al) : gInitPhase ? initAlloc(n, al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return 0; }

// ---------------------------------------------------------------- mutexes
static void *sqLo, *sqHi;	// address range of libsqlite3
static inline bool opaque(void *ra) { return ra >= sqLo && ra < sqHi && (!gScn || gScn->opts.sqliteOpaque); }
static int kindOf(pthread_mutex_t *m) { return m->__data.__kind & 3; }	// 0 normal, 1 recursive, 2 errorcheck
static inline bool model() { return E && E->model; }
#define MODEL_OR(call) if (!model()) return call; InEng _e; Fiber &f = me(); (void)f;

static int xlock(pthread_mutex_t *m, void *ra, bool try_, bool timed, const struct timespec *ts)
{
	Fiber &f = me();
	uintptr_t a = (uintptr_t)m;
	{ Obj &o = obj(a); if (o.destroyed) fail("lock of a destroyed mutex"); o.kind = kindOf(m); }
	bool quiet = opaque(ra);
	if (quiet && (obj(a).owner < 0 || obj(a).owner == f.id)) {
		Obj &o = obj(a);
		o.owner = f.id; o.count++; return 0;
	}
	if (timed && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) {
		f.op = OP_TRYLOCK; f.obj = a; sched();
		Obj &o = obj(a);
		event(f, o, a, OP_TRYLOCK, 22);
		if (o.owner < 0) { o.owner = f.id; o.count = 1; acquire(f, o); return 0; }
		if (o.owner == f.id && o.kind == 1) { o.count++; return 0; }
		if (E->trace) tracef("  [%d] timedlock %p -> EINVAL (bad tv_nsec %ld)", f.id, m, ts->tv_nsec);
		return EINVAL;
	}
	f.op = try_ ? OP_TRYLOCK : timed ? OP_TIMEDLOCK : OP_LOCK; f.obj = a;
	f.timedOut = false; f.hasDeadline = timed;
	if (timed) { f.deadline = ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000; if (f.deadline <= E->now) f.timedOut = true; }
	sched();
	f.hasDeadline = false;
	Obj &o = obj(a);
	int rc = 0;
	if (o.owner >= 0 && o.owner != f.id) rc = try_ ? EBUSY : ETIMEDOUT;
	else if (o.owner == f.id) {
		if (o.kind == 1) o.count++;
		else if (o.kind == 2 && !try_) rc = EDEADLK;
		else rc = try_ ? EBUSY : ETIMEDOUT;
	} else { o.owner = f.id; o.count = 1; }
	event(f, o, a, f.op, rc);
	if (!rc) acquire(f, o);
	if (E->trace) tracef("  [%d] %s %p -> %s", f.id, opName[f.op], m, rc == 0 ? "ok" : rc == EBUSY ? "busy" : rc == ETIMEDOUT ? "timed out" : "error");
	return rc;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at)
{
	int r = REAL(pthread_mutex_init)(m, at);
	if (model()) { InEng e; Obj &o = obj((uintptr_t)m); H h = o.hash; o = Obj(); o.hash = h; o.kind = kindOf(m); }
	return r;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	MODEL_OR(REAL(pthread_mutex_destroy)(m));
	Obj &o = obj((uintptr_t)m);
	if (o.owner >= 0) fail("mutex destroyed while locked (owner thread %d)", o.owner);
	for (int i = 0; i < E->nf; i++) if (!E->f[i].done && i != f.id && (E->f[i].op == OP_LOCK || E->f[i].op == OP_REACQ || E->f[i].op == OP_CONDWAIT) && E->f[i].obj == (uintptr_t)m)
		fail("mutex destroyed while thread %d waits for it", i);
	o.destroyed = true;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { MODEL_OR(REAL(pthread_mutex_lock)(m)); return xlock(m, RA, false, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) { MODEL_OR(REAL(pthread_mutex_trylock)(m)); return xlock(m, RA, true, false, 0); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { MODEL_OR(REAL(pthread_mutex_timedlock)(m, ts)); return xlock(m, RA, false, true, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { MODEL_OR(EINVAL); return xlock(m, RA, false, true, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	MODEL_OR(REAL(pthread_mutex_unlock)(m));
	uintptr_t a = (uintptr_t)m;
	if (opaque(RA)) { Obj &o = obj(a); if (--o.count == 0) o.owner = -1; return 0; }
	f.op = OP_UNLOCK; f.obj = a; sched();
	Obj &o = obj(a);
	if (o.destroyed) fail("unlock of a destroyed mutex");
	if (o.owner != f.id) {
		if (o.kind == 0 || true) fail("thread %d unlocks a mutex it does not hold (owner %d)", f.id, o.owner);
		return EPERM;
	}
	event(f, o, a, OP_UNLOCK);
	if (--o.count == 0) { o.owner = -1; }
	release(f, o);
	if (E->trace) tracef("  [%d] unlock %p", f.id, m);
	return 0;
}

// ---------------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *at)
{
	int r = REAL(pthread_cond_init)(c, at);
	if (model()) { InEng e; Obj &o = obj((uintptr_t)c); H h = o.hash; o = Obj(); o.hash = h; }
	return r;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
	MODEL_OR(REAL(pthread_cond_destroy)(c));
	Obj &o = obj((uintptr_t)c);
	if (!o.waiters.empty()) fail("condition variable destroyed while thread %d waits on it", o.waiters[0]);
	o.destroyed = true;
	return 0;
}
static int xwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	Fiber &f = me();
	uintptr_t ca = (uintptr_t)c, ma = (uintptr_t)m;
	if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) { event1(f, OP_CONDWAIT, 22); if (E->trace) tracef("  [%d] cond_timedwait -> EINVAL", f.id); stepCount(); return EINVAL; }
	f.op = OP_POINT; sched();	// point before the wait (the mutex is still held)
	{
		Obj &mo = obj(ma);
		if (mo.owner != f.id) fail("thread %d waits on a condition without holding its mutex", f.id);
		if (mo.count != 1) fail("thread %d waits on a condition with its mutex locked %d times (others can never get it)", f.id, mo.count);
		Obj &co = obj(ca);
		if (co.destroyed) fail("wait on a destroyed condition variable");
		event(f, mo, ma, OP_UNLOCK, 1);
		event(f, co, ca, OP_CONDWAIT, ts ? 1 + ts->tv_sec * 1000000000LL + ts->tv_nsec - E->base * 1000 : 0);
		mo.owner = -1; mo.count = 0; release(f, mo);
		co.waiters.push_back(f.id);
	}
	f.op = OP_CONDWAIT; f.obj = ma; f.obj2 = ca; f.signalled = f.timedOut = false; f.hasDeadline = ts != 0;
	if (E->trace) tracef("  [%d] cond_%swait %p", f.id, ts ? "timed" : "", c);
	if (ts) {
		f.deadline = ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000;
		if (f.deadline <= E->now) {
			f.timedOut = true; Obj &co = obj(ca);
			co.waiters.erase(std::find(co.waiters.begin(), co.waiters.end(), f.id)); f.op = OP_REACQ;
		}
	}
	sched();
	f.hasDeadline = false;
	Obj &mo = obj(ma);
	if (mo.destroyed) fail("mutex destroyed under a waiting thread");
	int rc = f.timedOut ? ETIMEDOUT : 0;
	mo.owner = f.id; mo.count = 1; acquire(f, mo);
	event(f, mo, ma, OP_REACQ, rc);
	if (E->trace) tracef("  [%d] cond wait returns%s", f.id, rc ? " (timed out)" : "");
	return rc;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { MODEL_OR(REAL(pthread_cond_wait)(c, m)); return xwait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { MODEL_OR(REAL(pthread_cond_timedwait)(c, m, ts)); return xwait(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { MODEL_OR(EINVAL); return xwait(c, m, ts); }
static void wake(Obj &co, int k, H h)
{
	int t = co.waiters[k];
	co.waiters.erase(co.waiters.begin() + k);
	Fiber &g = E->f[t];
	g.op = OP_REACQ; g.signalled = true; g.hash = mix(g.hash, mix(h, 0x516));
	if (E->trace) tracef("      wakes thread %d", t);
}
int pthread_cond_signal(pthread_cond_t *c)
{
	MODEL_OR(REAL(pthread_cond_signal)(c));
	uintptr_t a = (uintptr_t)c;
	f.op = OP_SIGNAL; f.obj = a; sched();
	Obj &o = obj(a);
	if (o.destroyed) fail("signal of a destroyed condition variable");
	event(f, o, a, OP_SIGNAL);
	if (E->trace) tracef("  [%d] cond_signal %p (%zu waiting)", f.id, c, o.waiters.size());
	if (o.waiters.size()) {
		unsigned k = take(o.waiters.size(), gScn->opts.fixedOrder ? 2 : 1, 0, "wake");
		wake(o, k, f.hash);
	}
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
	MODEL_OR(REAL(pthread_cond_broadcast)(c));
	uintptr_t a = (uintptr_t)c;
	f.op = OP_BROADCAST; f.obj = a; sched();
	Obj &o = obj(a);
	if (o.destroyed) fail("broadcast of a destroyed condition variable");
	event(f, o, a, OP_BROADCAST);
	if (E->trace) tracef("  [%d] cond_broadcast %p (%zu waiting)", f.id, c, o.waiters.size());
	while (o.waiters.size()) wake(o, 0, f.hash);
	return 0;
}

// ---------------------------------------------------------------- read/write locks
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *at)
{
	int r = REAL(pthread_rwlock_init)(l, at);
	int k = 0; if (at) pthread_rwlockattr_getkind_np(at, &k);
	if (model()) { InEng e; Obj &o = obj((uintptr_t)l); H h = o.hash; o = Obj(); o.hash = h; o.kind = k == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP; }
	return r;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l)
{
	MODEL_OR(REAL(pthread_rwlock_destroy)(l));
	Obj &o = obj((uintptr_t)l);
	if (o.owner >= 0 || o.nread) fail("read/write lock destroyed while held");
	o.destroyed = true; return 0;
}
static int xrw(pthread_rwlock_t *l, int op, const struct timespec *ts)
{
	Fiber &f = me(); uintptr_t a = (uintptr_t)l;
	if (obj(a).destroyed) fail("use of a destroyed read/write lock");
	bool wr = op == OP_WR || op == OP_TRYWR || op == OP_TIMEDWR;
	if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
	f.op = op; f.obj = a; f.timedOut = false; f.hasDeadline = ts != 0;
	if (ts) { f.deadline = ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000; if (f.deadline <= E->now) f.timedOut = true; }
	if (op == OP_WR && obj(a).owner == f.id) return EDEADLK;
	sched();
	f.hasDeadline = false;
	Obj &o = obj(a);
	bool ok = wr ? o.owner < 0 && o.nread == 0 : rdFree(f, o);
	int rc = ok ? 0 : (op == OP_TRYRD || op == OP_TRYWR) ? EBUSY : ETIMEDOUT;
	if (ok) { if (wr) o.owner = f.id; else { o.readers[f.id]++; o.nread++; } acquire(f, o); }
	event(f, o, a, op, rc);
	if (E->trace) tracef("  [%d] %s %p -> %d", f.id, opName[op], l, rc);
	return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { MODEL_OR(REAL(pthread_rwlock_rdlock)(l)); return xrw(l, OP_RD, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { MODEL_OR(REAL(pthread_rwlock_wrlock)(l)); return xrw(l, OP_WR, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { MODEL_OR(REAL(pthread_rwlock_tryrdlock)(l)); return xrw(l, OP_TRYRD, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { MODEL_OR(REAL(pthread_rwlock_trywrlock)(l)); return xrw(l, OP_TRYWR, 0); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { MODEL_OR(REAL(pthread_rwlock_timedrdlock)(l, ts)); return xrw(l, OP_TIMEDRD, ts); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { MODEL_OR(REAL(pthread_rwlock_timedwrlock)(l, ts)); return xrw(l, OP_TIMEDWR, ts); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	MODEL_OR(REAL(pthread_rwlock_unlock)(l));
	uintptr_t a = (uintptr_t)l;
	f.op = OP_RWUNLOCK; f.obj = a; sched();
	Obj &o = obj(a);
	if (o.owner == f.id) o.owner = -1;
	else if (o.readers[f.id]) { o.readers[f.id]--; o.nread--; }
	else fail("thread %d releases a read/write lock it does not hold", f.id);
	event(f, o, a, OP_RWUNLOCK); release(f, o);
	if (E->trace) tracef("  [%d] rwunlock %p", f.id, l);
	return 0;
}

// ---------------------------------------------------------------- semaphores
int sem_init(sem_t *s, int sh, unsigned v)
{
	int r = REAL(sem_init)(s, sh, v);
	if (model()) { InEng e; Obj &o = obj((uintptr_t)s); H h = o.hash; o = Obj(); o.hash = h; o.sem = v; }
	return r;
}
int sem_destroy(sem_t *s) { MODEL_OR(REAL(sem_destroy)(s)); return 0; }
static int xsem(sem_t *s, int op, const struct timespec *ts)
{
	Fiber &f = me(); uintptr_t a = (uintptr_t)s;
	f.op = op; f.obj = a; f.timedOut = false; f.hasDeadline = ts != 0;
	if (ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } f.deadline = ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000; if (f.deadline <= E->now) f.timedOut = true; }
	sched();
	f.hasDeadline = false;
	Obj &o = obj(a);
	int rc = 0;
	if (o.sem > 0) { o.sem--; acquire(f, o); } else { rc = -1; errno = op == OP_SEMTRY ? EAGAIN : ETIMEDOUT; }
	event(f, o, a, op, rc);
	if (E->trace) tracef("  [%d] %s %p -> %d (value %ld)", f.id, opName[op], s, rc, o.sem);
	return rc;
}
int sem_wait(sem_t *s) { MODEL_OR(REAL(sem_wait)(s)); return xsem(s, OP_SEMWAIT, 0); }
int sem_trywait(sem_t *s) { MODEL_OR(REAL(sem_trywait)(s)); return xsem(s, OP_SEMTRY, 0); }
int sem_timedwait(sem_t *s, const struct timespec *ts) { MODEL_OR(REAL(sem_timedwait)(s, ts)); return xsem(s, OP_SEMTIMED, ts); }
int sem_post(sem_t *s)
{
	MODEL_OR(REAL(sem_post)(s));
	uintptr_t a = (uintptr_t)s; f.op = OP_SEMPOST; f.obj = a; sched();
	Obj &o = obj(a); o.sem++; event(f, o, a, OP_SEMPOST); release(f, o);
	if (E->trace) tracef("  [%d] sem_post %p (value %ld)", f.id, s, o.sem);
	return 0;
}
int sem_getvalue(sem_t *s, int *v)
{
	MODEL_OR(REAL(sem_getvalue)(s, v));
	uintptr_t a = (uintptr_t)s; f.op = OP_ATOMIC; f.obj = a; sched();
	Obj &o = obj(a); *v = o.sem; event(f, o, a, OP_ATOMIC, o.sem); return 0;
}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	MODEL_OR(REAL(pthread_create)(th, at, fn, arg));
	f.op = OP_CREATE; f.obj = 0; sched();
	event1(f, OP_CREATE);
	int id = newFiber(&f);
	f.vc.c[f.id]++;
	E->f[id].pfn = fn; E->f[id].parg = arg;
	int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds);
	E->f[id].detached = ds == PTHREAD_CREATE_DETACHED;
	*th = 1000 + id;
	if (E->trace) tracef("  [%d] pthread_create -> thread %d", f.id, id);
	return 0;
}
int pthread_join(pthread_t th, void **ret)
{
	MODEL_OR(REAL(pthread_join)(th, ret));
	int t = (int)(th - 1000);
	if (t < 0 || t >= E->nf) fail("pthread_join of an invalid thread handle");
	if (E->f[t].joined) fail("pthread_join of thread %d twice", t);
	if (E->f[t].detached) fail("pthread_join of detached thread %d", t);
	f.op = OP_JOIN; f.obj = t; sched();
	event1(f, OP_JOIN, E->f[t].hash);
	joinVc(f.vc, E->f[t].vc); E->f[t].joined = true;
	if (ret) *ret = E->f[t].ret;
	if (E->trace) tracef("  [%d] joined thread %d", f.id, t);
	return 0;
}
int pthread_detach(pthread_t th) { MODEL_OR(REAL(pthread_detach)(th)); int t = (int)(th - 1000); if (t >= 0 && t < E->nf) E->f[t].detached = true; return 0; }
pthread_t pthread_self(void) { if (!model()) return REAL(pthread_self)(); return 1000 + E->cur; }
void pthread_exit(void *r) { if (!model()) { REAL(pthread_exit)(r); abort(); } me().ret = r; E->inEng++; fiberEnd(); abort(); }
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
	if (!model()) return REAL(pthread_once)(o, fn);
	uintptr_t a = (uintptr_t)o;
	{
		InEng e; Fiber &f = me(); f.op = OP_GUARD; f.obj = a; sched();
		Obj &ob = obj(a); event(f, ob, a, OP_GUARD); acquire(f, ob);
		if (ob.guard == 2) return 0;
		ob.guard = 1;
	}
	fn();
	InEng e; Obj &ob = obj(a); ob.guard = 2; event(me(), ob, a, OP_GUARD, 1); release(me(), ob);
	return 0;
}
// Destructors of function-local objects: the image is restored after each execution, nothing to destroy.
int __cxa_atexit(void (*fn)(void *), void *arg, void *dso)
{
	static int (*real)(void (*)(void *), void *, void *) = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_atexit");
	if (model()) return 0;
	return real(fn, arg, dso);
}
int __cxa_guard_acquire(uint64_t *g)
{
	if (!model()) { if (*(char *)g) return 0; return 1; }
	InEng e; Fiber &f = me(); uintptr_t a = (uintptr_t)g;
	if (*(char *)g && obj(a).guard == 0) return 0;	// initialised before the execution began
	f.op = OP_GUARD; f.obj = a; sched();
	Obj &ob = obj(a); event(f, ob, a, OP_GUARD); acquire(f, ob);
	if (*(char *)g) return 0;
	ob.guard = 1;
	return 1;
}
void __cxa_guard_release(uint64_t *g)
{
	*(char *)g = 1;
	if (!model()) return;
	InEng e; Obj &ob = obj((uintptr_t)g); ob.guard = 2; event(me(), ob, (uintptr_t)g, OP_GUARD, 1); release(me(), ob);
}
void __cxa_guard_abort(uint64_t *g)
{
	if (!model()) return;
	InEng e; Obj &ob = obj((uintptr_t)g); ob.guard = 0; event(me(), ob, (uintptr_t)g, OP_GUARD, 2);
}
static void idleClock()	// a thread that polls sees the clock move eventually
{
	if (++E->clockReads > 200) { E->now += 1000; fireUpTo(); }
}
int sched_yield(void)
{
	MODEL_OR(REAL(sched_yield)());
	f.op = OP_YIELD; f.yielded = true; sched(); f.yielded = false; event1(f, OP_YIELD); idleClock();
	return 0;
}
static void sleepUs(int64_t us)
{
	InEng e; Fiber &f = me();
	if (us < 0) us = 0;
	f.op = OP_SLEEP; f.timedOut = us == 0; f.hasDeadline = true; f.deadline = E->now + us;
	event1(f, OP_SLEEP, us);
	if (E->trace) tracef("  [%d] sleeps %lldus", f.id, (long long)us);
	sched();
	f.hasDeadline = false;
	event1(f, OP_SLEEP, 1);	// every scheduling point is followed by an event: otherwise the next one looks like a state already seen
}
#else
static void idleClock() {}
static void sleepUs(int64_t us) { E->now += us; if (gOnSleep) { auto f = gOnSleep; f(); } }
static inline bool model() { return E && E->seqActive; }
#endif

// ---------------------------------------------------------------- time (both builds)
int usleep(useconds_t us) { if (!virtualTime()) return REAL(usleep)(us); sleepUs(us); return 0; }
unsigned sleep(unsigned s) { if (!virtualTime()) return REAL(sleep)(s); sleepUs(s * 1000000LL); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!virtualTime()) return REAL(nanosleep)(a, b); sleepUs(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!virtualTime()) return REAL(clock_nanosleep)(c, fl, a, b);
	int64_t us = a->tv_sec * 1000000LL + a->tv_nsec / 1000;
	sleepUs(fl & TIMER_ABSTIME ? us - E->now : us); return 0;
}
static void readClock()
{
#ifdef MC_CONC
	InEng e;
	if (E->model && !E->seqActive) { event1(me(), OP_CLOCK, E->now); idleClock(); }
#endif
}
int gettimeofday(struct timeval *tv, void *tz)
{
	if (!virtualTime()) return REAL(gettimeofday)(tv, tz);
	readClock();
	tv->tv_sec = E->now / 1000000; tv->tv_usec = E->now % 1000000; return 0;
}
time_t time(time_t *t)
{
	if (!virtualTime()) return REAL(time)(t);
	readClock();
	time_t r = E->now / 1000000; if (t) *t = r; return r;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!virtualTime() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return REAL(clock_gettime)(c, ts);
	readClock();
	ts->tv_sec = E->now / 1000000; ts->tv_nsec = E->now % 1000000 * 1000; return 0;
}

#ifdef MC_CONC
// ---------------------------------------------------------------- race detector entry points
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void *a) { access(a, n, false, RA); } \
	void __tsan_write##n(void *a) { access(a, n, true, RA); } \
	void __tsan_unaligned_read##n(void *a) { access(a, n, false, RA); } \
	void __tsan_unaligned_write##n(void *a) { access(a, n, true, RA); } \
	void __tsan_volatile_read##n(void *a) { access(a, n, false, RA); } \
	void __tsan_volatile_write##n(void *a) { access(a, n, true, RA); } \
	void __tsan_read##n##_pc(void *a, void *pc) { access(a, n, false, pc); } \
	void __tsan_write##n##_pc(void *a, void *pc) { access(a, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, RA); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, RA); }
void __tsan_vptr_update(void **v, void *val) { if (*v != val) access(v, 8, true, RA); }
void __tsan_vptr_read(void **v) { access(v, 8, false, RA); }
void __tsan_ignore_thread_begin() {}
// Library functions that read or write memory for their caller. The calls in the repository's and the harness's
// objects are renamed to these (objcopy in run.py), so that what they touch is seen like the caller's own accesses.
#define RD(a, n) access(a, n, false, RA)
#define WR(a, n) access(a, n, true, RA)
void *mcm_memcpy(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memcpy(d, s, n); }
void *mcm_memmove(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void *mcm_memset(void *d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int mcm_memcmp(const void *a, const void *b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
void *mcm_memchr(const void *a, int c, size_t n) { void *r = (void *)memchr(a, c, n); RD(a, r ? (char *)r - (char *)a + 1 : n); return r; }
size_t mcm_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return n; }
size_t mcm_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : n); return n; }
char *mcm_strdup(const char *s) { RD(s, strlen(s) + 1); char *r = strdup(s); if (r) WR(r, strlen(s) + 1); return r; }
char *mcm_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
char *mcm_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return stpcpy(d, s); }
char *mcm_strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : n); WR(d, m); return strncpy(d, s, m); }
char *mcm_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, k = strlen(d); RD(d, k + 1); RD(s, n); WR(d + k, n); return strcat(d, s); }
char *mcm_strncat(char *d, const char *s, size_t m) { size_t n = strnlen(s, m), k = strlen(d); RD(d, k + 1); RD(s, n < m ? n + 1 : n); WR(d + k, n + 1); return strncat(d, s, m); }
char *mcm_strcpy_chk(char *d, const char *s, size_t) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
char *mcm_strcat_chk(char *d, const char *s, size_t) { size_t n = strlen(s) + 1, k = strlen(d); RD(d, k + 1); RD(s, n); WR(d + k, n); return strcat(d, s); }
static void cmpRead(const char *a, const char *b, size_t m, void *pc) { size_t i = 0; while (i < m && a[i] && b[i] && a[i] == b[i]) i++; if (i < m) i++; access(a, i, false, pc); access(b, i, false, pc); }
int mcm_strcmp(const char *a, const char *b) { cmpRead(a, b, ~0ul, RA); return strcmp(a, b); }
int mcm_strncmp(const char *a, const char *b, size_t m) { cmpRead(a, b, m, RA); return strncmp(a, b, m); }
int mcm_strcasecmp(const char *a, const char *b) { RD(a, 1); RD(b, 1); return strcasecmp(a, b); }
char *mcm_strchr(const char *s, int c) { char *r = (char *)strchr(s, c); RD(s, r ? r - s + 1 : strlen(s) + 1); return r; }
char *mcm_strrchr(const char *s, int c) { RD(s, strlen(s) + 1); return (char *)strrchr(s, c); }
char *mcm_strpbrk(const char *s, const char *c) { char *r = (char *)strpbrk(s, c); RD(s, r ? r - s + 1 : strlen(s) + 1); return r; }
static int printed(char *d, size_t m, int r, void *pc) { if (d && m && r >= 0) access(d, (size_t)r < m ? r + 1 : m, true, pc); return r; }
int mcm_vsnprintf(char *d, size_t m, const char *f, va_list ap) { return printed(d, m, vsnprintf(d, m, f, ap), RA); }
int mcm_snprintf(char *d, size_t m, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, m, f, ap); va_end(ap); return printed(d, m, r, RA); }
int mcm_vsprintf(char *d, const char *f, va_list ap) { return printed(d, ~0ul, vsprintf(d, f, ap), RA); }
int mcm_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); return printed(d, ~0ul, r, RA); }
int mcm_vsnprintf_chk(char *d, size_t m, int, size_t, const char *f, va_list ap) { return printed(d, m, vsnprintf(d, m, f, ap), RA); }
int mcm_snprintf_chk(char *d, size_t m, int, size_t, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, m, f, ap); va_end(ap); return printed(d, m, r, RA); }
int mcm_vsprintf_chk(char *d, int, size_t, const char *f, va_list ap) { return printed(d, ~0ul, vsprintf(d, f, ap), RA); }
int mcm_sprintf_chk(char *d, int, size_t, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); return printed(d, ~0ul, r, RA); }
struct tm *mcm_localtime_r(const time_t *t, struct tm *r) { RD(t, sizeof *t); WR(r, sizeof *r); return localtime_r(t, r); }
struct tm *mcm_gmtime_r(const time_t *t, struct tm *r) { RD(t, sizeof *t); WR(r, sizeof *r); return gmtime_r(t, r); }
void *mcm_memcpy_chk(void *, const void *, size_t, size_t) __attribute__((alias("mcm_memcpy")));
void *mcm_memmove_chk(void *, const void *, size_t, size_t) __attribute__((alias("mcm_memmove")));
void *mcm_memset_chk(void *, int, size_t, size_t) __attribute__((alias("mcm_memset")));
char *mcm_stpcpy_chk(char *, const char *, size_t) __attribute__((alias("mcm_stpcpy")));
char *mcm_strncpy_chk(char *, const char *, size_t, size_t) __attribute__((alias("mcm_strncpy")));
char *mcm_strncat_chk(char *, const char *, size_t, size_t) __attribute__((alias("mcm_strncat")));
#undef RD
#undef WR
void __tsan_ignore_thread_end() {}

static void atomicPoint(uintptr_t a, bool wr, int mo, void *pc)
{
	if (!model() || E->inEng) return;
	InEng e; Fiber &f = me();
	if (!E->seqActive) { f.op = OP_ATOMIC; f.obj = a; sched(); }
	Obj &o = obj(a);
	event(f, o, a, OP_ATOMIC, wr);
	if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(f, o);
	if (wr && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(f, o);
	if (inArena((void *)a)) { Cell &c = gShadowArena[(char *)a - gArena]; if (c.gen == E->gen && c.freed) fail("atomic operation on freed memory (pc %p)", pc); }
}
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int mo) { atomicPoint((uintptr_t)a, false, mo, RA); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { atomicPoint((uintptr_t)a, true, mo, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { atomicPoint((uintptr_t)a, true, mo, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { atomicPoint((uintptr_t)a, true, mo, RA); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#endif
}	// extern "C"

#ifdef MC_CONC
// Container primitives that live (uninstrumented) in libstdc++.
struct MCListNode { MCListNode *next, *prev; };
#define LINK(p) do { access(&(p)->next, 8, true, RA); access(&(p)->prev, 8, true, RA); } while (0)
extern "C" {
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(MCListNode *self, MCListNode *pos)
{
	access(&pos->prev, 8, true, RA); access(&pos->prev->next, 8, true, RA);
	self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self;
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(MCListNode *self)
{
	access(self, 16, false, RA);
	MCListNode *n = self->next, *p = self->prev;
	access(&p->next, 8, true, RA); access(&n->prev, 8, true, RA);
	p->next = n; n->prev = p;
}
typedef void (*ins_t)(bool, void *, void *, void *);
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void *x, void *p, void *h)
{
	static ins_t r = (ins_t)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
	access(h, 32, true, RA);
	r(left, x, p, h);
}
typedef void *(*del_t)(void *, void *);
void *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *z, void *h)
{
	static del_t r = (del_t)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
	access(h, 32, true, RA);
	return r(z, h);
}
}
#endif

// ====================================================================== driver
namespace mc {

static void mcInit()
{
	E = (Eng *)mmap(0, sizeof(Eng) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	new (E) Eng();
	S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); exit(2); }
	E->known = new std::vector<std::string>;
	E->objs = new std::map<uintptr_t, Obj>;
#ifdef MC_CONC
	gStacks = (char *)mmap(0, (size_t)MAXF * STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gArena = (char *)mmap(0, MAXF * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gShadowArena = (Cell *)mmap(0, MAXF * ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (gStacks == MAP_FAILED || gArena == MAP_FAILED || gShadowArena == MAP_FAILED) { perror("mmap"); exit(2); }
	struct L { static int cb(struct dl_phdr_info *i, size_t, void *) {
		bool exe = !i->dlpi_name[0];
		for (int k = 0; k < i->dlpi_phnum; k++) {
			const ElfW(Phdr) &p = i->dlpi_phdr[k];
			char *lo = (char *)i->dlpi_addr + p.p_vaddr;
			if (p.p_type == PT_LOAD && exe && (p.p_flags & PF_W)) { gDataLo = lo; gDataHi = lo + p.p_memsz; }
			if (p.p_type == PT_TLS && exe) { gTlsSize = (p.p_memsz + p.p_align - 1) / p.p_align * p.p_align; gTlsInit = (char *)calloc(1, gTlsSize); memcpy(gTlsInit, lo, p.p_filesz); }
			if (p.p_type == PT_LOAD && strstr(i->dlpi_name, "libsqlite3")) { if (!sqLo || lo < (char *)sqLo) sqLo = lo; if (lo + p.p_memsz > (char *)sqHi) sqHi = lo + p.p_memsz; }
			if (p.p_type == PT_LOAD && strstr(i->dlpi_name, "libsqlite3") && (p.p_flags & PF_W)) { gSqlLo = lo; gSqlHi = lo + p.p_memsz; }
		}
		return 0; } };
	dl_iterate_phdr(L::cb, 0);
	// skip the read-only-after-relocation part
	struct L2 { static int cb(struct dl_phdr_info *i, size_t, void *) {
		bool sq = strstr(i->dlpi_name, "libsqlite3"); char *&gDataLo = sq ? gSqlLo : ::gDataLo, *&gDataHi = sq ? gSqlHi : ::gDataHi;
		if (i->dlpi_name[0] && !sq) return 0;
		for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) &p = i->dlpi_phdr[k];
			if (p.p_type == PT_GNU_RELRO) { char *hi = (char *)i->dlpi_addr + p.p_vaddr + p.p_memsz; hi = (char *)(((uintptr_t)hi + 4095) & ~4095ul); if (hi > gDataLo && hi < gDataHi) gDataLo = hi; } }
		return 0; } };
	dl_iterate_phdr(L2::cb, 0);
	gShadowData = (Cell *)mmap(0, (gDataHi - gDataLo + 64) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gSnap = (char *)mmap(0, gDataHi - gDataLo + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (gSqlLo) gSqlSnap = (char *)mmap(0, gSqlHi - gSqlLo + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	// let the C library build its time zone tables outside the model: they outlive an execution
	{ time_t t = 1700000000; struct tm tm; char b[64]; tzset(); localtime_r(&t, &tm); strftime(b, sizeof b, "%Z %c", &tm); localtime(&t); gmtime(&t); }
	// resolve everything the interposers need before the image is recorded
	REAL(pthread_mutex_init); REAL(pthread_mutex_lock); REAL(pthread_mutex_unlock); REAL(pthread_mutex_trylock); REAL(pthread_mutex_timedlock); REAL(pthread_mutex_destroy);
	REAL(pthread_cond_init); REAL(pthread_cond_destroy); REAL(pthread_rwlock_init); REAL(sem_init);
	REAL(usleep); REAL(sleep); REAL(gettimeofday); REAL(time); REAL(clock_gettime); REAL(pthread_self);
#endif
}

#ifdef MC_CONC
static void snapshot()
{
	if (gInitLo && !gInitSnap) gInitSnap = (char *)mmap(0, gInitPtr - gInitLo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (gInitSnap) memcpy(gInitSnap, gInitLo, gInitPtr - gInitLo);
	if (gInitLo && !gShadowInit) gShadowInit = (Cell *)mmap(0, INITSZ * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (gSqlLo) memcpy(gSqlSnap, gSqlLo, gSqlHi - gSqlLo);
	memcpy(gSnap, gDataLo, gDataHi - gDataLo);
}
#endif

static void runOnce(bool inProc)
{
	S->status = ST_RUNNING; S->pathLen = 0;
	E->pos = 0; E->used = 0; E->steps = 0; E->lastSig = 0; E->now = E->base = 1700000000LL * 1000000; E->clockMovedEarly = false; E->clockReads = 0;
	E->retSum = 0; E->histClock = 0;
#ifdef MC_CONC
	if (inProc) memcpy(gDataLo, gSnap, gDataHi - gDataLo);
	if (inProc && gInitSnap) memcpy(gInitLo, gInitSnap, gInitPtr - gInitLo);
	if (inProc && gSqlLo) memcpy(gSqlLo, gSqlSnap, gSqlHi - gSqlLo);
	E->objs->clear();
	for (int i = 0; i < MAXF; i++) { E->f[i].fn = nullptr; E->f[i].used = false; gArenaPtr[i] = gArena + i * ARENA; }
	E->nf = 0; E->cur = 0;
	if (++E->gen == 0) {	// generation counter wrapped: clear the shadow
		madvise(gShadowArena, MAXF * ARENA * sizeof(Cell), MADV_DONTNEED);
		if (gShadowInit) madvise(gShadowInit, INITSZ * sizeof(Cell), MADV_DONTNEED);
		madvise(gShadowData, (gDataHi - gDataLo + 64) * sizeof(Cell), MADV_DONTNEED);
		E->gen = 1;
	}
	newFiber(0);
	E->f[0].name = "driver";
	struct B { static void body() { gScn->fn(); } };
	E->f[0].fn = B::body;
	E->f[0].op = OP_START;
	E->inEng = 1; E->model = true; E->seqActive = gScn->mode == SEQ || gScn->mode == SEQFORK;
	uint64_t *g = __cxa_get_globals(); uint64_t g0 = g[0], g1 = g[1];
	mc_switch(&E->engineSp, E->f[0].sp);
	g[0] = g0; g[1] = g1;
	E->model = false; E->inEng = 0; E->seqActive = false;
#else
	(void)inProc;
	E->seqActive = true;
	try { gScn->fn(); S->status = ST_DONE; } catch (Abandon &) { }
	catch (std::exception &ex) { char b[300]; snprintf(b, sizeof b, "unexpected exception: %s", ex.what()); setViolation(b); die(ST_VIOLATION); }
	catch (...) { setViolation("unexpected exception escaped"); die(ST_VIOLATION); }
	E->seqActive = false;
#endif
}

static void account()
{
	S->executions++; S->progress = S->progress + 1;
	if (S->status == ST_DONE) S->completed++;
	else if (S->status == ST_PRUNED) S->pruned++;
	else if (S->status == ST_SKIPPED) S->skipped++;
	if (S->pathLen > S->maxDepthSeen) S->maxDepthSeen = S->pathLen;
}

static bool nextPath()	// advance the shared path to the next unexplored execution
{
	int n = S->pathLen;
	std::vector<int> cum(n + 1); cum[0] = 0;
	for (int i = 0; i < n; i++) cum[i + 1] = cum[i] + optCost(S->path[i], S->path[i].pick);
	for (int i = n - 1; i >= 0; i--) {
		Node &nd = S->path[i];
		for (uint32_t k = nd.pick + 1; k < nd.n; k++) {
			if (E->bound < 99 && cum[i] + optCost(nd, k) > E->bound) { S->cut = true; continue; }
			nd.pick = k; S->prefixLen = i + 1; return true;
		}
	}
	return false;
}

static double nowS() { struct timespec t; REAL(clock_gettime)(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Worker: enumerate all executions.  Exits 0 done, 3 cap reached, 77 violation, 78 divergence.
static void worker(int bound, double deadline)
{
	E->bound = bound;
	S->prefixLen = 0;
	{ int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); } }	// output of the code under test
	bool forkMode = gScn->mode == FORK || gScn->mode == SEQFORK;
	for (;;) {
		if (forkMode) {
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				int lim = gScn->opts.hang ? gScn->opts.hang : 10;
				struct rlimit rl = { (rlim_t)lim, (rlim_t)lim + 1 }; setrlimit(RLIMIT_CPU, &rl);
				runOnce(false);
				_exit(0);
			}
			int st;
			while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
			if (WIFSIGNALED(st)) {
				S->executions++;
				char b[200];
				if (WTERMSIG(st) == SIGXCPU) snprintf(b, sizeof b, "an operation does not return (used its whole CPU limit)");
				else snprintf(b, sizeof b, "the program was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
				setViolation(b); _exit(77);
			}
			if (WEXITSTATUS(st) != 0) {
				S->executions++;
				if (S->status == ST_DIVERGED) _exit(78);
				if (S->status != ST_VIOLATION) { char b[100]; snprintf(b, sizeof b, "the program exited with status %d", WEXITSTATUS(st)); setViolation(b); }
				_exit(77);
			}
			if (S->status == ST_RUNNING) { setViolation("the program exited in mid-execution"); S->executions++; _exit(77); }
		} else runOnce(true);
		account();
		if (S->status == ST_DIVERGED) _exit(78);
		if (S->status == ST_VIOLATION) _exit(77);
		if (!nextPath()) { S->finished = 1; _exit(0); }
		if ((S->executions & 31) == 0 || forkMode) if (nowS() > deadline) { S->finished = 2; _exit(3); }
	}
}

static double cpuOf(pid_t p)
{
	clockid_t c; struct timespec t;
	if (clock_getcpuclockid(p, &c) || REAL(clock_gettime)(c, &t)) return -1;
	return t.tv_sec + t.tv_nsec * 1e-9;
}

// Runs the worker in a child and watches it.  Returns 0 done, 3 cap, 1 violation, 2 error.
static int watch(int bound, double deadline, bool replayOnly)
{
	S->finished = 0;
	fflush(0);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (replayOnly) {
			E->bound = 1 << 20; E->replay = true;
			runOnce(true);
			_exit(S->status == ST_VIOLATION ? 77 : S->status == ST_DIVERGED ? 78 : 0);
		}
		worker(bound, deadline);
	}
	uint64_t last = S->progress; double lastCpu = 0, lastWall = nowS();
	double hang = gScn->opts.hang ? gScn->opts.hang : 20; if (replayOnly) hang *= 3;
	int st; unsigned nap = 200;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		REAL(usleep)(nap); if (nap < 50000) nap *= 2;
		if (S->progress != last) { last = S->progress; lastCpu = cpuOf(p); lastWall = nowS(); continue; }
		double c = cpuOf(p);
		if (c >= 0 && c - lastCpu > hang) { kill(p, SIGKILL); waitpid(p, &st, 0); setViolation("an operation does not return (keeps the CPU busy without reaching a synchronisation point)"); return 1; }
		if (nowS() - lastWall > 150) { kill(p, SIGKILL); waitpid(p, &st, 0); setViolation("an operation blocks for ever outside the controlled scheduler"); return 1; }
	}
	if (WIFSIGNALED(st)) {
		char b[200]; snprintf(b, sizeof b, "the program was killed by signal %d (%s)%s%s", WTERMSIG(st), strsignal(WTERMSIG(st)), S->status == ST_VIOLATION ? ": " : "", S->status == ST_VIOLATION ? S->msg : "");
		S->status = ST_RUNNING; setViolation(b); return 1;
	}
	switch (WEXITSTATUS(st)) {
	case 0: return 0;
	case 3: return 3;
	case 77: return 1;
	case 78: return 2;
	default: {
		char b[120]; snprintf(b, sizeof b, "the program exited with status %d (sanitizer report, abort or exit)", WEXITSTATUS(st));
		if (S->status == ST_RUNNING) setViolation(b);
		return 1; }
	}
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

static void writeReplay(const std::string &file, const char *prog)
{
	FILE *f = fopen(file.c_str(), "w");
	if (!f) return;
	fprintf(f, "# counterexample found by %s\nproperty %s\nscenario %s\n# %s\n# %s\nchoices", prog, gScn->prop, gScn->name, gScn->what, "");
	for (unsigned i = 0; i < S->pathLen; i++) fprintf(f, " %u", S->path[i].pick);
	fprintf(f, "\n");
	std::string m = S->msg; for (char &c : m) if (c == '\n') c = ' ';
	fprintf(f, "message %s\n", m.c_str());
	fclose(f);
}

}	// namespace mc

int mc_main(int argc, char **argv)
{
	static char outBuf[65536]; setvbuf(stdout, outBuf, _IOLBF, sizeof outBuf);	// not from the heap of an execution
#ifdef MC_CONC
	gInitPhase = false;
#endif
	mcInit();
	std::string run, out, replay, tier = "quick", replayDir = ".", prop, known;
	bool list = false; double cap = 0; int forceBound = -1; bool trace = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list") list = true;
		else if (a == "--run") run = nx();
		else if (a == "--out") out = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--tier") tier = nx();
		else if (a == "--replay-dir") replayDir = nx();
		else if (a == "--prop") prop = nx();
		else if (a == "--cap") cap = atof(nx().c_str());
		else if (a == "--bound") forceBound = atoi(nx().c_str());
		else if (a == "--known") known = nx();
		else if (a == "--trace") trace = true;
	}
	E->thorough = tier == "thorough";
	for (size_t p = 0; p < known.size();) { size_t q = known.find(',', p); if (q == std::string::npos) q = known.size(); E->known->push_back(known.substr(p, q - p)); p = q + 1; }
	if (list) {
		for (auto &s : registry()) if (prop.empty() || prop == s.prop) if (E->thorough || !s.opts.thoroughOnly) printf("%s %s %d\n", s.prop, s.name, s.opts.cap);
		return 0;
	}
	std::vector<unsigned> rp;
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 2; }
		char *line = 0; size_t cap2 = 0;
		while (getline(&line, &cap2, f) > 0) {
			if (!strncmp(line, "scenario ", 9)) { run = line + 9; run.erase(run.find_last_not_of("\n ") + 1); }
			if (!strncmp(line, "property ", 9)) { prop = line + 9; prop.erase(prop.find_last_not_of("\n ") + 1); }
			if (!strncmp(line, "choices", 7)) { char *p = line + 7; while (*p == ' ') rp.push_back(strtoul(p, &p, 10)); }
		}
		fclose(f);
	}
	for (auto &s : registry()) if (run == s.name && (prop.empty() || prop == s.prop)) gScn = &s;
	if (!gScn) { fprintf(stderr, "no such scenario: %s\n", run.c_str()); return 2; }
#ifdef MC_CONC
	// dry allocation of library state, then record the program image
	snapshot();
#endif
	if (!replay.empty()) {
		E->trace = true;
		E->picks = new std::vector<unsigned>(rp);
#ifdef MC_CONC
		snapshot();
#endif
		int r = watch(0, 1e18, true);
		if (r == 1) { printf("VIOLATED %s/%s: %s\n", gScn->prop, gScn->name, S->msg); return 1; }
		if (r == 2) { printf("DIVERGED: %s\n", S->msg); return 2; }
		printf("no violation on this schedule\n");
		return 0;
	}
	(void)trace;
	double t0 = nowS();
	int target = forceBound >= 0 ? forceBound : E->thorough ? gScn->opts.thorough : gScn->opts.quick;
	if (!cap) cap = gScn->opts.cap ? gScn->opts.cap : 60;
	double deadline = t0 + cap;
	int rc = 0, done = -1;
	std::vector<int> bounds;
	if (target >= 99) { bounds = {0, 1, 99}; } else for (int b = 0; b <= target; b++) bounds.push_back(b);
	if (target >= 3 && target < 99) bounds.erase(bounds.begin() + 1);	// 0,2,3...
	bool complete = true, unbounded = false;
	std::string hist;
	for (int b : bounds) {
		S->visFull = S->cut = S->sawCost = false;
		memset(S->visKey, 0, 0); if (madvise(S->visKey, sizeof S->visKey, MADV_REMOVE)) memset(S->visKey, 0, sizeof S->visKey);
		uint64_t e0 = S->executions, s0 = S->states;
		S->states = 0;
		rc = watch(b, deadline, false);
		char h[160]; snprintf(h, sizeof h, "%s{\"bound\": %d, \"executions\": %llu, \"states\": %llu, \"complete\": %s}", hist.empty() ? "" : ", ", b,
			(unsigned long long)(S->executions - e0), (unsigned long long)S->states, rc == 0 ? "true" : "false");
		hist += h;
		(void)s0;
		if (rc == 0) done = b;
		if (rc) break;
		if (!S->cut) { done = target; unbounded = true; break; }	// nothing was left out because of the bound
	}
	if (rc == 3) { complete = false; rc = 0; }
	std::string replayFile;
	std::string msg = S->msg;
	if (rc == 1) {
		// Reproduce before reporting.
		replayFile = replayDir + "/" + gScn->prop + "-" + gScn->name + ".replay";
		writeReplay(replayFile, argv[0]);
	}
	if (!out.empty()) {
		FILE *f = fopen(out.c_str(), "w");
		if (!f) { perror(out.c_str()); return 2; }
		fprintf(f, "{\"property\": %s, \"scenario\": %s, \"what\": %s, \"rc\": %d, \"message\": %s, \"replay\": %s,\n", jstr(gScn->prop).c_str(), jstr(gScn->name).c_str(), jstr(gScn->what).c_str(), rc, jstr(rc ? msg : "").c_str(), jstr(replayFile).c_str());
		fprintf(f, " \"executions\": %llu, \"completed\": %llu, \"pruned\": %llu, \"skipped\": %llu, \"steps\": %llu, \"states\": %llu, \"cases\": %llu, \"max_depth\": %llu, \"switches\": %llu,\n",
			(unsigned long long)S->executions, (unsigned long long)S->completed, (unsigned long long)S->pruned, (unsigned long long)S->skipped, (unsigned long long)S->steps, (unsigned long long)S->states,
			(unsigned long long)S->caseCount, (unsigned long long)S->maxDepthSeen, (unsigned long long)S->contextSwitches);
		fprintf(f, " \"bound_target\": %d, \"bound_done\": %d, \"complete\": %s, \"optional\": %s, \"table_full\": %s, \"all_behaviours\": %s, \"bounds\": [%s], \"mode\": %d, \"wall\": %.2f,\n", target, done, complete ? "true" : "false", gScn->opts.optional ? "true" : "false", S->visFull ? "true" : "false", unbounded || (complete && done >= 99) ? "true" : "false", hist.c_str(), (int)gScn->mode, nowS() - t0);
		fprintf(f, " \"outcomes\": %u, \"outcome_samples\": [", S->outcomeCount);
		for (unsigned i = 0; i < S->outcomeCount && i < 12; i++) fprintf(f, "%s%s", i ? ", " : "", jstr(S->outcomeText[i]).c_str());
		fprintf(f, "], \"known\": [");
		for (unsigned i = 0; i < S->knownCount; i++) fprintf(f, "%s%s", i ? ", " : "", jstr(S->knownHit[i]).c_str());
		fprintf(f, "], \"last_schedule\": \"");
		for (unsigned i = 0; i < S->pathLen && i < 60; i++) fprintf(f, "%s%u", i ? " " : "", S->path[i].pick);
		fprintf(f, "\"}\n");
		fclose(f);
	} else {
		printf("%s/%s rc=%d exec=%llu states=%llu steps=%llu cases=%llu pruned=%llu outcomes=%u depth=%llu bound=%d/%d %s wall=%.2f\n", gScn->prop, gScn->name, rc, (unsigned long long)S->executions, (unsigned long long)S->states,
			(unsigned long long)S->steps, (unsigned long long)S->caseCount, (unsigned long long)S->pruned, S->outcomeCount, (unsigned long long)S->maxDepthSeen, done, target, complete ? unbounded ? "ALL" : "complete" : "CAPPED", nowS() - t0);
		for (unsigned i = 0; i < S->outcomeCount && i < 8; i++) printf("   outcome %s\n", S->outcomeText[i]);
		if (rc) printf("   %s\n   replay %s\n", msg.c_str(), replayFile.c_str());
	}
	return rc;
}
