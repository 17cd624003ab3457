// Bounded exhaustive explorer for RangeNetworks/CommonLibs.
//
// One scenario = one closed driver program.  The explorer re-executes it for every sequence of
// choices (thread to run next, waiter to wake, time-out to fire, value of mc::choose(n), fault to
// inject) within the stated bound, depth first, with pruning of already explored states.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

typedef uint64_t H;
inline H mix(H a, H b) {
	H x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15u;
	x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29;
	return x;
}
H hashStr(const std::string &s);

enum Mode {
	CONC,	// threads are fibers, in process, program data restored before each execution
	FORK,	// same, but every execution runs in a fresh child process
	SEQ,	// no threads: the choices are mc::choose() only
	SEQFORK	// no threads, fresh child process per execution
};

struct Opts {
	int quick = 2, thorough = 3;	// deviation bound per tier; 99 = unbounded
	int quickDepth = 0, thoroughDepth = 0;	// free parameter for the scenario, see depth()
	bool spurious = false;		// explore spurious wake-ups of condition variables (cost 1 each)
	bool races = true;		// report unordered conflicting accesses (instrumented builds)
	bool timeAdvance = true;	// the clock may run while threads are runnable (cost 1 each)
	bool fixedOrder = false;	// also the choice between threads after one blocks, and of whom a signal wakes, costs one deviation
	bool sqliteOpaque = true;	// sqlite's own mutexes are not scheduling points
	bool endAtMain = false;		// threads may still be running when the driver returns
	bool thoroughOnly = false;
	bool optional = false;		// may be cut by the time cap without making the run incomplete
	int maxSteps = 20000;
	int cap = 0;			// seconds (0 = default for the tier)
	int hang = 0;			// CPU seconds for one execution before it counts as a hang
};

struct Scenario {
	const char *prop, *name, *what;
	Mode mode;
	Opts opts;
	void (*fn)();
};
struct Register { Register(const Scenario &s); };

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// MC_SCENARIO(C01, fifo_one, CONC, "what is driven", .quick=2) { body }
#define MC_SCENARIO(PROP,NAME,MODE,WHAT,...) \
	static void MC_CAT(scn_##PROP##_,NAME)(); \
	static mc::Opts MC_CAT(opt_##PROP##_,NAME)() { mc::Opts o; __VA_ARGS__; return o; } \
	static mc::Register MC_CAT(reg_##PROP##_,NAME)(mc::Scenario{#PROP,#NAME,WHAT,mc::MODE,MC_CAT(opt_##PROP##_,NAME)(),MC_CAT(scn_##PROP##_,NAME)}); \
	static void MC_CAT(scn_##PROP##_,NAME)()

// ---- inside a scenario ----
unsigned choose(unsigned n, const char *label = "choice");	// every value 0..n-1 is explored
unsigned chooseCost(unsigned n, const char *label = "fault");	// 0 is the default; others cost one deviation
unsigned chooseCosts(unsigned n, const int *costs, const char *label);
int depth();		// quickDepth or thoroughDepth
bool thorough();
// Explicit-state pruning for SEQ scenarios: the rest of the execution depends only on `state`
// and there are `remaining` more steps.
void state(H state, int remaining);
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
[[noreturn]] void skip();	// abandon this execution without a verdict (infeasible combination)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	// trace line
bool tracing();
void outcome(const std::string &s);	// distinct observed outcome, for the evidence
void cases(uint64_t n);			// inputs evaluated by an inner enumeration
// A known, recorded defect was hit (id from known-findings.txt); execution is abandoned.
bool known(const char *id);		// true if `id` is listed as an open finding: caller then tolerates it
extern uint64_t gCases;

// ---- threads (CONC / FORK) ----
int spawn(std::function<void()> f, const char *name = 0);	// returns thread number
void join(int t);
void joinAll();
int self();
void point();			// explicit scheduling point
void point(const void *what);	// the same, and the order of the points on `what` distinguishes states
bool finished(int t);
bool blocked(int t);		// thread t cannot take a step now (used by quiescence checks)
// Wait until every other thread is finished or blocked without a time-out.
void quiesce();
// Number of virtual microseconds since the execution began.
int64_t nowUs();
void setClock(int64_t sec, int64_t usec);	// only before threads start
void advance(int64_t usec);	// move the clock forward
#ifndef MC_CONC
extern std::function<void()> gOnSleep;	// run after every sleep of the sequential engine; empty it at the end of the scenario
#endif
bool timeoutsFired();		// did the clock move while some thread could have run
void noSched(int delta);	// >0: suspend scheduling points on this thread
void raceIgnore(int delta);

// ---- concurrent histories ----
struct Op { int thread; int kind; long a, b; long res; int call, ret; std::string s, sres; };
class History {
	std::vector<Op> *ops;
	public:
	History(); ~History();
	int call(int kind, long a = 0, long b = 0);	// records call time (a scheduling point)
	void ret(int id, long res = 0);
	const std::vector<Op> &all() const { return *ops; }
	std::string str(const char *const *names) const;
};
// Brute force linearizability.  apply(state, op, ops-linearised-so-far) returns false if the op
// cannot take effect with its recorded result here; unfinished ops (ret<0) may be dropped or taken.
template <class S, class F>
bool linearizable(const std::vector<Op> &ops, S init, F apply);

}

template <class S, class F>
bool mc::linearizable(const std::vector<Op> &ops, S init, F apply)
{
	struct Rec {
		static bool go(const std::vector<Op> &ops, uint32_t done, const S &st, F &apply) {
			int minRet = 1 << 30; bool left = false;
			for (unsigned i = 0; i < ops.size(); i++) if (!(done >> i & 1)) {
				if (ops[i].ret >= 0) { left = true; if (ops[i].ret < minRet) minRet = ops[i].ret; }
			}
			if (!left) return true;
			for (unsigned i = 0; i < ops.size(); i++) if (!(done >> i & 1)) {
				if (ops[i].call > minRet) continue;
				S n = st;
				if (!apply(n, ops[i])) continue;
				if (go(ops, done | 1u << i, n, apply)) return true;
			}
			return false;
		}
	};
	return Rec::go(ops, 0, init, apply);
}
int mc_main(int argc, char **argv);
