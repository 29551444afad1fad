// Deterministic simulator core: fibers as threads, simulated processes, seeded scheduler,
// decision recording/replay, checked heap, event log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <unordered_map>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

struct Rng {
	u64 s[4];
	explicit Rng(u64 seed = 1) { reseed(seed); }
	void reseed(u64 seed);
	u64 next();
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
u64 mix(u64 a, u64 b);

struct Op {
	int actor;
	std::string name;
	std::vector<long long> a;
	std::string s;
	long long arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Plan {
	std::map<std::string, long long> cfg;
	std::vector<Op> ops;
	long long get(const std::string &k, long long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
	void add(int actor, const std::string &n, std::vector<long long> a = {}, const std::string &s = "") { ops.push_back({actor, n, a, s}); }
};

// ---- violations -----------------------------------------------------------------------------
struct Violation { bool set = false; std::string cls, msg; };
extern Violation g_viol;
// Reports a violation of the property under test and ends the run (does not return when called in a fiber).
void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---- logging / probes -----------------------------------------------------------------------
extern bool g_verbose;
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void evn(u64 a, u64 b);  // cheap numeric event (hashed only)
void probe(const char *name, u64 n = 1);
void fired(const char *faultkind);
u64 any_faults(int fiber = -1);      // injected faults of any kind
u64 hard_faults(int fiber = -1);     // refusals (not delays or interruptions) injected into calls of a fiber so far

// ---- decisions ------------------------------------------------------------------------------
struct DecKey { int kind; int a; u64 b; bool operator<(const DecKey &o) const { return kind != o.kind ? kind < o.kind : a != o.a ? a < o.a : b < o.b; } };
int kind_id(const char *name);
const char *kind_name(int id);
// Fault-type decision: 0 = nothing; otherwise 1..n.  prob only matters in search mode.
// Keyed by (kind, current fiber, per-fiber per-kind occurrence).
u64 decide(const char *kind, double prob, u64 n);
// As decide, for choices that are not faults (cond waiter selection and the like): not limited by fault switches.
u64 choose(const char *kind, u64 n);

// Fault configuration of the run.  Names are the fault kinds; a kind is injected only if enabled for the run and
// faults are globally on.
struct FaultCfg {
	bool on = false;
	std::map<std::string, double> rate;
	int budget = 1 << 30;
};
extern FaultCfg g_faults;
// true if the fault fires now (with value 1..n in *val)
bool fault(const char *kind, u64 n = 1, u64 *val = nullptr);

// ---- processes and fibers -------------------------------------------------------------------
struct Fiber;
struct Proc;
enum GoResult { GO_DONE, GO_STUCK, GO_LIMIT, GO_VIOLATION, GO_CRASH };
int new_proc();
int spawn(int proc, std::function<void()> fn);
GoResult go();
int cur();          // current fiber id, -1 in kernel context
int cur_proc();     // current simulated process, 0 in kernel context
bool in_fiber();
bool fiber_done(int f);
bool fiber_alive(int f);
bool fiber_blocked(int f);
void point(int cls);                 // preemption point; cls 0 memory, 1 call
void sleep_us(u64 us);               // simulated sleep
void block_on(u64 key, bool timed, u64 deadline, int clk);  // returns when woken
void wake_key(u64 key);
void wake_fiber(int f);
bool timed_out();                    // last block ended by its timer
void kill_proc(int p);               // process death; does not return if it is the caller's
void crash_machine();                // ends go() with GO_CRASH; does not return in a fiber
bool proc_alive(int p);
void no_preempt(bool on);
u64 now_us();                        // monotonic simulated time
i64 rt_offset_us();
void rt_jump(i64 us);
u64 steps();
void set_step_limit(u64 n);
u64 real_now_us();                   // realtime clock
int *errno_ptr();
void set_errno(int e);
u64 fiber_self(int f);
extern std::function<void()> g_on_exit_fiber;

// Run-wide configuration, taken from the plan
extern Plan *g_plan;

// ---- checked heap ---------------------------------------------------------------------------
void *halloc(size_t n, int tag = 0, int kind = -1);   // kind: 0 malloc, 1 new, 2 new[], -1 not checked;     // never fails (unless arena exhausted)
void hfree(void *p, int kind = -1);
bool in_heap(const void *p);
size_t hsize(const void *p);
void check_access(const void *p, size_t n, bool write, const char *what);
// true if every byte is currently addressable
bool addressable(const void *p, size_t n);
struct HeapStats { u64 live, live_bytes, allocs, frees; };
HeapStats heap_stats();
u64 live_with_tag(int tag);
void tag_push(int tag);
const char *describe(const void *p, char *buf, size_t n);
std::vector<void *> live_blocks();

// regions mapped by simulated shared memory, for bounds checks
struct Region { uintptr_t base; size_t len; size_t pages; int proc; u64 objid; size_t objoff; };
extern std::vector<Region> g_regions;
const Region *find_region(const void *p);

// ---- harness registry -----------------------------------------------------------------------
struct Harness {
	virtual ~Harness() {}
	virtual void gen(Rng &r, Plan &p) = 0;
	virtual void run(Plan &p) = 0;
};
struct Reg { const char *prop; const char *scen; Harness *(*make)(); double weight; };
std::vector<Reg> &registry();
struct AddReg { AddReg(const char *p, const char *s, Harness *(*m)(), double w = 1.0) { registry().push_back({p, s, m, w}); } };

// reset hooks of the sub-systems, called before each run
void add_reset(void (*fn)());
void add_proc_death(void (*fn)(int proc));

u64 cur_log_hash();
}
