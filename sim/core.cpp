#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {

// ---------------------------------------------------------------- rng
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
u64 mix(u64 a, u64 b) { u64 x = a ^ rotl(b, 29) ^ 0x2545f4914f6cdd1dULL; splitmix(x); return splitmix(x) ^ b * 0x9e3779b97f4a7c15ULL; }
void Rng::reseed(u64 seed) { u64 x = seed; for (int i = 0; i < 4; i++) s[i] = splitmix(x); }
u64 Rng::next() {
	u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}

// ---------------------------------------------------------------- globals
Violation g_viol;
bool g_verbose = false;
FaultCfg g_faults;
Plan *g_plan = nullptr;
std::function<void()> g_on_exit_fiber;
std::vector<Region> g_regions;

static Rng g_rng;           // schedule and fault choices of a search run
static bool g_replay = false;
static std::map<DecKey, u64> g_dec;                 // replay: decisions
struct DecRec { DecKey k; u64 v; };
static std::vector<DecRec> g_rec;                   // search: recorded non-default decisions
static u64 g_hash, g_ilv;
static std::map<std::string, u64> g_probes, g_fired;
static std::map<std::string, u64> g_tot_probes, g_tot_fired;
static int g_faultbudget_used;
static std::vector<u64> g_kcnt;

static std::vector<std::string> &kinds() { static std::vector<std::string> k; return k; }
int kind_id(const char *name) {
	auto &k = kinds();
	for (size_t i = 0; i < k.size(); i++) if (k[i] == name) return (int)i;
	k.push_back(name);
	return (int)k.size() - 1;
}
const char *kind_name(int id) { return kinds()[id].c_str(); }

static inline void hashn(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ULL; g_hash ^= g_hash >> 29; }
void evn(u64 a, u64 b) { hashn(a); hashn(b); }
u64 cur_log_hash() { return g_hash; }

// ---------------------------------------------------------------- fibers
enum FState { F_READY, F_BLOCKED, F_DONE, F_DEAD };
struct Fiber {
	int id, proc;
	FState st;
	u64 self;
	void *sp;
	char *stk_lo, *stk_hi;
	std::function<void()> fn;
	u64 key;
	bool timed, tmo;
	u64 deadline; int clk;
	int err;
	u64 local, nblock;
	std::vector<u64> cnt;
	u64 eh[2];
	double prio;
};
struct Proc { int id; bool alive; int nthreads; std::vector<char> globals; };

static const int MAXF = 56;
static const size_t STK = 256 * 1024;
static char *g_stkbase;
static std::vector<Fiber *> g_fibers;
static std::vector<Proc> g_procs;
static int g_cur = -1;
static int g_gproc = 0;      // whose globals are currently installed
static void *g_ksp;
static u64 g_keh[2];
static int g_kerr;
static GoResult g_goresult;
static u64 g_mono, g_steps, g_steplimit = 200000, g_switches;
static i64 g_rtoff;
static int g_nopre;
static u64 g_gocount;
static int g_liveready;     // number of live fibers
static u64 g_next_dl = ~0ULL;
static sigjmp_buf g_crashjmp;
static bool g_injmp = false;

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

// ---- repo globals, one copy per simulated process
extern "C" { extern char __start_simdata[] __attribute__((weak)); extern char __stop_simdata[] __attribute__((weak));
	extern char __start_simbss[] __attribute__((weak)); extern char __stop_simbss[] __attribute__((weak)); }
static std::vector<char> g_ginit;
static size_t gdlen() { return __stop_simdata - __start_simdata; }
static size_t gblen() { return __stop_simbss - __start_simbss; }
static void g_save(std::vector<char> &v) { v.resize(gdlen() + gblen()); if (gdlen()) memcpy(v.data(), __start_simdata, gdlen()); if (gblen()) memcpy(v.data() + gdlen(), __start_simbss, gblen()); }
static void g_load(const std::vector<char> &v) { if (gdlen()) memcpy(__start_simdata, v.data(), gdlen()); if (gblen()) memcpy(__start_simbss, v.data() + gdlen(), gblen()); }
static bool in_globals(const void *p) { const char *c = (const char *)p; return (c >= __start_simdata && c < __stop_simdata) || (c >= __start_simbss && c < __stop_simbss); }
static void use_globals(int proc) {
	if (proc == g_gproc || proc < 0 || g_ginit.empty()) return;
	if (g_gproc < (int)g_procs.size()) g_save(g_procs[g_gproc].globals);
	if (g_procs[proc].globals.empty()) g_procs[proc].globals = g_ginit;
	g_load(g_procs[proc].globals);
	g_gproc = proc;
}

static void eh_swap(u64 *save, u64 *load) {
	u64 *g = (u64 *)abi::__cxa_get_globals();
	save[0] = g[0]; save[1] = g[1];
	g[0] = load[0]; g[1] = load[1];
}

static void to_kernel(GoResult r) {
	g_goresult = r;
	Fiber *f = g_fibers[g_cur];
	g_cur = -1;
	eh_swap(f->eh, g_keh);
	sim_switch(&f->sp, g_ksp);
}

static void switch_to(int t) {
	if (t == g_cur) return;
	int o = g_cur;
	g_switches++;
	evn(0x5157, ((u64)(o + 1) << 40) ^ ((u64)(t + 1) << 32) ^ (o >= 0 ? g_fibers[o]->local : 0));
	Fiber *n = g_fibers[t];
	use_globals(n->proc);
	g_cur = t;
	if (o >= 0) { Fiber *of = g_fibers[o]; eh_swap(of->eh, n->eh); sim_switch(&of->sp, n->sp); }
	else { eh_swap(g_keh, n->eh); sim_switch(&g_ksp, n->sp); }
}

bool in_fiber() { return g_cur >= 0; }
int cur() { return g_cur; }
int cur_proc() { return g_cur >= 0 ? g_fibers[g_cur]->proc : 0; }
bool fiber_done(int f) { return g_fibers[f]->st == F_DONE; }
bool fiber_alive(int f) { return g_fibers[f]->st == F_READY || g_fibers[f]->st == F_BLOCKED; }
bool fiber_blocked(int f) { return g_fibers[f]->st == F_BLOCKED; }
bool proc_alive(int p) { return g_procs[p].alive; }
void no_preempt(bool on) { g_nopre += on ? 1 : -1; }
u64 now_us() { return g_mono; }
i64 rt_offset_us() { return g_rtoff; }
static void recompute_dl();
void rt_jump(i64 us) { g_rtoff += us; recompute_dl(); }
u64 steps() { return g_steps; }
void set_step_limit(u64 n) { g_steplimit = n; }
static u64 RTBASE = 1700000000ULL * 1000000ULL;      // the realtime clock when a run starts (plan: epoch, seconds)
u64 real_now_us() { return (u64)((i64)(RTBASE + g_mono) + g_rtoff); }
int *errno_ptr() { return g_cur >= 0 ? &g_fibers[g_cur]->err : &g_kerr; }
void set_errno(int e) { *errno_ptr() = e; }
u64 fiber_self(int f) { return f >= 0 ? g_fibers[f]->self : 0x7f00fff00000ULL; }

int new_proc() {
	Proc p; p.id = (int)g_procs.size(); p.alive = true; p.nthreads = 0;
	g_procs.push_back(p);
	return p.id;
}

static void finish_current(FState st);
static void fiber_main() {
	Fiber *f = g_fibers[g_cur];
	try { f->fn(); }
	catch (std::bad_alloc &) { violate("uncaught-exception", "uncaught bad_alloc in simulated thread %d", f->id); }
	catch (...) { violate("uncaught-exception", "uncaught exception in simulated thread %d", f->id); }
	finish_current(F_DONE);
	abort();
}

static std::vector<char *> g_stkfree;
int spawn(int proc, std::function<void()> fn) {
	int id = (int)g_fibers.size();
	if (id >= MAXF) { fprintf(stderr, "sim: too many fibers\n"); exit(3); }
	Fiber *f = new Fiber();
	f->id = id; f->proc = proc; f->st = F_READY; f->fn = fn; f->key = 0; f->timed = f->tmo = false; f->deadline = ~0ULL; f->clk = 0;
	f->err = 0; f->local = 0; f->nblock = 0; f->eh[0] = f->eh[1] = 0;
	int idx = g_procs[proc].nthreads++;
	bool same = g_plan ? g_plan->get("same_tid", 1) != 0 : true;
	f->self = 0x7f0000001000ULL + (u64)idx * 0x1000ULL + (same ? 0 : (u64)proc * 0x1000000ULL);
	f->prio = 0;
	f->stk_lo = g_stkbase + (size_t)id * (STK + 8192) + 4096;
	f->stk_hi = f->stk_lo + STK;
	memset(f->stk_hi - 48 * 1024, 0x5A, 48 * 1024);
	u64 *sp = (u64 *)f->stk_hi;
	*--sp = 0;                       // alignment / fake return
	*--sp = (u64)(void *)fiber_main;
	for (int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp;
	g_fibers.push_back(f);
	if (!g_replay) f->prio = (double)(g_rng.next() >> 12);
	return id;
}

// ---------------------------------------------------------------- scheduling strategy (search mode)
struct Strat { int type; u64 inv; u64 gap; std::vector<u64> changes; size_t nextchange; double low; };
static Strat g_strat;
static u64 geo(u64 inv) { // mean inv
	if (inv <= 1) return 0;
	u64 g = 0; double p = 1.0 / (double)inv;
	// inverse CDF without libm dependence on platform: simple loop bounded
	double u = (double)(g_rng.next() >> 11) * (1.0 / 9007199254740992.0), acc = p, q = p;
	while (u > acc && g < inv * 8) { q *= (1 - p); acc += q; g++; }
	return g;
}
static void strat_init() {
	Strat &s = g_strat;
	s.changes.clear(); s.nextchange = 0; s.low = -1;
	u64 r = g_rng.below(10);
	static const u64 invs[] = {2, 3, 5, 8, 15, 30, 60, 150};
	if (r < 5) { s.type = 0; s.inv = g_rng.pick(invs); }
	else if (r < 7) { s.type = 1; static const u64 i2[] = {1, 2, 3, 6}; s.inv = g_rng.pick(i2); }
	else {
		s.type = 2;
		int d = (int)g_rng.range(1, 4);
		static const u64 lens[] = {100, 300, 800, 2000, 5000};
		u64 len = g_rng.pick(lens);
		for (int i = 0; i < d; i++) s.changes.push_back(g_rng.below(len));
		std::sort(s.changes.begin(), s.changes.end());
	}
	s.gap = geo(s.inv);
}

static bool expired(Fiber *f) { return f->timed && (f->clk == 1 ? real_now_us() : g_mono) >= f->deadline; }
static void recompute_dl() {
	g_next_dl = ~0ULL;
	for (auto f : g_fibers) if (f->st == F_BLOCKED && f->timed) {
		i64 d = f->clk == 1 ? (i64)f->deadline - (i64)RTBASE - g_rtoff : (i64)f->deadline;
		if (d < (i64)g_mono) d = (i64)g_mono;
		if ((u64)d < g_next_dl) g_next_dl = (u64)d;
	}
}
static void wake_expired() {
	if (g_mono < g_next_dl) return;
	for (auto f : g_fibers) if (f->st == F_BLOCKED && expired(f)) { f->st = F_READY; f->tmo = true; }
	recompute_dl();
}
static int ready_list(int *out) { int n = 0; for (auto f : g_fibers) if (f->st == F_READY) out[n++] = f->id; return n; }

static int K_SW = -1, K_PK = -1;

// choose who runs next when the current fiber cannot
static int pick_next(int from, u64 nb) {
	for (;;) {
		wake_expired();
		int rl[MAXF]; int n = ready_list(rl);
		if (n) {
			int def = rl[0];
			for (int i = 0; i < n; i++) if (rl[i] > from) { def = rl[i]; break; }
			if (n == 1) return def;
			DecKey k = {K_PK, from, nb};
			if (g_replay) {
				auto it = g_dec.find(k);
				if (it != g_dec.end()) { int t = (int)it->second - 1; for (int i = 0; i < n; i++) if (rl[i] == t) return t; }
				return def;
			}
			int t;
			if (g_strat.type == 2) { t = rl[0]; for (int i = 1; i < n; i++) if (g_fibers[rl[i]]->prio > g_fibers[t]->prio) t = rl[i]; }
			else t = rl[g_rng.below(n)];
			if (t != def) g_rec.push_back({k, (u64)t + 1});
			return t;
		}
		if (g_next_dl == ~0ULL) return -1;
		if (g_next_dl > g_mono) { g_mono = g_next_dl; if (g_verbose) printf("  [%9llu us] everybody waits: time advances\n", (unsigned long long)g_mono); }
	}
}

static void finish_current(FState st) {
	Fiber *f = g_fibers[g_cur];
	f->st = st;
	int t = pick_next(f->id, ++f->nblock);
	if (t < 0) {
		bool alldone = true;
		for (auto x : g_fibers) if (x->st == F_BLOCKED) alldone = false;
		to_kernel(alldone ? GO_DONE : GO_STUCK);
	} else switch_to(t);
}

GoResult go() {
	if (g_viol.set) return GO_VIOLATION;
	int t = pick_next(-1, ++g_gocount);
	if (t < 0) {
		for (auto x : g_fibers) if (x->st == F_BLOCKED) return GO_STUCK;
		return GO_DONE;
	}
	g_goresult = GO_DONE;
	if (sigsetjmp(g_crashjmp, 1) == 0) {
		g_injmp = true;
		switch_to(t);
	} else {
		u64 *g = (u64 *)abi::__cxa_get_globals();
		g[0] = g_keh[0]; g[1] = g_keh[1];
	}
	g_injmp = false;
	g_cur = -1;
	return g_goresult;
}

void point(int cls) {
	if (g_cur < 0 || g_nopre) return;
	Fiber *f = g_fibers[g_cur];
	f->local++;
	g_steps++;
	g_mono++;
	if (g_steps > g_steplimit) { to_kernel(GO_LIMIT); return; }
	wake_expired();
	if (g_fibers.size() == 1) return;
	DecKey k = {K_SW, f->id, f->local};
	if (g_replay) {
		auto it = g_dec.find(k);
		if (it == g_dec.end()) return;
		int t = (int)it->second - 1;
		if (t >= 0 && t < (int)g_fibers.size() && t != g_cur && g_fibers[t]->st == F_READY) switch_to(t);
		return;
	}
	int t = -1;
	if (g_strat.type == 2) {
		while (g_strat.nextchange < g_strat.changes.size() && g_steps >= g_strat.changes[g_strat.nextchange]) { g_strat.nextchange++; f->prio = g_strat.low--; }
		int best = g_cur;
		for (auto x : g_fibers) if (x->st == F_READY && x->prio > g_fibers[best]->prio) best = x->id;
		if (best != g_cur) t = best;
	} else {
		if (g_strat.type == 1 && cls == 0) return;
		if (g_strat.gap) { g_strat.gap--; return; }
		g_strat.gap = geo(g_strat.inv);
		int rl[MAXF]; int n = 0;
		for (auto x : g_fibers) if (x->st == F_READY && x->id != g_cur) rl[n++] = x->id;
		if (n) t = rl[g_rng.below(n)];
	}
	if (t >= 0) { g_rec.push_back({k, (u64)t + 1}); switch_to(t); }
}

bool timed_out() { return g_cur >= 0 && g_fibers[g_cur]->tmo; }

void block_on(u64 key, bool timed, u64 deadline, int clk) {
	if (g_cur < 0) { fprintf(stderr, "sim: block in kernel context\n"); exit(3); }
	Fiber *f = g_fibers[g_cur];
	f->st = F_BLOCKED; f->key = key; f->timed = timed; f->deadline = deadline; f->clk = clk; f->tmo = false;
	g_steps++;
	if (g_steps > g_steplimit) { to_kernel(GO_LIMIT); return; }
	if (timed) recompute_dl();
	int t = pick_next(f->id, ++f->nblock);
	if (t < 0) { to_kernel(GO_STUCK); return; }
	if (t != g_cur) switch_to(t);
	f->timed = false;
}
void wake_key(u64 key) { for (auto f : g_fibers) if (f->st == F_BLOCKED && f->key == key) { f->st = F_READY; } }
void wake_fiber(int i) { Fiber *f = g_fibers[i]; if (f->st == F_BLOCKED) f->st = F_READY; }
void sleep_us(u64 us) {
	if (g_cur < 0) { g_mono += us; return; }
	block_on(0xF000000000000000ULL + (u64)g_cur, true, g_mono + us, 0);
}

static std::vector<void (*)(int)> &deaths() { static std::vector<void (*)(int)> v; return v; }
static std::vector<void (*)()> &resets() { static std::vector<void (*)()> v; return v; }
void add_reset(void (*fn)()) { resets().push_back(fn); }
void add_proc_death(void (*fn)(int)) { deaths().push_back(fn); }

void kill_proc(int p) {
	if (!g_procs[p].alive) return;
	g_procs[p].alive = false;
	ev("process %d dies", p);
	bool self = false;
	for (auto f : g_fibers) if (f->proc == p && f->st != F_DONE) { if (f->id == g_cur) self = true; else f->st = F_DEAD; }
	for (auto d : deaths()) d(p);
	if (self) finish_current(F_DEAD);
}
void crash_machine() {
	ev("machine crash");
	for (auto f : g_fibers) if (f->st != F_DONE && f->id != g_cur) f->st = F_DEAD;
	for (auto &p : g_procs) if (p.alive) { p.alive = false; for (auto d : deaths()) d(p.id); }
	if (g_cur >= 0) { g_fibers[g_cur]->st = F_DEAD; to_kernel(GO_CRASH); }
}

// ---------------------------------------------------------------- logging
void ev(const char *fmt, ...) {
	char b[700];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	hashn((u64)g_cur + 17);
	for (const char *c = b; *c; c++) { g_hash = (g_hash ^ (unsigned char)*c) * 0x100000001b3ULL; }
	if (g_verbose) printf("  [%9llu us] %s%s\n", (unsigned long long)g_mono, g_cur >= 0 ? (std::string("T") + std::to_string(g_cur) + "/P" + std::to_string(cur_proc()) + ": ").c_str() : "", b);
}
void probe(const char *name, u64 n) { g_probes[name] += n; }
static std::map<int, u64> g_hard, g_any;
u64 hard_faults(int f) { auto it = g_hard.find(f < 0 ? g_cur : f); return it == g_hard.end() ? 0 : it->second; }
static bool is_hard(const char *k) { std::string s = k; auto ends = [&](const char *e) { std::string x = e; return s.size() >= x.size() && !s.compare(s.size() - x.size(), x.size(), x); }; return ends("-fail") || ends("-eio") || ends("-eof") || ends("-full"); }
u64 any_faults(int f) { auto it = g_any.find(f < 0 ? g_cur : f); return it == g_any.end() ? 0 : it->second; }
void fired(const char *k) { g_fired[k]++; g_any[g_cur]++; if (is_hard(k)) g_hard[g_cur]++; ev("fault: %s", k); }

void violate(const char *cls, const char *fmt, ...) {
	char b[900];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (!g_viol.set) {
		g_viol.set = true; g_viol.cls = cls; g_viol.msg = b;
		ev("VIOLATION %s: %s", cls, b);
	}
	if (g_cur >= 0) to_kernel(GO_VIOLATION);
}

// ---------------------------------------------------------------- decisions
static u64 &kcount(int kind) {
	std::vector<u64> &v = g_cur >= 0 ? g_fibers[g_cur]->cnt : g_kcnt;
	if ((int)v.size() <= kind) v.resize(kind + 1, 0);
	return v[kind];
}
u64 decide(const char *kind, double prob, u64 n) {
	int id = kind_id(kind);
	DecKey k = {id, g_cur, ++kcount(id)};
	if (g_replay) { auto it = g_dec.find(k); if (it == g_dec.end()) return 0; return it->second > n ? 0 : it->second; }
	if (prob <= 0 || !g_rng.chance(prob)) return 0;
	u64 v = 1 + g_rng.below(n);
	g_rec.push_back({k, v});
	return v;
}
u64 choose(const char *kind, u64 n) {
	if (n <= 1) return 0;
	int id = kind_id(kind);
	DecKey k = {id, g_cur, ++kcount(id)};
	if (g_replay) { auto it = g_dec.find(k); if (it == g_dec.end() || it->second >= n) return 0; return it->second; }
	u64 v = g_rng.below(n);
	if (v) g_rec.push_back({k, v});
	return v;
}
bool fault(const char *kind, u64 n, u64 *val) {
	if (!g_faults.on || g_cur < 0) return false;
	double p = 0;
	if (!g_replay) {
		auto it = g_faults.rate.find(kind);
		if (it != g_faults.rate.end() && g_faultbudget_used < g_faults.budget) p = it->second;
	}
	u64 v = decide(kind, p, n);
	if (!v) return false;
	g_faultbudget_used++;
	if (val) *val = v;
	fired(kind);
	return true;
}

// ---------------------------------------------------------------- heap
static const uintptr_t HBASE = 0x100000000000ULL, SBASE = 0x180000000000ULL;
static const size_t HSIZE = 512u << 20;
static char *g_heap; static uint8_t *g_shadow;
static size_t g_hp, g_hw;
struct Blk { size_t off, size; int tag; bool live; int kind; };
static std::vector<Blk> g_blks;
static HeapStats g_hs;
static int g_tag = 0;

static Blk *find_blk(size_t off) { // block containing or preceding offset
	size_t lo = 0, hi = g_blks.size();
	while (lo < hi) { size_t m = (lo + hi) / 2; if (g_blks[m].off <= off) lo = m + 1; else hi = m; }
	return lo ? &g_blks[lo - 1] : nullptr;
}
bool in_heap(const void *p) { return (uintptr_t)p >= HBASE && (uintptr_t)p < HBASE + HSIZE; }
void *halloc(size_t n, int tag, int kind) {
	size_t off = (g_hp + 32 + 15) & ~(size_t)15;
	if (n > HSIZE || off + n + 64 > HSIZE) return nullptr;
	g_hp = off + n;
	if (g_hp > g_hw) g_hw = g_hp;
	memset(g_shadow + off, 1, n);
	memset(g_heap + off, 0xCB, n);
	g_blks.push_back({off, n, tag, true, kind});
	g_hs.live++; g_hs.live_bytes += n; g_hs.allocs++;
	return g_heap + off;
}
size_t hsize(const void *p) { Blk *b = find_blk((uintptr_t)p - HBASE); return b && b->off == (uintptr_t)p - HBASE ? b->size : 0; }
void hfree(void *p, int kind) {
	if (!p) return;
	Blk *b = find_blk((uintptr_t)p - HBASE);
	if (!b || b->off != (uintptr_t)p - HBASE) { violate("bad-free", "free of a pointer that is not the start of an allocation"); return; }
	if (!b->live) { violate("double-free", "memory freed twice (block of %zu bytes)", b->size); return; }
	if (kind >= 0 && b->kind >= 0 && kind != b->kind) { static const char *k[] = {"malloc", "new", "new[]"}, *f[] = {"free", "delete", "delete[]"}; violate("mismatched-free", "memory obtained with %s is released with %s", k[b->kind], f[kind]); return; }
	b->live = false;
	memset(g_shadow + b->off, 2, b->size);
	memset(g_heap + b->off, 0xDD, b->size);
	g_hs.live--; g_hs.live_bytes -= b->size; g_hs.frees++;
}
HeapStats heap_stats() { return g_hs; }
u64 live_with_tag(int tag) { u64 n = 0; for (auto &b : g_blks) if (b.live && b.tag == tag) n++; return n; }
std::vector<void *> live_blocks() { std::vector<void *> v; for (auto &b : g_blks) if (b.live) v.push_back(g_heap + b.off); return v; }
void tag_push(int t) { g_tag = t; }

const Region *find_region(const void *p) {
	for (auto &r : g_regions) if ((uintptr_t)p >= r.base && (uintptr_t)p < r.base + r.pages) return &r;
	return nullptr;
}
const char *describe(const void *p, char *buf, size_t n) {
	if (in_heap(p)) {
		Blk *b = find_blk((uintptr_t)p - HBASE);
		if (!b) snprintf(buf, n, "heap start");
		else snprintf(buf, n, "%s heap block of %zu bytes, offset %zd", b->live ? "live" : "freed", b->size, (ssize_t)((uintptr_t)p - HBASE - b->off));
	} else if (const Region *r = find_region(p)) snprintf(buf, n, "shared mapping of %zu bytes, offset %zu", r->len, (size_t)((uintptr_t)p - r->base));
	else if ((uintptr_t)p < 4096) snprintf(buf, n, "null pointer + %zu", (size_t)p);
	else if ((uintptr_t)p >= 0x200000000000ULL && (uintptr_t)p < 0x280000000000ULL) snprintf(buf, n, "unmapped shared memory address");
	else snprintf(buf, n, "other memory");
	return buf;
}
bool addressable(const void *p, size_t n) {
	if (in_heap(p)) { size_t o = (uintptr_t)p - HBASE; for (size_t i = 0; i < n; i++) if (g_shadow[o + i] != 1) return false; return true; }
	if ((uintptr_t)p >= 0x200000000000ULL && (uintptr_t)p < 0x280000000000ULL) {
		const Region *r = find_region(p);
		return r && r->proc == cur_proc() && (uintptr_t)p + n <= r->base + r->len;
	}
	return (uintptr_t)p >= 4096;
}
void check_access(const void *p, size_t n, bool write, const char *what) {
	if (!n) return;
	if (in_heap(p)) {
		size_t o = (uintptr_t)p - HBASE;
		for (size_t i = 0; i < n; i++) if (g_shadow[o + i] != 1) {
			char b[120];
			describe((char *)p, b, sizeof b);
			violate(g_shadow[o + i] == 2 ? "use-after-free" : "heap-out-of-bounds", "%s %s of %zu byte(s) at %s, byte %zu is not addressable", what, write ? "write" : "read", n, b, i);
			return;
		}
	} else if ((uintptr_t)p >= 0x200000000000ULL && (uintptr_t)p < 0x280000000000ULL) {
		const Region *r = find_region(p);
		if (!r) violate("shm-out-of-bounds", "%s %s of %zu byte(s) in an unmapped shared memory area", what, write ? "write" : "read", n);
		else if (r->proc != cur_proc() && g_cur >= 0) violate("shm-wrong-process", "%s access through another process's mapping", what);
		else if ((uintptr_t)p + n > r->base + r->len) violate("shm-out-of-bounds", "%s %s of %zu byte(s) at offset %zu of a mapping of %zu bytes", what, write ? "write" : "read", n, (size_t)((uintptr_t)p - r->base), r->len);
	} else if ((uintptr_t)p < 4096) violate("null-access", "%s %s of %zu byte(s) at address %zu", what, write ? "write" : "read", n, (size_t)p);
}

// ---------------------------------------------------------------- instrumentation entry (called by tsan.cpp)
void access(const void *p, size_t n, bool write) {
	if (g_cur < 0) return;
	Fiber *f = g_fibers[g_cur];
	if ((char *)p >= f->stk_lo && (char *)p < f->stk_hi) return;
	uintptr_t a = (uintptr_t)p;
	bool shared = (a >= HBASE && a < HBASE + HSIZE) || (a >= 0x200000000000ULL && a < 0x280000000000ULL) || in_globals(p);
	if (shared) point(0);
	if (g_cur < 0) return;
	check_access(p, n, write, "memory");
}

// ---------------------------------------------------------------- run control
static void on_signal(int sig, siginfo_t *si, void *) {
	if (!g_injmp || g_cur < 0) {
		const char m[] = "sim: fatal signal outside a simulated thread\n";
		if (write(2, m, sizeof m - 1)) {}
		_exit(4);
	}
	char d[120];
	describe(si->si_addr, d, sizeof d);
	int f = g_cur;
	if (!g_viol.set) {
		g_viol.set = true;
		g_viol.cls = sig == SIGPROF ? "hang" : "crash";
		char b[300];
		snprintf(b, sizeof b, "simulated thread %d of process %d received signal %d%s%s", f, g_fibers[f]->proc, sig, sig == SIGSEGV || sig == SIGBUS ? " accessing " : "", sig == SIGSEGV || sig == SIGBUS ? d : "");
		g_viol.msg = b;
		hashn(0xDEAD0000 + sig);
		if (g_verbose) printf("  [%9llu us] T%d: VIOLATION %s: %s\n", (unsigned long long)g_mono, f, g_viol.cls.c_str(), b);
	}
	g_goresult = GO_VIOLATION;
	siglongjmp(g_crashjmp, 1);
}

static void init_once() {
	static bool done = false;
	if (done) return;
	done = true;
	K_SW = kind_id("switch"); K_PK = kind_id("next");
	g_heap = (char *)mmap((void *)HBASE, HSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	g_shadow = (uint8_t *)mmap((void *)SBASE, HSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	size_t sl = (size_t)MAXF * (STK + 8192);
	g_stkbase = (char *)mmap((void *)0x300000000000ULL, sl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (g_heap != (char *)HBASE || g_shadow != (uint8_t *)SBASE || g_stkbase != (char *)0x300000000000ULL) { fprintf(stderr, "sim: cannot reserve fixed address ranges\n"); exit(3); }
	for (int i = 0; i < MAXF; i++) { mprotect(g_stkbase + (size_t)i * (STK + 8192), 4096, PROT_NONE); mprotect(g_stkbase + (size_t)i * (STK + 8192) + 4096 + STK, 4096, PROT_NONE); }
	g_save(g_ginit);
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
	int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF};
	for (int s : sigs) sigaction(s, &sa, nullptr);
}

static void reset_all() {
	for (auto f : g_fibers) delete f;
	g_fibers.clear();
	g_procs.clear();
	g_cur = -1; g_gproc = 0; g_load(g_ginit);
	g_mono = 1000; g_steps = 0; g_rtoff = 0; g_nopre = 0; g_gocount = 0; g_switches = 0; g_next_dl = ~0ULL; g_steplimit = 200000;
	g_viol = Violation();
	g_hash = 0xcbf29ce484222325ULL;
	g_probes.clear(); g_fired.clear(); g_hard.clear(); g_any.clear(); g_faultbudget_used = 0;
	g_rec.clear();
	g_faults = FaultCfg();
	if (g_hw > (16u << 20)) { madvise(g_shadow, HSIZE, MADV_DONTNEED); madvise(g_heap, HSIZE, MADV_DONTNEED); }
	else memset(g_shadow, 0, g_hw);
	g_hp = g_hw = 0; g_blks.clear(); memset(&g_hs, 0, sizeof g_hs); g_tag = 0;
	g_kerr = 0; g_kcnt.clear();
	g_on_exit_fiber = nullptr;
	for (auto r : resets()) r();
	new_proc(); // process 0
}

std::vector<Reg> &registry() { static std::vector<Reg> r; return r; }

struct RunOut { Violation v; u64 hash, steps, simus, switches; std::vector<DecRec> rec; };

// Circumstances that no answer may depend on: the year, and whether descriptors 0 to 2 are free.
static void surroundings(u64 seed, Plan &p) {
	Rng r; r.reseed(seed);
	static const long long ep[] = {1000000000, 2147483646, 2147483648LL, 4102444800LL, 4294967294LL, 4294967296LL, 32503680000LL};
	if (r.chance(0.15)) p.cfg["epoch"] = r.pick(ep);
	if (r.chance(0.15)) p.cfg["fd0"] = 1;
}

static void exec_run(const Reg &reg, Plan &plan, bool replay, const std::map<DecKey, u64> *dec, u64 seed, RunOut &out) {
	init_once();
	reset_all();
	g_replay = replay;
	g_dec.clear();
	if (dec) g_dec = *dec;
	g_rng.reseed(mix(seed, 0x5eed));
	if (!replay) strat_init();
	g_plan = &plan;
	RTBASE = (u64)plan.get("epoch", 1700000000) * 1000000ULL;
	g_faults.budget = (int)plan.get("fbudget", 1 << 30);
	for (auto &c : plan.cfg) if (c.first.compare(0, 2, "f.") == 0) g_faults.rate[c.first.substr(2)] = (double)c.second / 1e6;
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, nullptr);
	Harness *h = reg.make();
	h->run(plan);
	memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
	if (getenv("SIM_SLOW")) { static struct timespec t0; struct timespec t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1); double dt = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9; t0 = t1; if (dt > 0.7) fprintf(stderr, "slow %.2f s %llu steps\n", dt, (unsigned long long)g_steps); }
	out.v = g_viol; out.steps = g_steps; out.simus = g_mono; out.switches = g_switches;
	hashn(g_steps); hashn(g_mono);
	if (g_viol.set && g_viol.cls == "hang") g_hash = 0x4a46;   // where the time ran out depends on the machine, that it does not
	out.hash = g_hash; out.rec = g_rec;
	delete h;
	g_plan = nullptr;
}

// ---------------------------------------------------------------- plan text
static std::string esc(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c > 32 && c < 127 && c != '"' && c != '%') o += (char)c; else { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; } }
	return o + "\"";
}
static std::string unesc(const std::string &s) {
	std::string o;
	for (size_t i = 1; i + 1 < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; }
	return o;
}
static std::string plan_text(const Reg &reg, const Plan &p, const std::vector<DecRec> &rec, u64 seed, const Violation *v, u64 hash) {
	std::string o;
	char b[200];
	o += std::string("prop ") + reg.prop + "\nscen " + reg.scen + "\n";
	snprintf(b, sizeof b, "seed %llu\n", (unsigned long long)seed); o += b;
	for (auto &c : p.cfg) { snprintf(b, sizeof b, "cfg %s %lld\n", c.first.c_str(), c.second); o += b; }
	for (auto &op : p.ops) {
		snprintf(b, sizeof b, "op %d %s ", op.actor, op.name.c_str()); o += b;
		o += esc(op.s);
		for (auto a : op.a) { snprintf(b, sizeof b, " %lld", a); o += b; }
		o += "\n";
	}
	for (auto &d : rec) { snprintf(b, sizeof b, "dec %s %d %llu %llu\n", kind_name(d.k.kind), d.k.a, (unsigned long long)d.k.b, (unsigned long long)d.v); o += b; }
	if (v && v->set) { o += "expect " + v->cls + "\nmsg " + v->msg + "\n"; snprintf(b, sizeof b, "hash %016llx\n", (unsigned long long)hash); o += b; }
	return o;
}

static const Reg *find_reg(const std::string &p, const std::string &s) { for (auto &r : registry()) if (p == r.prop && s == r.scen) return &r; return nullptr; }

static bool load_plan(const char *path, const Reg *&reg, Plan &p, std::map<DecKey, u64> &dec, u64 &seed) {
	FILE *f = fopen(path, "r");
	if (!f) return false;
	std::string prop, scen;
	std::string text; char buf[65536]; size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
	fclose(f);
	size_t pos = 0;
	while (pos < text.size()) {
		size_t e = text.find('\n', pos); if (e == std::string::npos) e = text.size();
		std::string line = text.substr(pos, e - pos); pos = e + 1;
		std::vector<std::string> t; size_t q = 0;
		while (q < line.size()) { size_t sp = line.find(' ', q); if (sp == std::string::npos) sp = line.size(); if (sp > q) t.push_back(line.substr(q, sp - q)); q = sp + 1; }
		if (t.empty()) continue;
		if (t[0] == "prop") prop = t[1];
		else if (t[0] == "scen") scen = t[1];
		else if (t[0] == "seed") seed = strtoull(t[1].c_str(), nullptr, 10);
		else if (t[0] == "cfg") p.cfg[t[1]] = atoll(t[2].c_str());
		else if (t[0] == "op") { Op o; o.actor = atoi(t[1].c_str()); o.name = t[2]; o.s = unesc(t[3]); for (size_t i = 4; i < t.size(); i++) o.a.push_back(atoll(t[i].c_str())); p.ops.push_back(o); }
		else if (t[0] == "dec") { DecKey k = {kind_id(t[1].c_str()), atoi(t[2].c_str()), strtoull(t[3].c_str(), nullptr, 10)}; dec[k] = strtoull(t[4].c_str(), nullptr, 10); }
	}
	reg = find_reg(prop, scen);
	return reg != nullptr;
}

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static std::string jmap(const std::map<std::string, u64> &m) { std::string o = "{"; bool first = true; for (auto &x : m) { if (!first) o += ","; first = false; o += jstr(x.first) + ":" + std::to_string(x.second); } return o + "}"; }

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static const Reg *pick_reg(const std::string &prop, Rng &r, const std::string &only) {
	double tot = 0;
	for (auto &x : registry()) if (prop == x.prop && (only.empty() || only == x.scen)) tot += x.weight;
	double u = (double)(r.next() >> 11) * (1.0 / 9007199254740992.0) * tot;
	const Reg *last = nullptr;
	for (auto &x : registry()) if (prop == x.prop && (only.empty() || only == x.scen)) { last = &x; if (u < x.weight) return &x; u -= x.weight; }
	return last;
}

static int batch(const std::string &prop, u64 base, u64 start, u64 stride, u64 count, double budget, const std::string &outdir, const std::vector<std::string> &known, const std::string &only, int detevery) {
	double t0 = wall();
	u64 runs = 0, steps = 0, simus = 0, switches = 0, det = 0, nviol = 0, faultruns = 0, nontriv = 0, digest = 0;
	std::unordered_set<u64> hashes, ilv;
	std::map<std::string, u64> scen, knownhits, viols;
	std::string sample;
	std::map<std::string, std::string> knownmsg;
	int rc = 0;
	for (u64 i = 0; i < count; i++) {
		if (budget > 0 && (i & 15) == 0 && wall() - t0 > budget) break;
		u64 seed = mix(mix(base, 0xC0FFEE), start + i * stride);
		Rng r(seed);
		const Reg *reg = pick_reg(prop, r, only);
		if (!reg) { fprintf(stderr, "sim: no scenario for %s\n", prop.c_str()); return 2; }
		Plan p; Harness *h = reg->make(); h->gen(r, p); delete h; surroundings(mix(r.next(), 77), p);
		RunOut o;
		exec_run(*reg, p, false, nullptr, seed, o);
		runs++; steps += o.steps; simus += o.simus; switches += o.switches; scen[reg->scen]++;
		bool anyf = false;
		for (auto &x : g_fired) { g_tot_fired[x.first] += x.second; anyf = true; }
		for (auto &x : g_probes) g_tot_probes[x.first] += x.second;
		if (anyf) faultruns++;
		if (o.switches > 2 || anyf) nontriv++;
		if (hashes.size() < 400000) hashes.insert(o.hash);
		if (i < 300) digest = mix(digest, o.hash);
		if (detevery && (i % detevery) == 0 && !o.v.set) {
			RunOut o2; exec_run(*reg, p, false, nullptr, seed, o2);
			if (o2.hash != o.hash) { fprintf(stderr, "sim: NONDETERMINISM seed %llu\n", (unsigned long long)seed); return 5; }
			std::map<DecKey, u64> d; for (auto &x : o.rec) d[x.k] = x.v;
			RunOut o3; exec_run(*reg, p, true, &d, seed, o3);
			if (o3.hash != o.hash) { fprintf(stderr, "sim: replay differs from search, index %llu seed %llu\n", (unsigned long long)(start + i * stride), (unsigned long long)seed); return 5; }
			det++;
			if (sample.empty() || (i % (detevery * 7)) == 0) { std::vector<DecRec> few(o.rec.begin(), o.rec.begin() + std::min<size_t>(o.rec.size(), 6)); sample = plan_text(*reg, p, few, seed, nullptr, 0); if (sample.size() > 1800) sample.resize(1800); }
		}
		if (o.v.set) {
			bool isknown = false;
			for (auto &k : known) if (k == o.v.cls) isknown = true;
			if (isknown) { knownhits[o.v.cls]++; knownmsg[o.v.cls] = o.v.msg; continue; }
			nviol++;
			viols[o.v.cls]++;
			std::string path = outdir + "/raw-" + prop + "-" + std::to_string(start) + ".replay";
			FILE *f = fopen(path.c_str(), "w");
			if (f) { std::string t = plan_text(*reg, p, o.rec, seed, &o.v, o.hash); fwrite(t.data(), 1, t.size(), f); fclose(f); }
			rc = 1;
			break;
		}
	}
	double w = wall() - t0;
	std::string hp = outdir + "/hashes-" + prop + "-" + std::to_string(start) + ".bin";
	FILE *f = fopen(hp.c_str(), "wb");
	if (f) { for (u64 x : hashes) fwrite(&x, 8, 1, f); fclose(f); }
	std::string o = "{";
	o += "\"runs\":" + std::to_string(runs) + ",\"steps\":" + std::to_string(steps) + ",\"sim_us\":" + std::to_string(simus) + ",\"switches\":" + std::to_string(switches);
	o += ",\"determinism_checked\":" + std::to_string(det) + ",\"fault_runs\":" + std::to_string(faultruns) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"violations\":" + std::to_string(nviol);
	char b[96]; snprintf(b, sizeof b, ",\"wall\":%.3f,\"digest\":\"%016llx\"", w, (unsigned long long)digest); o += b;
	o += ",\"faults\":" + jmap(g_tot_fired) + ",\"probes\":" + jmap(g_tot_probes) + ",\"scenarios\":" + jmap(scen) + ",\"known\":" + jmap(knownhits);
	o += ",\"sample\":" + jstr(sample) + ",\"knownmsg\":{";
	bool first = true; for (auto &x : knownmsg) { if (!first) o += ","; first = false; o += jstr(x.first) + ":" + jstr(x.second); }
	o += "}}";
	printf("BATCH %s\n", o.c_str());
	return rc;
}

int sim_main(int argc, char **argv) {
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	if (argc < 2) return 2;
	std::string mode = argv[1];
	if (mode == "list") { for (auto &r : registry()) printf("%s %s\n", r.prop, r.scen); return 0; }
	if (mode == "batch") { // batch PROP base start stride count budget outdir detevery [known=cls]... [scen=name]
		std::vector<std::string> known; std::string only;
		for (int i = 10; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 6, "known=") == 0) known.push_back(a.substr(6)); if (a.compare(0, 5, "scen=") == 0) only = a.substr(5); }
		return batch(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), strtoull(argv[6], 0, 10), atof(argv[7]), argv[8], known, only, atoi(argv[9]));
	}
	if (mode == "replay" || mode == "one") {
		const Reg *reg = nullptr; Plan p; std::map<DecKey, u64> dec; u64 seed = 0;
		RunOut o;
		bool v = false; std::string only, save;
		for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (a == "-v") v = true; if (a.compare(0, 5, "save=") == 0) save = a.substr(5); if (a.compare(0, 5, "scen=") == 0) only = a.substr(5); }
		if (mode == "replay") {
			if (!load_plan(argv[2], reg, p, dec, seed)) { fprintf(stderr, "sim: cannot load %s\n", argv[2]); return 2; }
			g_verbose = v;
			exec_run(*reg, p, true, &dec, seed, o);
		} else {
			std::string prop = argv[2];
			u64 idx = strtoull(argv[3], 0, 10), base = strtoull(argv[4], 0, 10);
			seed = mix(mix(base, 0xC0FFEE), idx);
			Rng r(seed); reg = pick_reg(prop, r, only);
			Harness *h = reg->make(); h->gen(r, p); delete h; surroundings(mix(r.next(), 77), p);
			if (v) printf("%s", plan_text(*reg, p, {}, seed, nullptr, 0).c_str());
			g_verbose = v;
			exec_run(*reg, p, false, nullptr, seed, o);
		}
		if (!save.empty()) { std::vector<DecRec> rec = o.rec; if (mode == "replay") { rec.clear(); for (auto &d : dec) rec.push_back({d.first, d.second}); } FILE *f = fopen(save.c_str(), "w"); if (f) { std::string t = plan_text(*reg, p, rec, seed, &o.v, o.hash); fwrite(t.data(), 1, t.size(), f); fclose(f); } }
		printf("RESULT %s %016llx %s\n", o.v.set ? o.v.cls.c_str() : "ok", (unsigned long long)o.hash, o.v.msg.c_str());
		if (v) { printf("steps=%llu sim_us=%llu switches=%llu\n", (unsigned long long)o.steps, (unsigned long long)o.simus, (unsigned long long)o.switches); for (auto &x : g_fired) printf("fault %s %llu\n", x.first.c_str(), (unsigned long long)x.second); for (auto &x : g_probes) printf("probe %s %llu\n", x.first.c_str(), (unsigned long long)x.second); }
		return o.v.set ? 1 : 0;
	}
	if (mode == "multi") { // multi: read replay paths on stdin, print RESULT for each (fast minimiser; crash-isolated by the driver)
		char line[4096];
		while (fgets(line, sizeof line, stdin)) {
			size_t n = strlen(line); while (n && (line[n - 1] == '\n')) line[--n] = 0;
			const Reg *reg = nullptr; Plan p; std::map<DecKey, u64> dec; u64 seed = 0; RunOut o;
			if (!load_plan(line, reg, p, dec, seed)) { printf("RESULT error 0 load\n"); fflush(stdout); continue; }
			exec_run(*reg, p, true, &dec, seed, o);
			printf("RESULT %s %016llx %s\n", o.v.set ? o.v.cls.c_str() : "ok", (unsigned long long)o.hash, o.v.msg.c_str()); fflush(stdout);
			if (o.v.set && (o.v.cls == "crash" || o.v.cls == "hang")) return 0;
		}
		return 0;
	}
	return 2;
}
}
int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
