// Scenarios and oracles for mutex, semaphore, event and reader/writer lock (C01..C05, C03 mixes, C06 timing).
#include "os.h"
#include "glue.h"
#include <cstring>
#include <algorithm>
#include <set>
#include <unordered_set>
using namespace sim;

namespace {
const uint32_t INF = 0xFFFFFFFFu;
uint32_t wv(long long w) { return w < 0 ? INF : (uint32_t)w; }

enum Kind { MUTEX, SEM, EVENT, RW };

// One call in progress on the object under test.
struct Call { bool active = false, overlap = false; u64 t0 = 0; uint32_t w = 0; std::string what; bool inf = false; };

struct Base : Harness {
	std::string prop;
	Kind kind;
	int nproc = 1, nact = 2, nh = 1, hpp = 1;
	bool named = false;
	std::vector<void *> H;
	std::vector<Call> calls;
	u64 lastact = 0;
	bool dirtyclock = false;   // clock faults or jumps possible: timing-based conclusions are off
	Plan *P = nullptr;
	std::vector<int> pid;
	void *fh = nullptr; int fp = 0;   // handle and process used for the final check
	std::vector<bool> dead;

	Base(const char *p, Kind k) : prop(p), kind(k) {}
	int procOf(int a) { return pid[a % nproc]; }
	int handleOf(int a) { return ((a / nproc) % hpp) * nproc + a % nproc; }
	void *hof(int a) { return H[handleOf(a)]; }

	void begin(int a, const char *what, uint32_t w) {
		Call &c = calls[a];
		c.active = true; c.overlap = false; c.t0 = now_us(); c.w = w; c.what = what; c.inf = w == INF;
		for (int i = 0; i < nact; i++) if (i != a && calls[i].active) { c.overlap = true; calls[i].overlap = true; }
		lastact = now_us();
		ev("%s(%d) begins", what, (int)w);
	}
	void end(int a, int r) { calls[a].active = false; lastact = now_us(); ev("%s -> %d", calls[a].what.c_str(), r); }
	bool others_active(int a) { for (int i = 0; i < nact; i++) if (i != a && calls[i].active) return true; return false; }

	const char *name() { return named ? "simobj" : nullptr; }
	void *make_one(bool other) {
		void *h; int r;
		if (kind == MUTEX) { h = g_mutex_new(); r = g_mutex_create(h, name()); }
		else if (kind == SEM) { h = g_sem_new(); r = g_sem_create(h, name(), (int)P->get("n", 1) + (other ? 2 : 0)); }
		else if (kind == EVENT) { h = g_event_new(); r = g_event_create(h, name(), (int)P->get("manual") ^ (other ? 1 : 0), (int)P->get("prefire") ^ (other ? 1 : 0)); }
		else { h = g_rw_new(); r = g_rw_create(h, name()); }
		if (!r) violate("create-failed", "creating a %s object failed without any fault", named ? "named" : "private");
		return h;
	}
	void del_one(void *h) { if (kind == MUTEX) g_mutex_del(h); else if (kind == SEM) g_sem_del(h); else if (kind == EVENT) g_event_del(h); else g_rw_del(h); }
	void make_handles() {
		H.assign(nproc * hpp, nullptr);
		for (int p = 0; p < nproc; p++) spawn(pid[p], [this, p] {
			for (int j = 0; j < hpp; j++) {
				int h = j * nproc + p, r = 0;
				(void)r; H[h] = make_one(false); ev("created handle %d", h);
			}
		});
		GoResult g = go();
		if (g != GO_DONE && g != GO_VIOLATION) violate("create-stuck", "creation did not finish (%s)", g == GO_STUCK ? "all threads asleep" : "no progress");
	}
	virtual void act(int a, const Op &o) = 0;
	virtual void drain(int a) = 0;                // release what the actor still holds
	virtual void model_reset() = 0;
	virtual void stuck(GoResult g) {
		std::string s;
		for (int i = 0; i < nact; i++) if (calls[i].active) s += " T" + std::to_string(i) + ":" + calls[i].what;
		violate(g == GO_STUCK ? "lost-wakeup" : "no-progress", "threads never return from:%s (%s)", s.c_str(), describe_state().c_str());
	}
	virtual std::string describe_state() { return ""; }
	virtual void final_check() {}
	virtual bool stuck_ok(GoResult) { return false; }

	void run(Plan &p) override {
		P = &p;
		named = p.get("named"); nproc = (int)p.get("nproc", 1); nact = (int)p.get("nact", 2); hpp = (int)p.get("hpp", 1);
		if (!named) { nproc = 1; hpp = 1; }
		dirtyclock = p.get("f.clock-jump") || p.get("f.clock-fail") ;
		if (p.get("deep")) { set_step_limit(200000 + (u64)p.get("deep") * 2000); probe("deep"); }
		pid.push_back(0); for (int i = 1; i < nproc; i++) pid.push_back(new_proc());
		calls.assign(nact, Call()); dead.assign(nproc, false);
		model_reset();
		make_handles();
		if (g_viol.set) return;
		g_faults.on = true;
		for (int a = 0; a < nact; a++) {
			bool any = false; for (auto &o : p.ops) if (o.actor == a) any = true;
			if (!any) continue;
			spawn(procOf(a), [this, a] {
				for (auto &o : P->ops) if (o.actor == a) {
					if (o.name == "die") { drain(a); if (o.arg(0)) sleep_us((u64)o.arg(0)); ev("process dies"); probe("process-death"); fired("process-death"); dead[a % nproc] = true; kill_proc(cur_proc()); }
					act(a, o);
				}
				drain(a);
			});
		}
		GoResult g = go();
		g_faults.on = false;
		if (g == GO_STUCK || g == GO_LIMIT) { if (!stuck_ok(g)) stuck(g); return; }
		if (g_viol.set) return;
		fh = H[0]; fp = pid[0];
		final_check();
		if (g_viol.set) return;
		bool deaths = false; for (bool d : dead) if (d) deaths = true;
		if (prop == "C10") {
			// a process that comes later joins the object as it is, whatever arguments it gives
			int np = new_proc(); pid.push_back(np); void *nh = nullptr;
			spawn(np, [&] { nh = make_one(true); });
			GoResult g3 = go();
			if (g3 == GO_STUCK || g3 == GO_LIMIT) violate("create-stuck", "a later process cannot create the object: it waits for ever");
			if (g_viol.set) return;
			fh = nh; fp = np; final_check(); if (g_viol.set) return;
			spawn(np, [&] { del_one(nh); }); g3 = go();
			if (g3 == GO_STUCK || g3 == GO_LIMIT) violate("close-stuck", "closing the later handle did not finish");
			if (g_viol.set) return;
			if (live_mappings(np) || fd_count(np)) violate("leak", "the later process still maps or has open what it closed");
		}
		// close all handles
		for (int pr = 0; pr < nproc; pr++) if (!dead[pr]) spawn(pid[pr], [this, pr] { for (int j = 0; j < hpp; j++) del_one(H[j * nproc + pr]); });
		g = go();
		if (g == GO_STUCK || g == GO_LIMIT) violate("close-stuck", "closing the handles did not finish");
		if (g_viol.set) return;
		for (int pr = 0; pr < nproc; pr++) {
			if (dead[pr]) continue;
			if (live_mappings(pid[pr])) violate("leak", "process %d still maps %llu shared area(s) after closing all handles", pr, (unsigned long long)live_mappings(pid[pr]));
			if (fd_count(pid[pr])) violate("leak", "process %d still has %llu descriptor(s) open after closing all handles", pr, (unsigned long long)fd_count(pid[pr]));
		}
		if (!deaths && live_with_tag(1)) violate("leak", "%llu heap block(s) left after closing all handles", (unsigned long long)live_with_tag(1));
	}

	void gen_common(Rng &r, Plan &p) {
		bool nm = r.chance(0.55);
		p.cfg["named"] = nm;
		p.cfg["nproc"] = nm ? r.range(1, 3) : 1;
		p.cfg["hpp"] = nm && r.chance(0.25) ? 2 : 1;
		p.cfg["nact"] = r.range(2, 4);
		p.cfg["same_tid"] = r.chance(0.7);
		p.cfg["cond_consume"] = r.chance(0.35);
		bool c3 = prop == "C03";
		if (prop == "C10") { p.cfg["named"] = 1; p.cfg["hpp"] = 1; p.cfg["nproc"] = p.cfg["nact"]; }
		if (r.chance(c3 ? 0.85 : 0.6)) {
			static const long long rates[] = {2000, 10000, 40000, 150000};
			if (r.chance(0.6)) p.cfg["f.spurious-wakeup"] = r.pick(rates) * 2;
			if (r.chance(0.4)) p.cfg["f.stall"] = r.pick(rates);
			if (r.chance(0.15)) p.cfg["f.clock-jump"] = r.pick(rates) / 4;
		}
		(void)c3;
	}
	// called at the end of gen(): some processes die between two calls, holding nothing
	void gen_deaths(Rng &r, Plan &p) {
		if (prop != "C10") return;
		int na = (int)p.cfg["nact"]; p.cfg["nproc"] = na;
		for (int a = 1; a < na; a++) if (a == 1 || r.chance(0.5)) {
			std::vector<size_t> idx; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].actor == a) idx.push_back(i);
			size_t k = idx.empty() ? 0 : (size_t)r.below(idx.size() + 1);
			Op d; d.actor = a; d.name = "die"; d.a = {r.chance(0.5) ? 0 : gen_work(r)};
			size_t at = k >= idx.size() ? (idx.empty() ? p.ops.size() : idx.back() + 1) : idx[k];
			p.ops.insert(p.ops.begin() + (long)at, d);
		}
	}
	long long gen_wait(Rng &r) {
		double pinf = prop == "C03" ? 0.5 : 0.55;
		if (r.chance(pinf)) return -1;
		if (r.chance(0.4)) return 0;
		static const long long ws[] = {1, 2, 5, 10, 50, 1000, 1500};
		return r.pick(ws);
	}
	long long gen_work(Rng &r) { static const long long ws[] = {1, 30, 400, 2000, 6000, 60000}; return r.pick(ws); }
	// now and then very many nested locks, readers or permits at once
	long long gen_deep(Rng &r, Plan &p) {
		if (!r.chance(0.004)) return 0;
		long long n = r.chance(0.04) ? r.range(65530, 65545) : r.chance(0.3) ? r.range(32, 140) : r.range(250, 300);
		p.cfg["deep"] = n; return n;
	}
	// time-based conclusion possible?
	bool timing_ok() { return !dirtyclock; }
};

// ------------------------------------------------------------------------------------------------ mutex
struct MutexH : Base {
	int owner = -1; int depth = 0; u64 freesince = 0;
	MutexH(const char *p) : Base(p, MUTEX) {}
	void model_reset() override { owner = -1; depth = 0; freesince = 0; }
	std::string describe_state() override { return owner < 0 ? "mutex is free" : "mutex owned by T" + std::to_string(owner); }
	void gen(Rng &r, Plan &p) override {
		gen_common(r, p);
		int na = (int)p.cfg["nact"]; long long dp = gen_deep(r, p);
		for (int a = 0; a < na; a++) {
			int n = (int)r.range(1, 7); int d = 0;
			for (int i = 0; i < n; i++) {
				double x = (double)r.below(100);
				if (d && dp && r.chance(0.3)) { p.add(a, "deep", {dp, r.range(-1, 3), gen_work(r)}); dp = 0; }
				if (d == 0) {
					if (x < 75) { p.add(a, "lock", {gen_wait(r)}); d = 1; }
					else if (x < 85) p.add(a, "unlock", {(long long)r.below(2)});
					else p.add(a, "work", {gen_work(r)});
				} else {
					if (x < 22 && d < 4) { p.add(a, "lock", {gen_wait(r)}); d++; }
					else if (x < 55) { p.add(a, "unlock", {0}); d--; }
					else if (x < 70) { p.add(a, "unlock", {1}); d = 0; }
					else if (x < 78) { p.add(a, "auto", {gen_work(r)}); d--; }
					else if (x < 82) p.add(a, "recreate", {(long long)r.below(2)});
					else p.add(a, "work", {gen_work(r)});
				}
			}
		}
		gen_deaths(r, p);
	}
	void inside(int a) { if (owner != a) violate("mutual-exclusion", "T%d is inside the critical section but T%d entered it too", a, owner); }
	void do_lock(int a, uint32_t w) {
		bool mine = owner == a, held = owner >= 0 && owner != a;
		begin(a, "lock", w);
		int r = g_mutex_lock(hof(a), w);
		u64 dl = calls[a].t0 + (u64)w * 1000;
		bool quiet = !others_active(a) && owner < 0 && lastact + 8000 < dl;
		bool ovl = calls[a].overlap;
		end(a, r);
		if (r) {
			if (owner >= 0 && owner != a) violate("mutual-exclusion", "T%d obtained the mutex while T%d owns it", a, owner);
			if (mine != (owner == a)) violate("internal", "owner changed under its feet");
			owner = a; depth = mine ? depth + 1 : 1;
			if (mine) probe("recursive-lock");
		} else {
			if (w == INF) violate("lock-failed", "T%d: lock without time limit returned false", a);
			if (mine) violate("recursive-refused", "T%d: lock by the owner returned false", a);
			if (!held && !ovl) { if (timing_ok() || w == 0) violate("lock-refused", "T%d: lock(%u) returned false although nobody owned or used the mutex", a, w); }
			else if (w && timing_ok() && quiet) violate("lock-refused", "T%d: lock(%u) timed out although the mutex had been free for a while", a, w);
			probe("lock-timeout");
		}
	}
	void do_unlock(int a, bool all) {
		bool mine = owner == a;
		if (mine && (all || depth == 1)) { owner = -1; depth = 0; }   // released somewhere inside the call
		else if (mine) depth--;
		begin(a, all ? "unlock-all" : "unlock", 0);
		int r = g_mutex_unlock(hof(a), all);
		end(a, r);
		if (mine && !r) violate("unlock-refused", "T%d: unlock by the owner returned false", a);
		if (!mine && r) violate("foreign-unlock", "T%d: unlock by a thread that does not own the mutex returned true", a);
		if (!mine) probe("foreign-unlock-refused");
	}
	struct AutoArg { MutexH *h; int a; long long us; };
	static void auto_body(void *v) { AutoArg *x = (AutoArg *)v; sleep_us((u64)x->us); x->h->inside(x->a); if (x->h->depth == 1) { x->h->owner = -1; x->h->depth = 0; } else x->h->depth--; }
	void act(int a, const Op &o) override {
		if (o.name == "lock") do_lock(a, wv(o.arg(0)));
		else if (o.name == "deep") { if (owner != a) return; for (long long i = 0; i < o.arg(0); i++) do_lock(a, i % 3 ? 0 : INF); sleep_us((u64)o.arg(2)); inside(a); for (long long i = o.arg(1); i < o.arg(0) && depth > 1; i++) do_unlock(a, false); inside(a); sleep_us((u64)o.arg(2)); inside(a); }
		else if (o.name == "unlock") do_unlock(a, o.arg(0));
		else if (o.name == "auto") { if (owner == a) { AutoArg x = {this, a, o.arg(0)}; begin(a, "auto-unlock", 0); g_mutex_auto(hof(a), auto_body, &x); end(a, 1); probe("auto-unlock"); } }
		else if (o.name == "recreate") {
			if (owner != a) return;
			// another thread asks for a new object under the same handle while this one owns it
			bool done = false; void *h = hof(a); bool nm = o.arg(0);
			spawn(cur_proc(), [h, nm, &done] { int r = g_mutex_create(h, nm ? "another" : nullptr); ev("create by another thread -> %d", r); done = true; if (r) violate("foreign-create", "creating anew an object that another thread owns succeeds"); });
			while (!done) sleep_us(20);
			inside(a); probe("foreign-create-refused");
		}
		else if (o.name == "work") { bool mine = owner == a; sleep_us((u64)o.arg(0)); if (mine) inside(a); }
	}
	void drain(int a) override { while (owner == a) do_unlock(a, false); }
	void final_check() override {
		if (owner >= 0) return;
		spawn(fp, [this] {
			for (int k = 0; k < 2; k++) {
				int r = g_mutex_lock(fh, 0);
				if (!r) violate("not-free", "after every thread released the mutex a lock(0) fails");
				if (nproc > 1 || hpp > 1) {
					// nobody else can take it now
				}
				r = g_mutex_unlock(fh, 0);
				if (!r) violate("unlock-refused", "unlock by the owner returned false at the end");
				r = g_mutex_unlock(fh, 0);
				if (r) violate("foreign-unlock", "unlock of a free mutex returned true");
			}
		});
		go();
	}
};

// ------------------------------------------------------------------------------------------------ semaphore
struct SemH : Base {
	int N = 1; std::vector<int> have; int held = 0;      // definite holders
	int pend_lock = 0, pend_unlock = 0;
	struct Rng2 { int lo, hi; };
	std::vector<Rng2> win;       // per actor: bounds on free permits seen during its unlock call
	SemH(const char *p) : Base(p, SEM) {}
	void model_reset() override { N = (int)P->get("n", 1); have.assign(nact, 0); held = 0; pend_lock = pend_unlock = 0; win.assign(nact, Rng2()); }
	std::string describe_state() override { return std::to_string(N - held) + " of " + std::to_string(N) + " permits free"; }
	void gen(Rng &r, Plan &p) override {
		gen_common(r, p);
		int n = (int)(r.chance(0.9) ? r.range(1, 3) : r.range(4, 9)); p.cfg["over"] = r.chance(0.3);
		int na = (int)p.cfg["nact"]; long long dp = gen_deep(r, p); if (dp) n = (int)dp; p.cfg["n"] = n;
		for (int a = 0; a < na; a++) {
			int k = (int)r.range(1, 6), d = 0;
			for (int i = 0; i < k; i++) {
				double x = (double)r.below(100);
				if (dp && r.chance(0.3)) { p.add(a, "deep", {dp - r.range(-1, 4), r.range(0, 3), gen_work(r)}); dp = 0; d += 2; }
				if (d == 0) { if (x < 80) { p.add(a, "lock", {gen_wait(r)}); d++; } else p.add(a, "work", {gen_work(r)}); }
				else if (x < 15) { p.add(a, "lock", {r.chance(0.5) ? 0 : r.range(1, 30)}); d++; }   // a second permit: never without limit
				else if (x < 65) { p.add(a, "unlock", {(long long)r.below(2)}); d--; }
				else if (x < 72) { p.add(a, "auto", {gen_work(r)}); d--; }
				else p.add(a, "work", {gen_work(r)});
			}
		}
		gen_deaths(r, p);
	}
	// bounds of the free count right now
	void widen() {
		for (int a = 0; a < nact; a++) if (calls[a].active && calls[a].what[0] == 'u') upd(a);
	}
	int lo_now() { int v = N - held - pend_lock - pend_unlock; return v < 0 ? 0 : v; }
	int hi_now() { return N - held; }
	void upd(int a) { // the caller's own permit counts as held while it has not been returned
		int lo = N - held - pend_lock - pend_unlock, hi = N - held - 1;   // own permit is in pend_unlock, not in held
		if (lo < 0) lo = 0;
		if (lo < win[a].lo) win[a].lo = lo;
		if (hi > win[a].hi) win[a].hi = hi;
	}
	// the history of successful calls: some order of them has to explain all reported counts
	struct SOp { bool unlock; int prev; u64 s, e; };
	std::vector<std::vector<SOp>> hist; u64 tick = 0; std::vector<u64> ustart;
	void note(int a, bool u, int prev, u64 s0) { if (hist.size() < (size_t)nact) hist.resize((size_t)nact); hist[(size_t)a].push_back({u, prev, s0, ++tick}); }
	bool explained() {
		size_t n = hist.size(); if (n > 10) return true;
		size_t total = 0; for (auto &h : hist) { total += h.size(); if (h.size() > 60) return true; }
		std::unordered_set<u64> seen; std::vector<u64> st{0};
		while (!st.empty()) {
			u64 v = st.back(); st.pop_back(); size_t done = 0; int cnt = N; u64 first = ~0ULL;
			for (size_t a = 0; a < n; a++) { size_t k = (v >> (a * 6)) & 63; done += k; for (size_t i = 0; i < k; i++) cnt += hist[a][i].unlock ? 1 : -1; if (k < hist[a].size()) first = std::min(first, hist[a][k].e); }
			if (done == total) return true;
			for (size_t a = 0; a < n; a++) { size_t k = (v >> (a * 6)) & 63; if (k >= hist[a].size()) continue; SOp &o = hist[a][k]; if (o.s > first) continue;
				if (o.unlock ? (o.prev >= 0 && o.prev != cnt) : cnt <= 0) continue;
				u64 w = v + (1ULL << (a * 6)); if (seen.insert(w).second) st.push_back(w); }
		}
		return false;
	}
	void do_lock(int a, uint32_t w) {
		bool full = held >= N;
		u64 s0 = ++tick;
		begin(a, "lock", w); pend_lock++; widen();
		int r = g_sem_lock(hof(a), w);
		u64 dl = calls[a].t0 + (u64)w * 1000;
		bool quiet = !others_active(a) && held < N && lastact + 8000 < dl;
		bool ovl = calls[a].overlap;
		pend_lock--;
		end(a, r);
		if (r) {
			held++; have[a]++; note(a, false, -1, s0);
			if (held > N) violate("too-many-holders", "%d lock calls outstanding on a semaphore of %d permits", held, N);
		} else {
			if (w == INF) violate("lock-failed", "lock without time limit returned false");
			if (!full && !ovl) { if (timing_ok() || w == 0) violate("lock-refused", "lock(%u) returned false although %d permit(s) were free and nobody used the semaphore", w, N - held); }
			else if (w && timing_ok() && quiet) violate("lock-refused", "lock(%u) timed out although a permit had been free for a while", w);
			probe("lock-timeout");
		}
		widen();
	}
	void pre_unlock(int a) { if (ustart.size() < (size_t)nact) ustart.resize((size_t)nact); ustart[(size_t)a] = ++tick; held--; have[a]--; pend_unlock++; begin(a, "unlock", 0); win[a].lo = N; win[a].hi = -1; upd(a); widen(); }
	void post_unlock(int a, int r, bool chk, int prev) {
		bool act = calls[a].active;
		upd(a);
		end(a, r); pend_unlock--; widen();
		(void)act;
		if (!r) violate("unlock-refused", "unlock returned false");
		note(a, true, chk ? prev : -1, ustart[(size_t)a]);
		if (chk && (prev < win[a].lo || prev > win[a].hi)) violate("previous-count", "unlock reported %d free permits before it, possible were %d..%d", prev, win[a].lo, win[a].hi);
	}
	struct AutoArg { SemH *h; int a; long long us; };
	static void auto_body(void *v) { AutoArg *x = (AutoArg *)v; sleep_us((u64)x->us); x->h->pre_unlock(x->a); }
	void act(int a, const Op &o) override {
		if (o.name == "lock") { if (have[a] && wv(o.arg(0)) == INF) return; do_lock(a, wv(o.arg(0))); }
		else if (o.name == "deep") {
			for (long long i = 0; i < o.arg(0); i++) do_lock(a, 0);
			sleep_us((u64)o.arg(2));
			while (have[a] > o.arg(1)) { int prev = -1; pre_unlock(a); int r = g_sem_unlock(hof(a), &prev); post_unlock(a, r, true, prev); }
		}
		else if (o.name == "unlock") { if (have[a]) { int prev = -1; bool c = o.arg(0); pre_unlock(a); int r = g_sem_unlock(hof(a), c ? &prev : nullptr); post_unlock(a, r, c, prev); } }
		else if (o.name == "auto") { if (have[a]) { AutoArg x = {this, a, o.arg(0)}; g_sem_auto(hof(a), auto_body, &x); post_unlock(a, 1, false, 0); } }
		else if (o.name == "work") sleep_us((u64)o.arg(0));
	}
	void drain(int a) override { while (have[a]) { int prev = -1; pre_unlock(a); int r = g_sem_unlock(hof(a), &prev); post_unlock(a, r, true, prev); } }
	void final_check() override {
		if (!explained()) { violate("previous-count", "the counts that the unlocks reported cannot be explained by any order of the calls"); return; }
		spawn(fp, [this] {
			for (int i = 0; i < N; i++) if (!g_sem_lock(fh, 0)) violate("permit-lost", "only %d of %d permits can be taken after all were returned", i, N);
			if (g_sem_lock(fh, 0)) violate("permit-invented", "more than %d permits can be taken after all were returned", N);
			for (int i = 0; i < N; i++) { int prev = -1; if (!g_sem_unlock(fh, &prev) || prev != i) violate("previous-count", "unlock reported %d free permits, %d were", prev, i); }
			// returning one too many never raises the total
			if (P->get("over")) { int prev = -1; g_sem_unlock(fh, &prev); if (prev != N) violate("previous-count", "an unlock too many reported %d free permits, %d were", prev, N); probe("unlocked-too-often"); for (int i = 0; i < N; i++) if (!g_sem_lock(fh, 0)) violate("permit-lost", "permit lost"); if (g_sem_lock(fh, 0)) violate("permit-invented", "total raised above %d", N); for (int i = 0; i < N; i++) g_sem_unlock(fh, nullptr); }
		});
		GoResult g = go();
		if (g == GO_STUCK || g == GO_LIMIT) violate("no-progress", "zero-wait locks at the end did not return");
	}
};

// ------------------------------------------------------------------------------------------------ event
// history with linearizability check against a one-bit model
struct HOp { int type; /*0 wait ok,1 wait fail,2 fire,3 reset*/ u64 s, e; bool free; };
static bool linearizable(const std::vector<HOp> &h, bool manual, bool init, bool &can_end_clear) {
	size_t n = h.size();
	if (n > 60) n = 60;
	std::unordered_set<u64> seen[2];
	bool ok = false; can_end_clear = false;
	// iterative DFS
	struct St { u64 mask; bool sig; };
	std::vector<St> st; st.push_back({0, init});
	seen[init].insert(0);
	u64 full = n == 64 ? ~0ULL : ((1ULL << n) - 1);
	while (!st.empty()) {
		St c = st.back(); st.pop_back();
		if (c.mask == full) { ok = true; if (!c.sig) { can_end_clear = true; return true; } continue; }
		u64 mine = ~0ULL;
		for (size_t i = 0; i < n; i++) if (!(c.mask >> i & 1)) mine = std::min(mine, h[i].e);
		for (size_t i = 0; i < n; i++) if (!(c.mask >> i & 1) && h[i].s < mine) {
			bool s = c.sig;
			if (h[i].type == 0) { if (!s) continue; if (!manual) s = false; }
			else if (h[i].type == 1) { if (s && !h[i].free) continue; }
			else if (h[i].type == 2) s = true;
			else s = false;
			u64 m = c.mask | (1ULL << i);
			if (seen[s].insert(m).second) st.push_back({m, s});
		}
	}
	return ok;
}
struct EventH : Base {
	bool manual = false, prefire = false;
	std::vector<HOp> hist; u64 seq = 0;
	struct Pend { u64 s; bool wait; bool ovw; };
	std::vector<Pend> pend;
	int stucks = 0;
	EventH(const char *p) : Base(p, EVENT) {}
	void model_reset() override { manual = P->get("manual"); prefire = P->get("prefire"); hist.clear(); seq = 0; pend.assign(nact, Pend()); }
	void gen(Rng &r, Plan &p) override {
		gen_common(r, p);
		p.cfg["manual"] = r.chance(0.4); p.cfg["prefire"] = r.chance(0.3);
		int na = (int)p.cfg["nact"]; if (r.chance(0.3)) { na++; p.cfg["nact"] = na; }
		int total = 0;
		for (int a = 0; a < na; a++) {
			int k = (int)r.range(1, 5);
			int role = (int)r.below(3);
			for (int i = 0; i < k && total < 22; i++, total++) {
				double x = (double)r.below(100);
				double pw = role == 0 ? 80 : role == 1 ? 20 : 50;
				if (x < pw) p.add(a, "wait", {gen_wait(r)});
				else if (x < pw + (100 - pw) * 0.65) p.add(a, "fire");
				else if (x < pw + (100 - pw) * 0.8) p.add(a, "reset");
				else p.add(a, "work", {gen_work(r)});
			}
		}
		gen_deaths(r, p);
	}
	void do_wait(int a, uint32_t w) {
		begin(a, "wait", w);
		pend[a].s = ++seq; pend[a].wait = true; pend[a].ovw = false;
		for (int i = 0; i < nact; i++) if (i != a && calls[i].active) { pend[a].ovw = true; if (pend[i].wait) pend[i].ovw = true; }
		int r = g_event_wait(hof(a), w);
		u64 dl = calls[a].t0 + (u64)w * 1000;
		u64 la = lastact;
		bool quiet = w && w != INF && timing_ok() && !others_active(a) && la + 8000 < dl;
		end(a, r);
		pend[a].wait = false;
		if (!r && w == INF) violate("wait-failed", "wait without time limit returned false");
		HOp o; o.type = r ? 0 : 1; o.s = pend[a].s; o.e = ++seq;
		// A refused wait is only judged when it ran alone at its end (the implementation may reserve a signal for
		// a thread already waiting, and a zero wait may be refused while another call is being served).
		o.free = pend[a].ovw && !quiet;
		if (!r && dirtyclock && w) o.free = true;
		hist.push_back(o);
		if (r) probe("wait-passed"); else probe("wait-refused");
	}
	void do_simple(int a, bool fire) {
		begin(a, fire ? "fire" : "reset", 0);
		for (int i = 0; i < nact; i++) if (i != a && calls[i].active && pend[i].wait) pend[i].ovw = true;
		u64 s = ++seq;
		int r = fire ? g_event_fire(hof(a)) : g_event_reset(hof(a));
		end(a, r);
		if (fire && !r) violate("fire-failed", "fire returned false");
		if (!fire && manual && !r) violate("reset-failed", "reset of a manual event returned false");
		if (!fire && !manual && r) violate("reset-accepted", "reset of an automatic event was accepted");
		if (!fire && !manual) return;
		HOp o; o.type = fire ? 2 : 3; o.s = s; o.e = ++seq; o.free = false;
		hist.push_back(o);
	}
	void act(int a, const Op &o) override {
		if (o.name == "wait") do_wait(a, wv(o.arg(0)));
		else if (o.name == "fire") do_simple(a, true);
		else if (o.name == "reset") do_simple(a, false);
		else if (o.name == "work") sleep_us((u64)o.arg(0));
	}
	void drain(int) override {}
	bool verify(bool stuck) {
		bool clear;
		if (hist.size() > 60) return true;
		if (!linearizable(hist, manual, prefire, clear)) {
			std::string s; int ok = 0, fires = 0;
			for (auto &h : hist) { if (h.type == 0) ok++; if (h.type == 2) fires++; }
			violate("event-history", "results of waits cannot be explained by any order of the calls (%d waits passed, %d fires, %s%s)", ok, fires, manual ? "manual" : "automatic", prefire ? ", pre-fired" : "");
			return false;
		}
		if (stuck && !clear) { violate("lost-wakeup", "a wait without time limit sleeps although the event is set"); return false; }
		return true;
	}
	bool stuck_ok(GoResult g) override {
		if (g == GO_LIMIT) return false;
		probe("waiters-left-with-event-clear");
		// only waits without limit may be left, and only with the event clear
		for (int i = 0; i < nact; i++) if (calls[i].active && !(pend[i].wait && calls[i].inf)) return false;
		if (!verify(true)) return true;
		// now release them: fire must let them all through
		int maxf = 3; for (auto &o : P->ops) if (o.name == "wait") maxf++;
		for (int k = 0; k < maxf && !g_viol.set; k++) {
			bool left = false; for (int i = 0; i < nact; i++) if (calls[i].active) left = true;
			if (!left) break;
			if (k == maxf - 1) { violate("lost-wakeup", "waiters remain asleep after the event was fired again and again"); return true; }
			int pr = prop == "C10" ? 0 : k % nproc;   // in C10 other processes may still die
			spawn(pid[pr], [this, pr] { u64 s = ++seq; int r = g_event_fire(H[pr]); ev("release fire -> %d", r); if (!r) violate("fire-failed", "fire returned false"); hist.push_back({2, s, ++seq, false}); });
			int before = 0; for (int i = 0; i < nact; i++) if (calls[i].active && pend[i].wait) before++;
			GoResult g2 = go();
			if (g2 == GO_LIMIT) { violate("no-progress", "no progress after releasing waiters"); return true; }
			if (g_viol.set) return true;
			if (g2 == GO_STUCK) {
				int after = 0; for (int i = 0; i < nact; i++) if (calls[i].active) { if (!(pend[i].wait && calls[i].inf)) { stuck(g2); return true; } after++; }
				(void)before; (void)after;
				if (!verify(true)) return true;
			}
		}
		if (!g_viol.set) verify(false);
		return true;
	}
	void final_check() override { verify(false); if (g_viol.set) return;
		bool clear; linearizable(hist, manual, prefire, clear);
		// quiescent: a zero wait tells the state
		spawn(fp, [this] { u64 s = ++seq; int r = g_event_wait(fh, 0); hist.push_back({r ? 0 : 1, s, ++seq, false});
			int f = g_event_fire(fh); if (!f) violate("fire-failed", "fire returned false"); hist.push_back({2, ++seq, ++seq, false});
			for (int i = 0; i < 2; i++) { s = ++seq; r = g_event_wait(fh, 0); hist.push_back({r ? 0 : 1, s, ++seq, false}); } });
		GoResult g = go(); if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a zero wait did not return"); return; }
		if (!g_viol.set) verify(false);
	}
};

// ------------------------------------------------------------------------------------------------ reader/writer lock
struct RWH : Base {
	std::vector<int> rd; int readers = 0, writer = -1; int maxreaders = 0;
	RWH(const char *p) : Base(p, RW) {}
	void model_reset() override { rd.assign(nact, 0); readers = 0; writer = -1; }
	std::string describe_state() override { return std::to_string(readers) + " reader(s), writer " + (writer < 0 ? "none" : "T" + std::to_string(writer)); }
	void gen(Rng &r, Plan &p) override {
		gen_common(r, p);
		int na = (int)p.cfg["nact"];
		if (prop != "C03" && r.chance(0.25)) p.cfg["f.clock-fail"] = 60000;
		long long dp = gen_deep(r, p);
		for (int a = 0; a < na; a++) {
			int k = (int)r.range(1, 6), d = 0, pr = (int)r.range(20, 80);
			for (int i = 0; i < k; i++) {
				double x = (double)r.below(100);
				if (d == 1 && dp && r.chance(0.5)) { p.add(a, "deep", {dp, r.range(-1, 3), gen_work(r)}); dp = 0; }
				if (!d) { if (x < 82) { d = (int)r.below(100) < pr ? 1 : 2; p.add(a, d == 1 ? "rlock" : "wlock", {gen_wait(r)}); } else p.add(a, "work", {gen_work(r)}); }
				else if (x < 55) { p.add(a, "unlock"); d = 0; }
				else if (x < 65) { p.add(a, "auto", {gen_work(r)}); d = 0; }
				else if (x < 72 && d == 1) { p.add(a, "rlock", {r.chance(0.5) ? 0 : r.range(1, 30)}); }
				else p.add(a, "work", {gen_work(r)});
			}
		}
		gen_deaths(r, p);
	}
	void check(int a) {
		if (writer >= 0 && readers) violate("reader-with-writer", "T%d: %d reader(s) and writer T%d hold the lock together", a, readers, writer);
	}
	void do_lock(int a, bool wr, uint32_t w) {
		bool avail0 = wr ? (readers == 0 && writer < 0) : writer < 0;
		u64 cf0 = g_clock_fail_count;
		begin(a, wr ? "write-lock" : "read-lock", w);
		int r = wr ? g_rw_wlock(hof(a), w) : g_rw_rlock(hof(a), w);
		u64 dl = calls[a].t0 + (u64)w * 1000;
		bool avail = wr ? (readers == 0 && writer < 0) : writer < 0;
		bool quiet = !others_active(a) && avail && lastact + 8000 < dl;
		bool ovl = calls[a].overlap;
		end(a, r);
		bool cf = g_clock_fail_count != cf0;
		if (r) {
			if (wr) { if (writer >= 0) violate("two-writers", "T%d obtained the write lock while T%d holds it", a, writer); writer = a; }
			else { readers++; rd[a]++; if (readers > 1) probe("readers-shared"); }
			check(a);
		} else {
			probe("lock-timeout");
			if (w == INF) violate("lock-failed", "lock without time limit returned false");
			if (cf) return;
			if (avail0 && !ovl) { if (timing_ok()) violate("lock-refused", "%s lock(%u) returned false although the lock was available and unused (%s)", wr ? "write" : "read", w, describe_state().c_str()); }
			else if (w && timing_ok() && quiet) violate("lock-refused", "%s lock(%u) timed out although the lock had been available for a while", wr ? "write" : "read", w);
		}
	}
	void do_unlock(int a) {
		if (writer == a) { writer = -1; begin(a, "write-unlock", 0); int r = g_rw_wunlock(hof(a)); end(a, r); if (!r) violate("unlock-refused", "write unlock returned false"); }
		else if (rd[a]) { rd[a]--; readers--; begin(a, "read-unlock", 0); int r = g_rw_runlock(hof(a)); end(a, r); if (!r) violate("unlock-refused", "read unlock returned false"); }
	}
	struct AutoArg { RWH *h; int a; long long us; };
	static void auto_body(void *v) { AutoArg *x = (AutoArg *)v; sleep_us((u64)x->us); x->h->check(x->a); if (x->h->writer == x->a) x->h->writer = -1; else { x->h->rd[x->a]--; x->h->readers--; } }
	void act(int a, const Op &o) override {
		if (o.name == "rlock") { if (writer == a || (rd[a] && wv(o.arg(0)) == INF)) return; do_lock(a, false, wv(o.arg(0))); }
		else if (o.name == "wlock") { if (writer == a || rd[a]) return; do_lock(a, true, wv(o.arg(0))); }
		else if (o.name == "deep") { if (!rd[a]) return; for (long long i = 0; i < o.arg(0) && (i < 3 || rd[a] > 3); i++) do_lock(a, false, 0); sleep_us((u64)o.arg(2)); check(a); for (long long i = o.arg(1); i < o.arg(0) && rd[a] > 1; i++) do_unlock(a); sleep_us((u64)o.arg(2)); check(a); }
		else if (o.name == "unlock") do_unlock(a);
		else if (o.name == "auto") { AutoArg x = {this, a, o.arg(0)}; if (writer == a) { begin(a, "auto-write", 0); g_rw_autow(hof(a), auto_body, &x); end(a, 1); } else if (rd[a]) { begin(a, "auto-read", 0); g_rw_autor(hof(a), auto_body, &x); end(a, 1); } }
		else if (o.name == "work") { sleep_us((u64)o.arg(0)); check(a); }
	}
	void drain(int a) override { while (writer == a || rd[a]) do_unlock(a); }
	void final_check() override {
		spawn(fp, [this] {
			for (int k = 0; k < 2; k++) {
				if (!g_rw_wlock(fh, 0)) violate("not-free", "after all released, write lock(0) fails");
				if (g_rw_rlock(fh, 0)) violate("reader-with-writer", "read lock(0) succeeds while a writer holds the lock");
				if (g_rw_wlock(fh, 0)) violate("two-writers", "second write lock(0) succeeds");
				if (!g_rw_wunlock(fh)) violate("unlock-refused", "write unlock returned false");
				if (!g_rw_rlock(fh, 0)) violate("not-free", "after all released, read lock(0) fails");
				if (!g_rw_rlock(fh, 0)) violate("not-shared", "second read lock(0) fails");
				if (g_rw_wlock(fh, 0)) violate("reader-with-writer", "write lock(0) succeeds while readers hold the lock");
				if (!g_rw_runlock(fh)) violate("unlock-refused", "read unlock returned false");
				if (g_rw_wlock(fh, 0)) violate("reader-with-writer", "write lock(0) succeeds while one reader is left");
				if (!g_rw_runlock(fh)) violate("unlock-refused", "read unlock returned false");
				if (g_rw_runlock(fh)) violate("phantom-unlock", "read unlock without any reader returned true");
			}
		});
		GoResult g = go(); if (g == GO_STUCK || g == GO_LIMIT) violate("no-progress", "a zero wait did not return");
	}
};

// readers relay the lock between them without a gap; a writer must still get in
struct StarveH : Base {
	int readers = 0, writer = 0; u64 acq = 0; bool wdone = false; int wstate = 0; u64 acq_after = 0;
	StarveH(const char *p) : Base(p, RW) {}
	void model_reset() override {}
	void gen(Rng &r, Plan &p) override {
		gen_common(r, p); p.cfg["nact"] = r.range(3, 4); p.cfg.erase("f.clock-jump"); p.cfg.erase("f.stall");
		int na = (int)p.cfg["nact"];
		for (int a = 0; a + 1 < na; a++) p.add(a, "relay", {r.range(5, 60)});
		p.add(na - 1, "writer", {r.range(0, 3000)});
	}
	void act(int a, const Op &o) override {
		if (o.name == "relay") {
			while (!wdone) {
				if (acq_after > 400) violate("writer-starved", "a waiting writer was passed over by %llu later readers", (unsigned long long)acq_after);
				begin(a, "read-lock", INF);
				bool late = wstate == 1;
				int r = g_rw_rlock(hof(a), INF); end(a, r);
				if (!r) violate("lock-failed", "read lock without limit returned false");
				if (writer) violate("reader-with-writer", "reader entered while the writer holds the lock");
				readers++; u64 my = ++acq; if (late && wstate == 1) acq_after++;
				// hold until somebody else has joined, or a while has passed
				u64 t = now_us();
				while (acq == my && now_us() < t + (u64)o.arg(0) * 1000 && !wdone) sleep_us(500);
				readers--;
				begin(a, "read-unlock", 0); r = g_rw_runlock(hof(a)); end(a, r);
				if (!r) violate("unlock-refused", "read unlock returned false");
			}
		} else if (o.name == "writer") {
			sleep_us((u64)o.arg(0) + 1);
			begin(a, "write-lock", INF); wstate = 1; int r = g_rw_wlock(hof(a), INF); end(a, r); wstate = 2;
			if (!r) violate("lock-failed", "write lock without limit returned false");
			if (readers) violate("reader-with-writer", "writer entered while %d reader(s) hold the lock", readers);
			writer = 1; sleep_us(700); if (readers) violate("reader-with-writer", "reader entered while the writer holds the lock");
			writer = 0; wdone = true;
			begin(a, "write-unlock", 0); r = g_rw_wunlock(hof(a)); end(a, r);
		}
	}
	void drain(int) override {}
	bool stuck_ok(GoResult) override { bool w = false; for (auto &o : P->ops) if (o.name == "writer") w = true; return !w; }
};

// ------------------------------------------------------------------------------------------------ timing (C06)
// Each actor: sleep, ask with a limit, hold, let go.  No stalls and no clock jumps, so simulated time can be judged.
struct TimeH : Base {
	struct W { bool waiting = false, alone = true; };
	std::vector<W> ws; std::vector<int> have; u64 lastrel = 0; int N = 1; bool manual = false; int holders = 0;
	bool evset = false;
	TimeH(Kind k) : Base("C06", k) {}
	void model_reset() override { ws.assign(nact, W()); have.assign(nact, 0); N = (int)P->get("n", 1); manual = P->get("manual"); evset = P->get("prefire"); lastrel = 0; holders = 0; if (P->get("tick")) g_clock_tick = 1000; }
	void gen(Rng &r, Plan &p) override {
		if (r.chance(0.2)) p.cfg["tick"] = 1;
		bool nm = r.chance(0.4); p.cfg["named"] = nm; p.cfg["nproc"] = nm ? r.range(1, 2) : 1; p.cfg["hpp"] = 1; p.cfg["nact"] = r.range(2, 5); p.cfg["same_tid"] = r.chance(0.7);
		p.cfg["n"] = kind == SEM ? r.range(1, 2) : 1; p.cfg["manual"] = r.chance(0.4); p.cfg["prefire"] = r.chance(0.2);
		p.cfg["cond_consume"] = r.chance(0.2);
		if (r.chance(0.3)) p.cfg["f.spurious-wakeup"] = 30000;
		if (r.chance(0.3)) p.cfg["f.clock-fail"] = r.chance(0.5) ? 60000 : 400000;
		int na = (int)p.cfg["nact"];
		static const long long wl[] = {0, 0, 0, 40, 60, 100, 150, 250, 999, 1000, 1001, 1500, 2500, 61000, 5000000, 4294967294LL};
		static const long long hl[] = {60000, 90000, 130000, 300000, 1100000, 2000000};
		for (int a = 0; a < na; a++) {
			int k = (int)r.range(1, 3);
			for (int i = 0; i < k; i++) {
				p.add(a, "sleep", {r.chance(0.3) ? 1 : r.range(1, 700000)});
				if (kind == EVENT) { double x = (double)r.below(100); if (x < 60) p.add(a, "wait", {wl[r.below(13)]}); else if (x < 90) p.add(a, "fire"); else p.add(a, "reset"); }
				else { p.add(a, kind == RW && r.chance(0.5) ? "wlock" : "lock", {wl[r.below(16)]}); p.add(a, "hold", {r.pick(hl)}); p.add(a, "rel"); }
			}
		}
	}
	void ask(int a, bool wr, uint32_t w) {
		u64 cf0 = g_clock_fail_count;
		for (int i = 0; i < nact; i++) if (ws[i].waiting) { ws[i].alone = false; }
		bool alone = true; for (int i = 0; i < nact; i++) if (i != a && ws[i].waiting) alone = false;
		ws[a].waiting = true; ws[a].alone = alone;
		int h0 = holders;
		begin(a, kind == EVENT ? "wait" : wr ? "write-lock" : "lock", w);
		void *h = hof(a); int r;
		if (kind == MUTEX) r = g_mutex_lock(h, w); else if (kind == SEM) r = g_sem_lock(h, w); else if (kind == EVENT) r = g_event_wait(h, w); else r = wr ? g_rw_wlock(h, w) : g_rw_rlock(h, w);
		u64 t0 = calls[a].t0, el = now_us() - t0, lim = (u64)w * 1000;
		end(a, r); ws[a].waiting = false;
		bool cf = g_clock_fail_count != cf0;
		if (w == INF) { if (!r && !cf) violate("lock-failed", "call without time limit returned false"); }
		else if (w == 0) { if (el > 8000) violate("zero-wait-blocked", "a wait of zero returned only after %llu us", (unsigned long long)el); probe(r ? "zero-wait-true" : "zero-wait-false"); }
		else {
			if (el > lim + 25000 && !(cf && kind == RW)) violate("wait-too-long", "a wait of %u ms returned %d after %llu us", w, r, (unsigned long long)el);
			if (!r && !cf && el + 3500 < lim) violate("wait-too-short", "a wait of %u ms gave up after %llu us", w, (unsigned long long)el);
			if (!r) probe("timed-out"); else if (el > 5000) probe("obtained-after-waiting");
			if (cf) probe("clock-failed-in-call");
		}
		if (!r && w == 0 && h0 == 0 && ws[a].alone && !calls[a].overlap && !cf && kind != EVENT) violate("zero-wait-refused", "a wait of zero failed on a free object");
		if (r && ws[a].alone && w) { u64 from = lastrel > t0 ? lastrel : t0; if (now_us() > from + 20000) violate("late-success", "obtained %llu us after the object became available", (unsigned long long)(now_us() - from)); }
		if (r && kind != EVENT) { have[a] = wr ? 2 : 1; holders++; }
	}
	void rel(int a) {
		if (!have[a]) return;
		bool wr = have[a] == 2; have[a] = 0; holders--;
		void *h = hof(a); int r;
		begin(a, "release", 0); lastrel = now_us();
		if (kind == MUTEX) r = g_mutex_unlock(h, 0); else if (kind == SEM) r = g_sem_unlock(h, nullptr); else r = wr ? g_rw_wunlock(h) : g_rw_runlock(h);
		lastrel = now_us(); u64 el = lastrel - calls[a].t0; end(a, r);
		if (!r) violate("unlock-refused", "release returned false");
		if (el > 8000) violate("release-blocked", "a release took %llu us", (unsigned long long)el);
	}
	void act(int a, const Op &o) override {
		if (o.name == "sleep" ) sleep_us((u64)o.arg(0));
		else if (o.name == "hold") { if (have[a]) sleep_us((u64)o.arg(0)); }
		else if (o.name == "lock") { if (!have[a]) ask(a, false, wv(o.arg(0))); }
		else if (o.name == "wlock") { if (!have[a]) ask(a, true, wv(o.arg(0))); }
		else if (o.name == "wait") ask(a, false, wv(o.arg(0)));
		else if (o.name == "rel") rel(a);
		else if (o.name == "fire" || o.name == "reset") { bool f = o.name == "fire"; begin(a, o.name.c_str(), 0); if (f) lastrel = now_us(); u64 t = now_us(); int r = f ? g_event_fire(hof(a)) : g_event_reset(hof(a)); if (f) lastrel = now_us(); u64 el = now_us() - t; end(a, r); if (f && !r) violate("fire-failed", "fire returned false"); if (el > 8000) violate("release-blocked", "%s took %llu us", o.name.c_str(), (unsigned long long)el); }
	}
	void drain(int a) override { rel(a); }
	void final_check() override {
		spawn(fp, [this] {
			void *h = fh;
			for (int k = 0; k < 2; k++) {
				if (kind == MUTEX) { if (!g_mutex_lock(h, k ? 50 : 0)) violate("not-usable", "free mutex cannot be locked at the end"); g_mutex_unlock(h, 0); }
				else if (kind == SEM) { for (int i = 0; i < N; i++) if (!g_sem_lock(h, k ? 50 : 0)) violate("not-usable", "only %d of %d permits left at the end", i, N); if (g_sem_lock(h, 0)) violate("not-usable", "too many permits at the end"); for (int i = 0; i < N; i++) g_sem_unlock(h, nullptr); }
				else if (kind == EVENT) { if (!g_event_fire(h)) violate("not-usable", "fire fails at the end"); if (!g_event_wait(h, k ? 50 : 0)) violate("not-usable", "wait refused on a fired event at the end"); }
				else { if (!g_rw_wlock(h, k ? 50 : 0)) violate("not-usable", "write lock refused at the end"); g_rw_wunlock(h); for (int i = 0; i < 2; i++) if (!g_rw_rlock(h, k ? 50 : 0)) violate("not-usable", "read lock refused at the end"); g_rw_runlock(h); g_rw_runlock(h); }
			}
		});
		GoResult g = go(); if (g == GO_STUCK || g == GO_LIMIT) violate("not-usable", "the object can no longer be used: a call does not return");
	}
};
#define MKT(K) [] () -> Harness * { return new TimeH(K); }
AddReg r06a("C06", "mutex", MKT(MUTEX));
AddReg r06b("C06", "semaphore", MKT(SEM));
AddReg r06c("C06", "event", MKT(EVENT));
AddReg r06d("C06", "rwlock", MKT(RW), 2);

template <class T> struct Mk { template <int I> static Harness *make(); };
#define MK(T, PROP) [] () -> Harness * { return new T(PROP); }
AddReg r01("C01", "mutex", MK(MutexH, "C01"));
AddReg r02("C02", "semaphore", MK(SemH, "C02"));
AddReg r03a("C03", "mutex", MK(MutexH, "C03"));
AddReg r03b("C03", "semaphore", MK(SemH, "C03"));
AddReg r03c("C03", "event", MK(EventH, "C03"));
AddReg r03d("C03", "rwlock", MK(RWH, "C03"));
AddReg r04("C04", "event", MK(EventH, "C04"));
AddReg r05a("C05", "rwlock", MK(RWH, "C05"), 4);
AddReg r10a("C10", "mutex", MK(MutexH, "C10"));
AddReg r10b("C10", "semaphore", MK(SemH, "C10"));
AddReg r10c("C10", "event", MK(EventH, "C10"));
AddReg r10d("C10", "rwlock", MK(RWH, "C10"));
AddReg r05b("C05", "starvation", MK(StarveH, "C05"));
}
