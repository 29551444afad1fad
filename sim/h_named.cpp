// Named objects: rendezvous, independence, life cycle, failing creation, shared memory (C07, C08, C09, part of C10).
#include "os.h"
#include "glue.h"
#include <cstring>
#include <algorithm>
#include <set>
#include <unordered_set>
using namespace sim;

namespace {
const uint32_t INF = 0xFFFFFFFFu;
enum Kind { MUTEX, SEM, EVENT, RW, SHM };
const char *KN[] = {"mutex", "semaphore", "event", "rwlock", "sharedmem"};

// names; no two differ only by slash/backslash/underscore, and at most one of a run is longer than 200 bytes
std::string name_of(int i) {
	if (i >= 30000) {       // names that begin with digits, so that they might run together with a size before them
		i -= 30000; std::string b = "n" + std::to_string(i / 400); int d = i % 400 / 4;
		switch (i % 4) { case 0: return b; case 1: return std::to_string(d % 10) + b; case 2: return (d < 10 ? "0" : "") + std::to_string(d) + b; }
		return "-4-" + std::to_string(d * 4) + "-" + b;
	}
	static const char *s[] = {"a", "b", "ab", "ba", "A", "a1", "1a", "x/y", "x/z", "/lead", "back\\slash", "two words", "\xc3\xa9t\xc3\xa9", "-", "-1-", "0", "simobj", "simobk", "rimobj", "simobj2"};
	int n = (int)(sizeof s / sizeof *s);
	if (i < n) return s[i];
	i -= n;
	if (i == 0) return std::string(199, 'q') + "r";
	if (i == 1) return std::string(199, 'q') + "s";
	if (i == 2) return "r" + std::string(199, 'q');
	if (i >= 10) {          // families of close relatives
		i -= 10; Rng g((u64)(i / 8) + 77); static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-. +#~\x80\xff\xc3";
		std::string r; size_t n = (size_t)g.range(2, 6); if (g.chance(0.4)) n = (size_t)g.range(7, 198); for (size_t k = 0; k < n; k++) r += al[g.below(sizeof al - 1)];
		size_t q = (size_t)g.below(n); char c = al[g.below(52)];
		switch (i % 8) { case 1: r.pop_back(); break; case 2: r += c; break; case 3: r[0] = r[0] == c ? '!' : c; break; case 4: r[q] = r[q] == '%' ? '&' : '%'; break; case 5: r.insert(q, "\xc3\xa9"); break; case 6: if (n > 1 && r[n - 1] != r[n - 2]) std::swap(r[n - 1], r[n - 2]); else r += "=="; break; case 7: r[q] = (char)(r[q] ^ 0x80 ? r[q] ^ 0x80 : '$'); if (r[q] == '/' || r[q] == '\\' || r[q] == '_') r[q] = '$'; break; }
		return r;
	}
	static const int ln[] = {240, 254, 255, 256, 300, 700, 2000};
	std::string r; for (int k = 0; k < ln[i - 3]; k++) r += (char)(33 + (k * 7 + i) % 90);
	return r;
}
const int NSHORT = 23, NLONG = 7;
const long long MANY[] = {256, 256, 512, 128, 1024};
const long long SIZES[] = {1, 13, 40, 101, 1000, 4032, 4040, 4048, 4056, 4064, 4097, 8144, 8152, 10000, 70000};

void *obj_new(int k) { switch (k) { case MUTEX: return g_mutex_new(); case SEM: return g_sem_new(); case EVENT: return g_event_new(); case RW: return g_rw_new(); } return g_shm_new(); }
void obj_del(int k, void *h) { switch (k) { case MUTEX: g_mutex_del(h); break; case SEM: g_sem_del(h); break; case EVENT: g_event_del(h); break; case RW: g_rw_del(h); break; default: g_shm_del(h); } }
// a: permits | manual | size; b: prefire
int obj_create(int k, void *h, const char *nm, long long a, long long b) {
	switch (k) { case MUTEX: return g_mutex_create(h, nm); case SEM: return g_sem_create(h, nm, (int)a); case EVENT: return g_event_create(h, nm, (int)a, (int)b); case RW: return g_rw_create(h, nm); }
	return g_shm_create(h, nm, (size_t)a);
}

// State of one object, as the documentation describes it.
struct Model {
	int refs = 0;
	int owner_h = -1, owner_a = -1, depth = 0;          // mutex
	long long n = 0, cnt = 0;                            // semaphore
	bool manual = false, sig = false;                    // event
	int readers = 0, writer = -1;                        // rwlock (writer: handle)
	std::vector<int> rdh;
	std::string mem;                                     // shared memory
	void fresh(int k, long long a, long long b, int nh) {
		owner_h = owner_a = -1; depth = 0; n = cnt = a; manual = a; sig = b; readers = 0; writer = -1; rdh.assign(nh, 0);
		if (k == SHM) mem.assign(cut((size_t)a), '\0');
	}
	// of a huge block only the first and last bytes are looked at
	static size_t cut(size_t a) { return a > (1u << 20) ? 8192 : a; }
	static size_t at(size_t size, size_t i) { return size > (1u << 20) && i >= 4096 ? size - 8192 + i : i; }
};

// processes of different users, with different file creation masks
const long long MASKS[] = {022, 022, 077, 027, 0, 0777};
void gen_users(Rng &r, Plan &p, int np) { bool u = r.chance(0.3), m = r.chance(0.5); for (int i = 0; i < np; i++) { if (u) p.cfg["uid" + std::to_string(i)] = 1000 + (long long)r.below(3); if (m) p.cfg["mask" + std::to_string(i)] = r.pick(MASKS); } }
void set_user(Plan &p, int i, int pid) { set_proc_user(pid, (unsigned)p.get("uid" + std::to_string(i), 1000), (mode_t)(p.get("mask" + std::to_string(i), 022) & 0777)); }
void check_mask(Plan &p, int i, int pid) { if (proc_umask(pid) != (mode_t)(p.get("mask" + std::to_string(i), 022) & 0777)) violate("mask", "the process's file creation mask is %03o after creating an object, it was %03llo", (unsigned)proc_umask(pid), (unsigned long long)p.get("mask" + std::to_string(i), 022)); }

// -------------------------------------------------------------------------------- sequential histories, exact model
// Every operation has its own time slot, so operations never overlap; several processes and threads take part.
struct SeqH : Harness {
	std::string prop;
	Plan *P = nullptr;
	struct Handle { int kind; int proc; void *h = nullptr; bool open = false; bool named = false; int m = -1; std::string name; long long ca = 0, cb = 0; u64 maps = 0; u64 gen = 0; long long sz = 0; };
	std::vector<Handle> hs; std::vector<Model> ms; std::map<std::string, int> ids; std::vector<int> pid; std::vector<bool> dead;
	std::vector<int> aproc;
	std::vector<int> held;              // per process: things held (for deaths)
	int nh = 0, na = 0, np = 0; u64 base = 0;
	SeqH(const char *p) : prop(p) {}
	void gen(Rng &r, Plan &p) override {
		np = (int)r.range(1, 3); na = np + (int)r.below(2); nh = (int)r.range(2, 6);
		if (prop == "C10") { np = (int)r.range(2, 3); na = np; nh = (int)r.range(np, 6); }
		p.cfg["nproc"] = np; p.cfg["nact"] = na; p.cfg["nh"] = nh; p.cfg["same_tid"] = r.chance(0.7);
		gen_users(r, p, np);
		int onek = r.chance(0.5) ? (int)r.below(5) : -1;
		if (prop == "C09") onek = SHM;
		for (int i = 0; i < nh; i++) p.cfg["k" + std::to_string(i)] = onek >= 0 ? onek : (int)r.below(5);
		int nn = (int)r.range(1, prop == "C07" ? 4 : 2); std::vector<int> names;
		// one name, or a few (often close relatives)
		int b = (int)r.below(NSHORT);
		for (int i = 0; i < nn; i++) names.push_back(r.chance(0.5) ? (b + i) % NSHORT : (int)r.below(NSHORT));
		if (r.chance(prop == "C07" ? 0.5 : 0.1)) { int f = (int)r.below(400); for (auto &x : names) x = NSHORT + NLONG + f * 8 + (int)r.below(8); }
		if (r.chance(0.3)) names[0] = NSHORT + (int)r.below(NLONG);
		long long sz[2] = {r.pick(SIZES), r.pick(SIZES)};
		if (prop == "C07" && r.chance(0.1)) {
			int f = (int)r.below(3) * 400 + (int)r.below(100) * 4, d = f % 400 / 4, w = r.chance(0.5) ? 10 : 100; for (auto &x : names) x = 30000 + f + (r.chance(0.45) ? 0 : r.chance(0.8) ? (w == 10 ? 1 : 2) : 3);
			long long t = r.range(14, 300) * 4; sz[0] = t - 48; sz[1] = t * w + d % w - 48; if (sz[0] < 1) sz[0] = 1;
			for (int h = 0; h < nh; h++) if (r.chance(0.8)) p.cfg["k" + std::to_string(h)] = SHM;
		}
		if (prop == "C07" && r.chance(0.01)) {
			// huge blocks, one and the same name
			static const long long big[] = {0x100000000LL, 0x200000000LL, 0x80000000LL, 0x180000000LL, 0x1000000000LL};
			sz[0] = r.pick(SIZES) + (r.chance(0.3) ? r.pick(big) : 0); sz[1] = sz[0] + r.pick(big); p.cfg["huge"] = 1;
			for (int h = 0; h < nh; h++) { p.cfg["k" + std::to_string(h)] = SHM; names.resize(1); }
			int i = 0;
			for (int h = 0; h < nh; h++) { p.add(h % np, "create", {i++, h, names[0], sz[r.below(2)], 0, 0}); int k = (int)r.below(3); while (k--) { int u = (int)r.below(h + 1); p.add(u % np, "use", {i++, u, (long long)r.below(100), (long long)r.below(1000000)}); } }
			return;
		}
		if ((prop == "C08" || prop == "C10") && r.chance(0.001)) {
			// hundreds of handles on one object
			int i = 0, k = onek >= 0 ? onek : (int)r.below(5); for (int h = 0; h < nh; h++) p.cfg["k" + std::to_string(h)] = k; auto cr = [&](int h) { p.add(h % np, "create", {i++, h, names[0], k == SEM ? r.range(1, 3) : k == EVENT ? (long long)r.below(2) : k == SHM ? sz[0] : 0, (long long)r.below(2), 0}); }; auto us = [&](int h, int n) { while (n--) p.add(h % np, "use", {i++, h, (long long)r.below(100), (long long)r.below(1000000)}); };
			int v = np > 1 && prop == "C10" && r.chance(0.5) ? 1 : 0; cr(v); us(v, (int)r.range(1, 3)); p.add(v % np, "many", {i, v, r.pick(MANY) - r.range(0, 1)}); i += 12; us(v, 1);
			int w = 1 - v; if (v && r.chance(0.5)) { p.add(1, "die", {i++}); } cr(w); us(w, 2); us(v, 2); if (r.chance(0.5)) { p.add(v % np, "fewer", {i, v}); i += 12; us(w, 2); us(v, 1); } if (nh > 2) { cr(2); us(2, 2); }
			return;
		}
		bool ff = prop == "C08" || prop == "C09";
		if (ff && r.chance(0.7)) { static const char *fk[] = {"shm-open-fail", "ftruncate-fail", "mmap-fail", "shm-access-fail"}; for (auto k : fk) if (r.chance(0.5)) p.cfg[std::string("f.") + k] = r.chance(0.5) ? 300000 : r.chance(0.5) ? 700000 : 1000000; }
		if (r.chance(0.3)) { p.cfg["f.eintr"] = 200000; p.cfg["f.eintr-close"] = 100000; }
		int n = (int)r.range(4, 34);
		std::vector<bool> op(nh, false);
		for (int i = 0; i < n; i++) {
			int h = (int)r.below(nh), k = (int)p.cfg["k" + std::to_string(h)];
			// the acting thread belongs to the handle's process
			int pr = h % np, a = pr; if (na > np && pr == 0 && r.chance(0.4)) a = np;
			double x = (double)r.below(100);
			if (prop == "C10" && x > 94 && i > n / 3) { p.add(1 + (int)r.below(np - 1), "die", {i}); continue; }
			if (!op[h] && x > 92) p.add(a, "use", {i, h, (long long)r.below(100), 0});
			else if (!op[h] || x < 10) {
				long long A = 0, B = 0;
				if (k == SEM) A = r.range(1, 3); else if (k == EVENT) { A = r.below(2); B = r.below(2); } else if (k == SHM) { A = sz[r.below(prop == "C07" ? 2 : r.chance(0.8) ? 1 : 2)]; if (prop == "C09" && r.chance(0.01)) A = -r.range(1, r.chance(0.5) ? 60 : 500); }
				int nm = r.chance(k == SHM ? 0.03 : 0.1) ? -1 : names[r.below(names.size())];
				p.add(a, "create", {i, h, nm, A, B, ff && r.chance(0.5)}); op[h] = true;
			} else if (x < 22) { p.add(a, "close", {i, h}); op[h] = false; }
			else p.add(a, "use", {i, h, (long long)r.below(100), (long long)r.below(1000000)});
		}
	}
	void let_go(int hi) {     // model: handle lets go of its object
		Handle &H = hs[hi]; if (!H.open) return;
		Model &m = ms[H.m];
		if (H.kind == MUTEX && m.owner_h == hi) { m.owner_h = m.owner_a = -1; m.depth = 0; held[H.proc]--; }
		if (H.kind == RW) { if (m.writer == hi) held[H.proc]--; held[H.proc] -= m.rdh[hi]; }
		m.refs--; H.open = false; H.m = -1;
	}
	// the thread's handle use must be legitimate: a mutex owned through this handle by another thread is not closed under it
	bool owned_by_other(int hi, int a) { Handle &H = hs[hi]; return H.open && H.kind == MUTEX && ms[H.m].owner_h == hi && ms[H.m].owner_a != a; }
	void do_create(int a, const Op &o) {
		int hi = (int)o.arg(1); Handle &H = hs[hi]; int nm = (int)o.arg(2); long long A = o.arg(3), B = o.arg(4);
		if (owned_by_other(hi, a)) return;
		if (!H.h) H.h = obj_new(H.kind);
		if (H.kind == SHM && nm < 0) { if (H.open) return; if (g_shm_create(H.h, nullptr, (size_t)A)) violate("no-name", "shared memory without a name was created"); unusable(H, 0); return; }
		std::string name = nm < 0 ? "" : name_of(nm);
		if (H.kind == SHM && A < 0) {       // more than there is memory
			if (H.open) return;
			u64 mp = live_mappings(pid[H.proc]), fd = fd_count(pid[H.proc]); size_t want = (size_t)1 << 63; want = A < -100 ? want + (size_t)(-A) - 200 : (size_t)A;
			int r = g_shm_create(H.h, name.c_str(), want); ev("create a block of %zu bytes -> %d", want, r); probe("refused-size");
			if (r) violate("size", "a block of %zu bytes was created", want);
			if (live_mappings(pid[H.proc]) != mp || fd_count(pid[H.proc]) != fd) violate("leak", "a refused creation leaves memory mapped or a descriptor open");
			unusable(H, 0); return;
		}
		u64 maps0 = live_mappings(pid[H.proc]), fd0 = fd_count(pid[H.proc]), hf0 = hard_faults(), old = H.open ? H.maps : 0;
		g_faults.on = o.arg(5);
		bool rec = H.open;
		ev("create %s on handle %d name #%d (%lld,%lld)%s", KN[H.kind], hi, nm, A, B, rec ? ", was open" : "");
		u64 t0 = now_us();
		int r = obj_create(H.kind, H.h, nm < 0 ? nullptr : name.c_str(), A, B);
		g_faults.on = false;
		ev("create -> %d", r);
		if (now_us() - t0 > 60000) violate("create-slow", "creating alone took %llu us", (unsigned long long)(now_us() - t0));
		bool hf = hard_faults() != hf0;
		let_go(hi);
		if (fd_count(pid[H.proc]) != fd0) violate("leak", "a descriptor is left open by creating a %s", KN[H.kind]);
		check_mask(*P, H.proc, pid[H.proc]);
		if (!r) {
			if (!hf) violate("create-failed", "creating a %s failed although the system refused nothing", KN[H.kind]);
			probe("create-refused");
			if (live_mappings(pid[H.proc]) != maps0 - old) violate("leak", "a failed creation of a %s leaves memory mapped", KN[H.kind]);
			return;
		}
		if (rec) probe("created-again-on-open-handle");
		std::string key = std::to_string(H.kind) + ":" + (H.kind == SHM ? std::to_string(A) : "") + ":" + (nm < 0 ? "private" + std::to_string(ms.size()) : name);
		auto it = ids.find(key); int mi;
		if (it == ids.end()) { mi = (int)ms.size(); ms.push_back(Model()); ids[key] = mi; } else mi = it->second;
		Model &m = ms[mi];
		bool first = m.refs == 0;
		if (first) m.fresh(H.kind, A, B, nh);
		else probe("joined");
		m.refs++; H.open = true; H.named = nm >= 0; H.name = name; H.ca = A; H.cb = B; H.m = mi; H.sz = A; H.maps = live_mappings(pid[H.proc]) - (maps0 - old);
		if (H.kind == SHM) {
			if ((g_shm_first(H.h) != 0) != first) violate(first ? "first-missing" : "first-twice", first ? "nobody uses the block but its creator is not told it is the first" : "a block in use reports another first creator");
			if (g_shm_size(H.h) != (size_t)A) violate("size", "block of %lld bytes reports %zu", A, g_shm_size(H.h));
			readall(hi);
		}
	}
	// many more handles on the object of one, up to a number of users
	std::vector<std::vector<std::pair<int, void *>>> extra;
	void do_many(const Op &o) {
		int hi = (int)o.arg(1); Handle &H = hs[hi]; if (!H.open || !H.named) return; Model &m = ms[H.m]; probe("many");
		while (m.refs < (int)std::min(o.arg(2), 2000LL)) { void *h = obj_new(H.kind); if (!obj_create(H.kind, h, H.name.c_str(), H.ca, !H.cb)) violate("create-failed", "creating handle %d of a %s fails", m.refs + 1, KN[H.kind]); m.refs++; extra[(size_t)H.proc].push_back({H.kind, h}); if (H.kind == SHM && g_shm_first(h)) violate("first-twice", "a block in use reports another first creator"); }
		if (H.kind == SHM) readall(hi);
	}
	void do_fewer(const Op &o) { int hi = (int)o.arg(1); Handle &H = hs[hi]; if (!H.open || !H.named) return; Model &m = ms[H.m]; auto &x = extra[(size_t)H.proc]; while (!x.empty()) { obj_del(x.back().first, x.back().second); x.pop_back(); m.refs--; } }
	void readall(int hi) {
		Handle &H = hs[hi]; Model &m = ms[H.m];
		char *d = g_shm_data(H.h); check_access(d, (size_t)H.sz, false, "the block");
		if (m.mem.size() != (size_t)H.sz) { probe("huge-block"); for (size_t i = 0; i < m.mem.size(); i++) if (d[Model::at((size_t)H.sz, i)] != m.mem[i]) violate("content", "byte %zu of the block is %d, should be %d", Model::at((size_t)H.sz, i), (unsigned char)d[Model::at((size_t)H.sz, i)], (unsigned char)m.mem[i]); }
		else if (memcmp(d, m.mem.data(), m.mem.size())) { size_t i = 0; while (d[i] == m.mem[i]) i++; violate("content", "byte %zu of the block is %d, should be %d", i, (unsigned char)d[i], (unsigned char)m.mem[i]); }
	}
	void do_close(int a, const Op &o) {
		int hi = (int)o.arg(1); Handle &H = hs[hi];
		if (!H.h || owned_by_other(hi, a)) return;
		u64 maps0 = live_mappings(pid[H.proc]), old = H.open ? H.maps : 0;
		ev("close handle %d (%s)", hi, KN[H.kind]);
		if (H.open && H.kind == MUTEX && ms[H.m].owner_h == hi) probe("closed-owning");
		let_go(hi);
		obj_del(H.kind, H.h); H.h = nullptr;
		if (live_mappings(pid[H.proc]) != maps0 - old) violate("leak", "closing a %s leaves memory mapped", KN[H.kind]);
	}
	// an object never created, or whose creation failed, refuses everything
	void unusable(Handle &H, int x) {
		if (!H.h) H.h = obj_new(H.kind);
		uint32_t w = x % 3 == 0 ? 0 : x % 3 == 1 ? 30 : INF; u64 t0 = now_us(); int r = 0, prev = -7;
		ev("use of a %s that is not created", KN[H.kind]); probe("used-uncreated");
		switch (H.kind) {
		case MUTEX: r = x & 1 ? g_mutex_lock(H.h, w) : g_mutex_unlock(H.h, x & 2); break;
		case SEM: r = x & 1 ? g_sem_lock(H.h, w) : g_sem_unlock(H.h, x & 2 ? &prev : nullptr); break;
		case EVENT: r = x & 1 ? g_event_wait(H.h, w) : x & 2 ? g_event_fire(H.h) : g_event_reset(H.h); break;
		case RW: r = x & 1 ? (x & 2 ? g_rw_wlock(H.h, w) : g_rw_rlock(H.h, w)) : x & 2 ? g_rw_wunlock(H.h) : g_rw_runlock(H.h); break;
		default: r = g_shm_first(H.h) || g_shm_data(H.h); }
		if (r) violate("not-created", "using a %s that was not created reports success", KN[H.kind]);
		if (now_us() - t0 > 8000) violate("not-created", "using a %s that was not created waits", KN[H.kind]);
	}
	void do_use(int a, const Op &o) {
		int hi = (int)o.arg(1); Handle &H = hs[hi]; if (!H.open) { unusable(H, (int)o.arg(2)); return; }
		Model &m = ms[H.m]; int x = (int)o.arg(2), r; long long v = o.arg(3);
		switch (H.kind) {
		case MUTEX:
			if (m.owner_a == a && m.owner_h != hi && m.owner_h >= 0) return;    // same thread through another handle: not specified
			if (x < 60) {
				bool want = m.owner_h < 0 || (m.owner_h == hi && m.owner_a == a);
				r = g_mutex_lock(H.h, 0); ev("lock(0) handle %d -> %d", hi, r);
				if ((r != 0) != want) violate("mutex", "lock(0) returned %d, expected %d", r, (int)want);
				if (r) { if (m.owner_h < 0) held[H.proc]++; m.owner_h = hi; m.owner_a = a; m.depth++; }
			} else {
				bool want = m.owner_h == hi && m.owner_a == a, all = x > 85;
				r = g_mutex_unlock(H.h, all); ev("unlock handle %d -> %d", hi, r);
				if ((r != 0) != want) violate("mutex", "unlock returned %d, expected %d", r, (int)want);
				if (r) { m.depth = all ? 0 : m.depth - 1; if (!m.depth) { m.owner_h = m.owner_a = -1; held[H.proc]--; } }
			}
			break;
		case SEM:
			if (x < 55) {
				bool want = m.cnt > 0; r = g_sem_lock(H.h, 0); ev("lock(0) handle %d -> %d", hi, r);
				if ((r != 0) != want) violate("semaphore", "lock(0) returned %d with %lld of %lld permits free", r, m.cnt, m.n);
				if (r) { m.cnt--; held[H.proc]++; }
			} else {
				int prev = -1; r = g_sem_unlock(H.h, &prev); ev("unlock handle %d -> %d prev %d", hi, r, prev);
				if (!r || prev != m.cnt) violate("semaphore", "unlock returned %d, previous count %d, expected %lld", r, prev, m.cnt);
				if (m.cnt < m.n) { m.cnt++; if (held[H.proc] > 0) held[H.proc]--; }
			}
			break;
		case EVENT:
			if (x < 45) { bool want = m.sig; r = g_event_wait(H.h, 0); ev("wait(0) handle %d -> %d", hi, r); if ((r != 0) != want) violate("event", "wait(0) returned %d on a%s event", r, want ? " fired" : "n unfired"); if (r && !m.manual) m.sig = false; }
			else if (x < 75) { r = g_event_fire(H.h); ev("fire handle %d -> %d", hi, r); if (!r) violate("event", "fire returned false"); m.sig = true; }
			else { r = g_event_reset(H.h); ev("reset handle %d -> %d", hi, r); if ((r != 0) != m.manual) violate("event", "reset of a%s event returned %d", m.manual ? " manual" : "n automatic", r); if (r) m.sig = false; }
			break;
		case RW:
			if (x < 30) { bool want = m.writer < 0; r = g_rw_rlock(H.h, 0); ev("read-lock(0) handle %d -> %d", hi, r); if ((r != 0) != want) violate("rwlock", "read lock(0) returned %d, expected %d", r, (int)want); if (r) { m.readers++; m.rdh[hi]++; held[H.proc]++; } }
			else if (x < 60) { bool want = m.writer < 0 && !m.readers; r = g_rw_wlock(H.h, 0); ev("write-lock(0) handle %d -> %d", hi, r); if ((r != 0) != want) violate("rwlock", "write lock(0) returned %d, expected %d", r, (int)want); if (r) { m.writer = hi; held[H.proc]++; } }
			else if (m.writer == hi) { r = g_rw_wunlock(H.h); if (!r) violate("rwlock", "write unlock returned false"); m.writer = -1; held[H.proc]--; }
			else if (m.rdh[hi]) { r = g_rw_runlock(H.h); if (!r) violate("rwlock", "read unlock returned false"); m.readers--; m.rdh[hi]--; held[H.proc]--; }
			else if (!m.readers) { r = g_rw_runlock(H.h); if (r) violate("rwlock", "read unlock without a reader returned true"); }
			break;
		default: {
			readall(hi);
			if (x < 60) {
				size_t off = (size_t)v % m.mem.size(), len = std::min<size_t>(m.mem.size() - off, 1 + (size_t)(v / 7) % 600);
				if (x < 10) { off = 0; len = m.mem.size(); }
				char *d = g_shm_data(H.h); check_access(d, (size_t)H.sz, true, "the block");
				for (size_t i = off; i < off + len; i++) d[Model::at((size_t)H.sz, i)] = m.mem[i] = (char)(v + i * 3 + 1);
			}
			if ((g_shm_first(H.h) != 0) != (H.gen != 0)) {}
		}
		}
	}
	void run(Plan &p) override {
		P = &p; np = (int)p.get("nproc", 1); na = (int)p.get("nact", 1); nh = (int)p.get("nh", 1);
		set_step_limit(4000000);
		pid.push_back(0); for (int i = 1; i < np; i++) pid.push_back(new_proc());
		dead.assign(np, false); held.assign(np, 0); extra.assign((size_t)np, {}); for (int i = 0; i < np; i++) set_user(p, i, pid[i]);
		for (int i = 0; i < nh; i++) { Handle H; H.kind = (int)p.get("k" + std::to_string(i)); H.proc = i % np; hs.push_back(H); }
		base = now_us();
		for (int a = 0; a < na; a++) {
			aproc.push_back(a < np ? a : 0);
			bool any = false; for (auto &o : p.ops) if (o.actor == a) any = true;
			if (!any) continue;
			spawn(pid[aproc[a]], [this, a] {
				for (auto &o : P->ops) if (o.actor == a) {
					u64 t = base + 10000 + (u64)o.arg(0) * 100000; if (now_us() < t) sleep_us(t - now_us());
					if (o.name == "create") do_create(a, o); else if (o.name == "close") do_close(a, o); else if (o.name == "use") do_use(a, o); else if (o.name == "many") do_many(o); else if (o.name == "fewer") do_fewer(o);
					else if (o.name == "die" && !held[aproc[a]]) {
						ev("process dies"); probe("process-death"); fired("process-death");
						dead[aproc[a]] = true; kill_proc(cur_proc());
					}
				}
			});
		}
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a call that need not wait does not return"); return; }
		// a newcomer checks the state of every object still or no longer in use
		if ((prop == "C10" || prop == "C07") && !p.get("huge")) newcomer();
		if (g_viol.set) return;
		bool deaths = false; for (bool d : dead) if (d) deaths = true;
		for (int pr = 0; pr < np; pr++) if (!dead[pr]) spawn(pid[pr], [this, pr] { for (auto &x : extra[(size_t)pr]) obj_del(x.first, x.second); for (int i = 0; i < nh; i++) if (hs[i].proc == pr && hs[i].h) { obj_del(hs[i].kind, hs[i].h); hs[i].h = nullptr; } });
		g = go(); if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("close-stuck", "closing does not finish"); return; }
		for (int pr = 0; pr < np; pr++) if (!dead[pr]) {
			if (live_mappings(pid[pr])) { violate("leak", "%llu area(s) still mapped after closing everything", (unsigned long long)live_mappings(pid[pr])); return; }
			if (fd_count(pid[pr])) { violate("leak", "descriptors left open after closing everything"); return; }
		}
		if (!deaths && live_with_tag(1)) violate("leak", "%llu heap block(s) left after closing everything", (unsigned long long)live_with_tag(1));
	}
	void newcomer() {
		int q = new_proc();
		spawn(q, [this] {
			for (auto &id : ids) {
				if (id.first.find("private") != std::string::npos) continue;
				int k = id.first[0] - '0'; Model &m = ms[id.second];
				size_t c = id.first.find(':', 2); std::string name = id.first.substr(c + 1); long long A = k == SHM ? atoll(id.first.c_str() + 2) : k == SEM ? 7 : 1, B = 0;
				void *h = obj_new(k);
				if (!obj_create(k, h, name.c_str(), A, B)) violate("create-failed", "a later process cannot create the %s", KN[k]);
				bool fr = m.refs == 0; if (fr) m.fresh(k, A, B, nh);
				ev("newcomer looks at %s '%.20s' (%d in use)", KN[k], name.c_str(), m.refs);
				if (k == MUTEX) { bool want = m.owner_h < 0; int r = g_mutex_lock(h, 0); if ((r != 0) != want) violate("mutex", "a later process: lock(0) returned %d, expected %d", r, (int)want); if (r) g_mutex_unlock(h, 0); }
				else if (k == SEM) { int t = 0; while (t < 50 && g_sem_lock(h, 0)) t++; if (t != m.cnt) violate("semaphore", "a later process finds %d permits, expected %lld", t, m.cnt); for (int i = 0; i < t; i++) { int pv = -1; g_sem_unlock(h, &pv); if (pv != i) violate("semaphore", "previous count %d, expected %d", pv, i); } }
				else if (k == EVENT) { int r = g_event_wait(h, 0); if ((r != 0) != m.sig) violate("event", "a later process: wait(0) returned %d, expected %d", r, (int)m.sig); int r2 = g_event_wait(h, 0); if ((r2 != 0) != (m.sig && m.manual)) violate("event", "a later process: second wait(0) returned %d", r2); if (m.sig && !m.manual) g_event_fire(h); }
				else if (k == RW) { bool want = m.writer < 0 && !m.readers; int r = g_rw_wlock(h, 0); if ((r != 0) != want) violate("rwlock", "a later process: write lock(0) returned %d, expected %d", r, (int)want); if (r) g_rw_wunlock(h); want = m.writer < 0; r = g_rw_rlock(h, 0); if ((r != 0) != want) violate("rwlock", "a later process: read lock(0) returned %d, expected %d", r, (int)want); if (r) g_rw_runlock(h); }
				else { if ((g_shm_first(h) != 0) != fr) violate("first", "a later process is told %sfirst", fr ? "not " : ""); char *d = g_shm_data(h); check_access(d, m.mem.size(), false, "the block"); if (memcmp(d, m.mem.data(), m.mem.size())) violate("content", "a later process reads other bytes than were written"); }
				obj_del(k, h);
			}
		});
		GoResult g = go();
		if (g == GO_STUCK || g == GO_LIMIT) violate("create-stuck", "a later process hangs in a call that need not wait");
		if (!g_viol.set && (live_mappings(q) || fd_count(q))) violate("leak", "the later process has mappings or descriptors left");
	}
};

// -------------------------------------------------------------------------------- concurrent creation, use and closing of one name
struct StormH : Harness {
	std::string prop; Plan *P = nullptr; int kind = 0, np = 0; std::string name; long long A = 0, B = 0;
	std::vector<int> pid; std::vector<bool> dead;
	bool dirty = false, gate = false;
	int inside = 0, readers = 0, writer = 0, held = 0, ndone = 0; bool fired0 = false;
	// creation and closing intervals, for the count of first creators
	struct Iv { int type; u64 s, e; bool first; };
	std::vector<Iv> hist; u64 seq = 0;
	std::set<int> creating; int ticket = 0;
	std::string mem; int slots = 0;
	bool zero_ok = true;
	StormH(const char *p) : prop(p) {}
	void gen(Rng &r, Plan &p) override {
		np = (int)r.range(2, 4); p.cfg["nproc"] = np; p.cfg["kind"] = kind = prop == "C09" ? (int)SHM : (int)r.below(5);
		p.cfg["name"] = r.chance(0.8) ? (long long)r.below(NSHORT) : NSHORT + (long long)r.below(NLONG);
		p.cfg["a"] = kind == SEM ? r.range(1, 3) : kind == SHM ? r.pick(SIZES) : 0; p.cfg["b"] = 1;
		p.cfg["same_tid"] = r.chance(0.7); p.cfg["cond_consume"] = r.chance(0.3); gen_users(r, p, np); if (r.chance(0.3)) p.cfg["threads"] = 1;
		if (kind == EVENT && r.chance(0.5)) { p.cfg["gate"] = 1; p.cfg["a"] = 1; p.cfg["b"] = 0; }
		bool g8 = prop == "C08";
		if (g8) p.cfg["dirty"] = r.chance(0.5);
		if (!p.get("gate") && (g8 || prop == "C09") && r.chance(0.7)) { static const char *fk[] = {"shm-open-fail", "ftruncate-fail", "mmap-fail", "shm-access-fail"}; static const long long rt[] = {50000, 200000, 500000, 1000000}; for (auto k : fk) if (r.chance(0.5)) p.cfg[std::string("f.") + k] = r.pick(rt); }
		if (r.chance(0.4)) { p.cfg["f.eintr"] = 100000; p.cfg["f.eintr-sleep"] = 100000; p.cfg["f.eintr-close"] = 50000; }
		if (r.chance(0.4)) p.cfg["f.stall"] = r.chance(0.5) ? 5000 : 40000;
		if (r.chance(0.2)) p.cfg["f.spurious-wakeup"] = 30000;
		bool rdv = prop == "C07" && r.chance(0.4);
		for (int a = 0; a < np; a++) {
			int k = p.get("gate") ? 1 : rdv ? 1 : (int)r.range(1, 3);
			for (int i = 0; i < k; i++) {
				static const long long d[] = {0, 0, 5, 40, 200, 1500};
				p.add(a, "cycle", {r.pick(d), (long long)r.range(0, 2), r.pick(d), (long long)r.below(1000)});
			}
		}
	}
	int create(void *h) {
		u64 hf0 = hard_faults(); int t = ++ticket; creating.insert(t); u64 s = ++seq;
		ev("create begins");
		int r = obj_create(kind, h, name.c_str(), A, B);
		ev("create -> %d", r);
		if (!r) { creating.erase(t); if (hard_faults() == hf0) violate("create-failed", "creating a %s failed although the system refused nothing in this call", KN[kind]); probe("create-refused"); return 0; }
		if (kind == SHM) {
			bool f = g_shm_first(h) != 0; hist.push_back({0, s, ++seq, f});
			char *d = g_shm_data(h); check_access(d, (size_t)A, false, "the block");
			if (f) { for (long long i = 0; i < A; i++) if (d[i]) violate("not-zero", "the first creator finds byte %lld set to %d", i, (unsigned char)d[i]); mem.assign((size_t)A, 0); probe("first-creator"); creating.erase(t); }
			else { creating.erase(t); probe("joined"); std::vector<int> w(creating.begin(), creating.end()); for (int x : w) while (creating.count(x)) sleep_us(40); }
		}
		creating.erase(t);
		return 1;
	}
	void cmp(void *h) { char *d = g_shm_data(h); check_access(d, (size_t)A, false, "the block"); if (memcmp(d, mem.data(), (size_t)A)) { size_t i = 0; while (d[i] == mem[i]) i++; violate("content", "byte %zu of the block is %d, should be %d", i, (unsigned char)d[i], (unsigned char)mem[i]); } }
	void use(int a, void *h, long long rnd) {
		uint32_t w = dirty ? (rnd % 2 ? 0 : 20) : INF; int r;
		u64 us = 1 + (u64)rnd % 300;
		switch (kind) {
		case MUTEX:
			r = g_mutex_lock(h, w); if (!r) { if (w == INF) violate("lock-failed", "lock without limit failed"); return; }
			if (inside++) violate("mutual-exclusion", "two owners of one named mutex");
			sleep_us(us); if (inside != 1) violate("mutual-exclusion", "two owners of one named mutex"); inside--;
			if (dirty && rnd % 3 == 0) return;          // closes while owning
			if (!g_mutex_unlock(h, 0)) violate("unlock-refused", "unlock by the owner failed");
			break;
		case SEM:
			r = g_sem_lock(h, w); if (!r) { if (w == INF) violate("lock-failed", "lock without limit failed"); return; }
			if (++held > A) violate("too-many-holders", "%d holders of %lld permits", held, A);
			sleep_us(us); held--; if (dirty && rnd % 3 == 0) return;
			if (!g_sem_unlock(h, nullptr)) violate("unlock-refused", "unlock failed");
			break;
		case EVENT:
			if (gate) {
				if (a == 0) { sleep_us(us * 3); if (!g_event_fire(h)) violate("fire-failed", "fire failed"); fired0 = true; }
				else { r = g_event_wait(h, INF); if (!r) violate("wait-failed", "wait without limit failed"); if (!fired0 && !calls_fire) violate("event-early", "a wait passed before the event was fired"); }
				return;
			}
			r = g_event_wait(h, w); if (!r) { if (w == INF) violate("wait-failed", "wait without limit failed"); return; }
			if (inside++) violate("event-twice", "one fire let two waits through");
			sleep_us(us); inside--; if (dirty && rnd % 3 == 0) return;
			if (!g_event_fire(h)) violate("fire-failed", "fire failed");
			break;
		case RW:
			if (rnd % 2) {
				r = g_rw_rlock(h, w); if (!r) { if (w == INF) violate("lock-failed", "read lock without limit failed"); return; }
				readers++; if (writer) violate("reader-with-writer", "reader enters while a writer holds the lock"); sleep_us(us); if (writer) violate("reader-with-writer", "writer enters while a reader holds the lock"); readers--;
				if (dirty && rnd % 3 == 0) return;
				if (!g_rw_runlock(h)) violate("unlock-refused", "read unlock failed");
			} else {
				r = g_rw_wlock(h, w); if (!r) { if (w == INF) violate("lock-failed", "write lock without limit failed"); return; }
				if (writer || readers) violate("reader-with-writer", "writer enters a lock in use"); writer++; sleep_us(us); if (writer != 1 || readers) violate("reader-with-writer", "somebody enters while a writer holds the lock"); writer--;
				if (dirty && rnd % 3 == 0) return;
				if (!g_rw_wunlock(h)) violate("unlock-refused", "write unlock failed");
			}
			break;
		default: {
			cmp(h); char *d = g_shm_data(h);
			size_t off = (size_t)(rnd * 131 + a) % (size_t)A, len = std::min<size_t>((size_t)A - off, 1 + (size_t)rnd % 50);
			for (size_t i = off; i < off + len; i++) d[i] = mem[i] = (char)(rnd + 17 * a + 1);
			if (rnd % 4 == 0) d[A - 1] = mem[(size_t)A - 1] = (char)(rnd | 1);
			sleep_us(us); cmp(h);
		}
		}
	}
	bool calls_fire = false;
	void close(void *h) { u64 s = ++seq; ev("close begins"); obj_del(kind, h); ev("closed"); if (kind == SHM) hist.push_back({1, s, ++seq, false}); }
	void run(Plan &p) override {
		P = &p; np = (int)p.get("nproc"); kind = (int)p.get("kind"); name = name_of((int)p.get("name")); A = p.get("a"); B = p.get("b"); dirty = p.get("dirty"); gate = p.get("gate");
		calls_fire = true;
		if (kind == SHM && A > 5000) set_step_limit(4000000);
		pid.push_back(0); for (int i = 1; i < np; i++) pid.push_back(p.get("threads") && i % 2 ? pid[(size_t)i - 1] : new_proc());   // some processes have two threads
		std::map<int, int> user; for (int i = 0; i < np; i++) if (!user.count(pid[i])) { user[pid[i]] = i; set_user(p, i, pid[i]); }
		g_faults.on = true;
		int needed = 0; for (auto &o : p.ops) if (o.actor) needed++;
		bool has0 = false; for (auto &o : p.ops) if (o.actor == 0) has0 = true;
		if (gate && !has0) return;
		for (int a = 0; a < np; a++) {
			bool any = false; for (auto &o : p.ops) if (o.actor == a) any = true;
			if (!any) continue;
			spawn(pid[a], [this, a, needed] {
				for (auto &o : P->ops) if (o.actor == a) {
					if (o.arg(0)) sleep_us((u64)o.arg(0));
					void *h = obj_new(kind);
					if (create(h)) {
						if (gate) { use(a, h, o.arg(3)); if (a == 0) while (ndone < needed) sleep_us(100); else ndone++; }
						else for (int i = 0; i < o.arg(1); i++) use(a, h, o.arg(3) + i * 7);
						if (o.arg(2)) sleep_us((u64)o.arg(2));
						close(h);
					} else obj_del(kind, h);
				}
			});
		}
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "processes creating and using one %s do not finish", KN[kind]); return; }
		for (auto &u : user) { check_mask(p, u.second, u.first); if (g_viol.set) return; }
		if (kind == SHM && !lin()) { violate("first", "the first-creator answers of %zu creations fit no order of the calls", hist.size()); return; }
		for (int i = 0; i < np; i++) { if (live_mappings(pid[i])) { violate("leak", "an area is still mapped after closing"); return; } if (fd_count(pid[i])) { violate("leak", "a descriptor is left open"); return; } }
		if (live_with_tag(1)) { violate("leak", "%llu heap block(s) left after closing", (unsigned long long)live_with_tag(1)); return; }
		// everybody has closed: a new creation starts afresh, with its own arguments
		int q = new_proc();
		spawn(q, [this] {
			void *h = obj_new(kind); long long a2 = kind == SEM ? A + 1 : kind == EVENT ? !A : A, b2 = !B;
			if (!obj_create(kind, h, name.c_str(), a2, b2)) violate("create-failed", "creation fails after everybody closed");
			if (kind == MUTEX) { if (!g_mutex_lock(h, 0)) violate("not-fresh", "mutex is not free after everybody closed"); g_mutex_unlock(h, 0); }
			else if (kind == SEM) { int t = 0; while (t < 20 && g_sem_lock(h, 0)) t++; if (t != a2) violate("not-fresh", "semaphore has %d permits, asked for %lld", t, a2); for (int i = 0; i < t; i++) g_sem_unlock(h, nullptr); if (g_sem_lock(h, 0)) g_sem_unlock(h, nullptr); }
			else if (kind == EVENT) { int r = g_event_wait(h, 0); if ((r != 0) != (b2 != 0)) violate("not-fresh", "event state %d, asked for %lld", r, b2); r = g_event_reset(h); if ((r != 0) != (a2 != 0)) violate("not-fresh", "event is %smanual, asked for %lld", r ? "" : "not ", a2); }
			else if (kind == RW) { if (!g_rw_wlock(h, 0)) violate("not-fresh", "reader/writer lock is not free after everybody closed"); g_rw_wunlock(h); }
			else { if (!g_shm_first(h)) violate("first-missing", "nobody uses the block but its creator is not told it is the first"); char *d = g_shm_data(h); check_access(d, (size_t)A, false, "the block"); for (long long i = 0; i < A; i++) if (d[i]) violate("not-zero", "re-created block has byte %lld set", i); }
			obj_del(kind, h);
		});
		g = go();
		if (g == GO_STUCK || g == GO_LIMIT) violate("create-stuck", "creation after everybody closed does not return");
	}
	bool lin() {
		size_t n = hist.size(); if (n > 40) return true;
		std::set<u64> seen; std::vector<u64> st{0}; seen.insert(0);
		u64 full = (1ULL << n) - 1;
		while (!st.empty()) {
			u64 m = st.back(); st.pop_back(); if (m == full) return true;
			int refs = 0; u64 mine = ~0ULL;
			for (size_t i = 0; i < n; i++) { if (m >> i & 1) refs += hist[i].type ? -1 : 1; else mine = std::min(mine, hist[i].e); }
			for (size_t i = 0; i < n; i++) if (!(m >> i & 1) && hist[i].s < mine) {
				if (hist[i].type == 0 ? hist[i].first != (refs == 0) : refs == 0) continue;
				if (seen.insert(m | 1ULL << i).second) st.push_back(m | 1ULL << i);
			}
		}
		return false;
	}
};
#define MK(T, PROP) [] () -> Harness * { return new T(PROP); }
AddReg a1("C07", "rendezvous", MK(StormH, "C07"), 3);
AddReg a2("C07", "independence", MK(SeqH, "C07"), 2);
AddReg a3("C08", "life-cycle", MK(SeqH, "C08"), 2);
AddReg a4("C08", "storm", MK(StormH, "C08"), 2);
AddReg a5("C09", "life-cycle", MK(SeqH, "C09"), 1);
AddReg a6("C09", "storm", MK(StormH, "C09"), 2);
AddReg a7("C10", "objects", MK(SeqH, "C10"), 2);
}
