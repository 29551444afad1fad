// Containers used by several threads: detachable queue and list (C25), ordered hash (C26), packed ordered hash (C27), fixed-size containers (C28).
// Shared containers are guarded by the library's own mutex; nodes travel between threads through them; private ones are used without a lock at the same time.
#include "core.h"
#include "glue.h"
#include "glue_cont.h"
#include <cstring>
#include <algorithm>
#include <set>
#include <new>
using namespace sim;
typedef std::string S;

static const uint64_t MAGIC = 0x56616c7565210000ULL;
static void lose() { if (fault("value-fail")) throw std::bad_alloc(); }     // copying a value needs memory, too
V::V() { lose(); p = (uint64_t *)halloc(16, 8); p[0] = 0; p[1] = MAGIC; }
V::V(uint64_t id) { p = (uint64_t *)halloc(16, 8); p[0] = id; p[1] = MAGIC; }
V::V(const V &o) { uint64_t v = o.id(); lose(); p = (uint64_t *)halloc(16, 8); p[0] = v; p[1] = MAGIC; }
V &V::operator=(const V &o) { uint64_t v = o.id(); check_access(p, 16, true, "a value"); if (p[1] != MAGIC) violate("value", "a value that was never constructed is assigned to"); lose(); p[0] = v; return *this; }
V::~V() { check_access(p, 16, true, "a value"); if (p[1] != MAGIC) violate("value", "a value that was never constructed is destroyed"); hfree(p); }
uint64_t V::id() const { check_access(p, 16, false, "a value"); if (p[1] != MAGIC) violate("value", "a value that was never constructed is read"); return p[0]; }
bool V::operator==(const V &o) const { return id() == o.id(); }

namespace {
const long long RATE[] = {5000, 20000, 80000, 250000};
int g_quiet = 0;                               // number of threads inside a section without faults
struct NoFaults { NoFaults() { g_quiet++; g_faults.on = false; } ~NoFaults() { if (!--g_quiet) g_faults.on = true; } };
// common part: actors, the lock, ids
struct ContH : Harness {
	Plan *P = nullptr; void *mx = nullptr; u64 nid = 0;
	virtual void prepare() = 0;
	virtual void step(int actor, const Op &o) = 0;
	virtual bool shared(const Op &o) = 0;
	virtual void leave(int actor) = 0;
	virtual void finish() = 0;
	// a copy or assignment that failed: only because memory was refused, and nothing changed
	void failed(u64 h0, const char *op) { if (hard_faults() == h0) violate("refused", "%s fails", op); probe("new-failed"); }
	void act(int a) {
		for (auto &o : P->ops) if (o.actor == a) {
			bool l = shared(o); if (l && !g_mutex_lock(mx, 0xFFFFFFFFu)) violate("lock", "the mutex cannot be locked");
			step(a, o); ev("%s", o.name.c_str());
			if (l) g_mutex_unlock(mx, 0);
		}
		leave(a);
	}
	void run(Plan &p) override {
		P = &p; g_quiet = 0; set_step_limit(p.get("mass") || p.get("long") ? 120000000 : 8000000); int na = (int)p.get("nact", 1);
		spawn(0, [this] { mx = g_mutex_new(); if (!g_mutex_create(mx, nullptr)) violate("lock", "the mutex cannot be created"); prepare(); });
		GoResult g = go(); if (g_viol.set) return; if (g != GO_DONE) { violate("no-progress", "creating the containers does not return"); return; }
		g_faults.on = true; for (int a = 0; a < na; a++) spawn(0, [this, a] { act(a); });
		g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "an operation does not return"); return; }
		spawn(0, [this] { finish(); g_mutex_del(mx); }); g = go(); if (g_viol.set) return; if (g != GO_DONE) { violate("no-progress", "destroying the containers does not return"); return; }
		if (live_with_tag(8)) { violate("leak", "%llu value(s) never destroyed", (unsigned long long)live_with_tag(8)); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};
const int NS = 2, NP = 2;                      // shared containers, private containers of each actor

// ------------------------------------------------------------------------------------------------ C25
struct Nd { void *p; u64 id; };
struct ListH : ContH {
	struct Box { void *c = nullptr; const ListApi *k = nullptr; int kind = 0; std::vector<Nd> m; };
	std::vector<Box> B; std::vector<std::vector<Nd>> hand; bool list = false;
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["list"] = r.below(2); for (int i = 0; i < NS + NP * na; i++) p.cfg["k" + std::to_string(i)] = r.below(2);
		if (r.chance(0.4)) p.cfg["f.new-fail"] = r.pick(RATE); if (r.chance(0.3)) p.cfg["f.value-fail"] = r.pick(RATE);
		for (int a = 0; a < na; a++) { int n = (int)r.range(3, 25); double grow = r.chance(0.5) ? 0.6 : 0.3;
			for (int i = 0; i < n; i++) { auto t = [&] { return r.chance(0.5) ? (long long)r.below(NS) : NS + (long long)(a * NP) + (long long)r.below(NP); }; static const char *gr[] = {"pushv", "unshiftv", "pushn", "unshiftn", "insbv", "insav", "insbn", "insan", "plusv", "plusn", "create", "make1"}, *sh[] = {"shift", "pop", "detach", "remove", "all", "empty", "copy", "assign", "refused", "drop", "shift", "detach", "none"};
				p.add(a, r.chance(grow) ? r.pick(gr) : r.pick(sh), {t(), (long long)r.below(12), t(), (long long)r.below(12)}); } }
		if (r.chance(0.0004)) { p.cfg["mass"] = 1; for (size_t i = 0; i < p.ops.size(); i++) if (r.chance(0.15)) { p.ops[i].name = "mass"; p.ops[i].a[1] = r.range(65000, 67000); break; } }
	}
	size_t bi(long long x) { return (size_t)x % B.size(); }
	bool shared(const Op &o) override { return bi(o.arg(0)) < NS || bi(o.arg(2)) < NS; }
	void prepare() override {
		list = P->get("list"); B.assign((size_t)(NS + NP * P->get("nact", 1)), Box()); hand.assign((size_t)P->get("nact", 1), {});
		for (size_t i = 0; i < B.size(); i++) { B[i].kind = (list ? 2 : 0) + (int)P->get("k" + std::to_string(i)); B[i].k = g_list_api(B[i].kind); B[i].c = B[i].k->make(); verify(B[i], "creation"); }
	}
	void verify(Box &b, const char *op) {
		const ListApi *k = b.k; size_t n = b.m.size(); if (k->size(b.c) != n) violate("size", "after %s there are %zu nodes, %zu expected", op, k->size(b.c), n);
		void *x = k->first(b.c), *pv = nullptr;
		for (size_t i = 0; i < n; i++) { if (x != b.m[i].p) violate("order", "after %s node %zu of %zu is %s", op, i, n, x ? "another one" : "missing"); if (k->value(x) != b.m[i].id) violate("value", "after %s node %zu holds %llu instead of %llu", op, i, (unsigned long long)k->value(x), (unsigned long long)b.m[i].id); if (k->prev && k->prev(x) != pv) violate("order", "after %s node %zu of %zu has the wrong predecessor", op, i, n); pv = x; x = k->next(x); }
		if (x) violate("order", "after %s there is a node behind the last", op);
		if (k->last(b.c) != pv) violate("order", "after %s the last node is wrong", op);
	}
	void got(Box &b, size_t at, void *r, u64 id, const char *op) { if (r == THREW) { probe("new-failed"); } else if (!r) violate("refused", "%s of a new value is refused", op); else { b.m.insert(b.m.begin() + (long)at, {r, id}); probe("inserted"); } verify(b, op); }
	void put(Box &b, std::vector<Nd> &h, size_t at, void *r, size_t hi, const char *op) { if (r != h[hi].p) violate("refused", "%s of a detached node is refused", op); b.m.insert(b.m.begin() + (long)at, h[hi]); h.erase(h.begin() + (long)hi); verify(b, op); probe("attached"); }
	void step(int a, const Op &o) override {
		Box &b = B[bi(o.arg(0))], &c = B[bi(o.arg(2))]; const ListApi *k = b.k; auto &h = hand[(size_t)a]; const S &n = o.name; const char *op = n.c_str(); size_t z = b.m.size(), i = z ? (size_t)o.arg(1) % z : 0, hi = h.empty() ? 0 : (size_t)o.arg(3) % h.size(); u64 id = 1000 + nid, h0 = hard_faults();
		// a position of z stands for "none given": the end for InsertBefore, the start for InsertAfter
		size_t pos = (size_t)o.arg(1) % (z + 1); void *at = pos < z ? b.m[pos].p : nullptr;
		if (n == "pushv") { nid++; got(b, z, k->pushv(b.c, id), id, op); }
		else if (n == "unshiftv") { nid++; got(b, 0, k->unshiftv(b.c, id), id, op); }
		else if (n == "plusv") { nid++; if (k->plusv(b.c, id)) { void *l = k->last(b.c); if (!l) violate("order", "after += there is no node"); b.m.push_back({l, id}); } verify(b, op); }
		else if (n == "insbv" && list) { nid++; got(b, at ? pos : z, k->insbv(b.c, at, id), id, op); }
		else if (n == "insav" && list) { nid++; got(b, at ? pos + 1 : 0, k->insav(b.c, at, id), id, op); }
		else if (n == "mass") { NoFaults nf; probe("mass"); for (long long q = 0; q < o.arg(1) % 70000; q++) { u64 mi = 1000 + nid++; void *x = k->pushv(b.c, mi); if (!x || x == THREW) violate("refused", "appending a value is refused"); b.m.push_back({x, mi}); } verify(b, op); }
		else if (n == "create") { nid++; void *x = k->create(id); if (x == THREW) { failed(h0, op); return; } h.push_back({x, id}); if (k->next(x) || (k->prev && k->prev(x))) violate("order", "a new node has neighbours"); }
		else if (n == "make1") { nid++; void *x = k->make1(id); if (x == THREW) { failed(h0, op); return; } NoFaults nf; Box t; t.c = x; t.k = k; t.kind = b.kind; t.m.push_back({k->first(x), id}); verify(t, op); if (b.kind == t.kind) { k->all(b.c, x); b.m.push_back(t.m[0]); t.m.clear(); verify(b, op); } verify(t, op); k->del(x); }
		else if (n == "pushn" && !h.empty()) put(b, h, z, k->pushn(b.c, h[hi].p), hi, op);
		else if (n == "unshiftn" && !h.empty()) put(b, h, 0, k->unshiftn(b.c, h[hi].p), hi, op);
		else if (n == "plusn" && !h.empty()) { k->plusn(b.c, h[hi].p); put(b, h, z, h[hi].p, hi, op); }
		else if (n == "insbn" && list && !h.empty()) put(b, h, at ? pos : z, k->insbn(b.c, at, h[hi].p), hi, op);
		else if (n == "insan" && list && !h.empty()) put(b, h, at ? pos + 1 : 0, k->insan(b.c, at, h[hi].p), hi, op);
		else if (n == "shift" || (n == "pop" && list)) { bool f = n == "shift"; void *x = f ? k->shift(b.c) : k->pop(b.c); if (x != (z ? (f ? b.m.front().p : b.m.back().p) : nullptr)) violate("order", "%s gives the wrong node", op); if (x) { h.push_back(f ? b.m.front() : b.m.back()); if (f) b.m.erase(b.m.begin()); else b.m.pop_back(); freed(k, x, op); } verify(b, op); }
		else if (n == "detach" && list) { if (!z) { if (k->detach(b.c, nullptr)) violate("refused", "nothing is detached"); return; } void *x = b.m[i].p; if (!k->detach(b.c, x)) violate("refused", "detaching a node is refused"); h.push_back(b.m[i]); b.m.erase(b.m.begin() + (long)i); freed(k, x, op); verify(b, op); probe("detached"); }
		else if (n == "remove" && list) { if (!z) { if (k->remove(b.c, nullptr)) violate("refused", "nothing is removed"); return; } if (!k->remove(b.c, b.m[i].p)) violate("refused", "removing a node is refused"); b.m.erase(b.m.begin() + (long)i); verify(b, op); }
		else if (n == "all" && &b != &c && b.kind == c.kind) { k->all(b.c, c.c); b.m.insert(b.m.end(), c.m.begin(), c.m.end()); c.m.clear(); verify(b, op); verify(c, op); probe("moved-all"); }
		else if (n == "empty") { k->empty(b.c); b.m.clear(); verify(b, op); }
		else if (n == "copy" && k->copy) { Box t; t.kind = b.kind; t.k = k; t.c = k->copy(b.c); if (t.c == THREW) { failed(h0, op); verify(b, op); return; } NoFaults nf; adopt(t, b, op); void *x = k->shift(t.c); if (x) { t.m.erase(t.m.begin()); k->delnode(x); } verify(t, op); verify(b, op); k->del(t.c); verify(b, op); probe("copied"); }
		else if (n == "assign" && k->assign && b.kind == c.kind) { if (!k->assign(b.c, c.c)) { failed(h0, op); verify(b, op); verify(c, op); return; } NoFaults nf; if (&b != &c) adopt(b, c, op); verify(b, op); verify(c, op); probe("copied"); }
		else if (n == "refused" && z >= 2) { size_t q = list ? i : std::min(i, z - 2); void *r = o.arg(3) % 2 ? c.k->pushn(c.c, b.m[q].p) : c.k->unshiftn(c.c, b.m[q].p); if (r) violate("accepted", "a node that is in use is attached again"); verify(b, op); verify(c, op); probe("refused"); }
		else if (n == "drop" && !h.empty()) { k->delnode(h[hi].p); h.erase(h.begin() + (long)hi); }
	}
	void freed(const ListApi *k, void *x, const char *op) { if (k->next(x) || (k->prev && k->prev(x))) violate("order", "after %s the detached node still has neighbours", op); }
	void adopt(Box &t, const Box &src, const char *op) { t.m.clear(); std::set<void *> own; for (auto &y : src.m) own.insert(y.p); void *x = t.k->first(t.c); for (size_t i = 0; i < src.m.size(); i++) { if (!x) violate("copy", "after %s %zu of %zu values were copied", op, i, src.m.size()); if (own.count(x)) violate("copy", "after %s both hold the same node", op); t.m.push_back({x, src.m[i].id}); x = t.k->next(x); } verify(t, op); }
	void leave(int a) override { for (auto &x : hand[(size_t)a]) B[0].k->delnode(x.p); hand[(size_t)a].clear(); for (int i = 0; i < NP; i++) { Box &b = B[(size_t)(NS + a * NP + i)]; verify(b, "the last operation"); b.k->del(b.c); b.c = nullptr; } }
	void finish() override { for (int i = 0; i < NS; i++) { verify(B[(size_t)i], "the last operation"); B[(size_t)i].k->del(B[(size_t)i].c); } }
};

// ------------------------------------------------------------------------------------------------ keys
struct K { bool str = false; i64 i = 0; S s; bool operator==(const K &o) const { return str == o.str && (str ? s == o.s : i == o.i); } S show() const { return str ? "'" + s.substr(0, 20) + "'" : std::to_string(i); } };
struct CK { Key k; char *b = nullptr; explicit CK(const K &x) { k.str = x.str; k.i = x.i; k.s = nullptr; k.n = 0; if (x.str) { b = (char *)halloc(x.s.size(), 9); memcpy(b, x.s.data(), x.s.size()); k.s = b; k.n = x.s.size(); } } CK(const CK &) = delete; ~CK() { if (b) hfree(b); } operator const Key *() const { return &k; } };
// keys whose 32-bit hashes collide for a given start value, and integers that equal the hash of a string
const long long HKEY[] = {5381, 0, 1, -1, 0x123456789abcdefLL};
uint32_t djb(const S &s, uint32_t h) { size_t i = 0, n = s.size(); for (; i + 4 <= n; i += 4) { uint32_t y; memcpy(&y, s.data() + i, 4); h = h * 33 ^ y; } for (size_t k = n; k > i; k--) h = h * 33 ^ (unsigned char)s[k - 1]; return h; }
S collide(S pre, uint32_t target, uint32_t h0) { uint32_t y = djb(pre, h0) * 33 ^ target; pre.append((const char *)&y, 4); return pre; }
K coll_key(long long x) {
	K k; uint32_t h0 = (uint32_t)HKEY[x / 24 % 5]; S s0 = "collide0"; uint32_t t = djb(s0, h0); int j = (int)(x % 24);
	if (j == 4) { S b = collide("zzzz", t, h0); memcpy(&k.i, b.data(), 8); return k; } if (j == 5) { k.i = (i64)t; return k; } if (j == 6) { k.i = 8; return k; } if (j == 7) { k.i = 12; return k; }
	if (j >= 12 && j < 16) { k.i = (i64)djb("s" + S((size_t)(j - 11), 'x'), h0); return k; }
	k.str = true; k.s = j == 0 ? s0 : j == 1 ? collide("abcd", t, h0) : j == 2 ? collide("12345678", t, h0) : j == 3 ? collide("", t, h0) : "";
	if (j >= 8 && j < 12) k.s = "s" + S((size_t)(j - 7), 'x');
	// bytes behind a zero byte, lengths that agree in their low bits, first or last bytes that agree
	if (j == 16) k.s = collide(S("\0abc", 4), t, h0); if (j == 17) k.s = collide(S("\0xyz", 4), t, h0); if (j == 18) k.s = collide(S("collide0") + S(252, 'q'), t, h0); if (j == 19) k.s = collide(S("collide0") + S(252, 'r'), t, h0);
	if (j == 20) k.s = collide("collide0abcd", t, h0); if (j == 21) k.s = collide("collide0wxyz", t, h0); if (j == 22) k.s = collide(S("a\0bc", 4), t, h0); if (j == 23) k.s = collide(S("a\0bd", 4), t, h0);
	return k;
}
K key_of(long long x) {
	if (x >= 2000000) return coll_key(x - 2000000);
	K k; static const i64 I[] = {0, 1, -1, 2, 3, 23, 46, 69, 5, 0x6161616161616161LL, 97, 7, 9223372036854775807LL, -9223372036854775807LL - 1, 0x100000000LL, 8};
	static const S T[] = {S("aaaaaaaa"), S(""), S("a"), S("aa"), S("aaa"), S("\0", 1), S("\0\0", 2), S("ab\0c", 4), S("abc"), S("\x01\0\0\0\0\0\0\0", 8), S("0"), S(40, 'k'), S(41, 'k'), S("\xc3\xa9"), S("aaaaaaaaaaaaaaab"), S("aaaaaaaaaaaaaaac")};
	if (x % 32 < 16 && x < 32) { k.i = I[x % 16]; return k; } if (x < 32) { k.str = true; k.s = T[x % 16]; return k; }
	if (x >= 1000000) { k.str = true; k.s = S(65536 + (size_t)(x % 2), 'w') + std::to_string(x / 2); return k; }
	if (x % 16 == 15) { k.str = true; k.s = S(250 + (size_t)(x % 9), 'v') + std::to_string(x); return k; }
	if (x % 2) { k.str = true; k.s = "key" + std::to_string(x); } else k.i = x * 37; return k;
}
K mass_key(long long i) { K k; if (i % 9 == 4) { k.str = true; k.s = "m" + std::to_string(i); } else k.i = (1LL << 40) + i * 7; return k; }
bool same(const K &k, const Key &q) { return q.str == k.str && (k.str ? S(q.s, q.n) == k.s : q.i == k.i); }

// ------------------------------------------------------------------------------------------------ C26
struct HN { void *p; u64 id; K k; int cfg; };    // cfg: whose hash key is cached in the detached node (-1: none)
struct HashH : ContH {
	struct Box { void *c = nullptr; const HashApi *k = nullptr; int nc = 0, cfg = 0; std::vector<HN> m; };
	std::vector<Box> B; std::vector<std::vector<HN>> hand;
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; int nk = r.chance(0.7) ? 1 : 2; p.cfg["keyspace"] = r.chance(0.7) ? 32 : 90; static const long long est[] = {1, 2, 3, 5, 7, 23, 23, 47, 100, 0}; static const long long key[] = {5381, 0, 1, -1, 0x123456789abcdefLL};
		for (int c = 0; c < 2; c++) { S q = std::to_string(c); p.cfg["sip" + q] = r.below(2); p.cfg["ka" + q] = r.pick(key); p.cfg["kb" + q] = r.pick(key); }
		for (int i = 0; i < NS + NP * na; i++) { S q = std::to_string(i); p.cfg["nc" + q] = r.below(2); p.cfg["cfg" + q] = r.below((u64)nk); p.cfg["est" + q] = r.pick(est); }
		if (r.chance(0.3)) p.cfg["f.new-fail"] = r.pick(RATE); if (r.chance(0.2)) p.cfg["f.value-fail"] = r.pick(RATE);
		long long ks = p.cfg["keyspace"];
		for (int a = 0; a < na; a++) { int n = (int)r.range(3, r.chance(0.15) ? 90 : 25); double grow = r.chance(0.6) ? 0.7 : 0.4;
			for (int i = 0; i < n; i++) { auto t = [&] { return r.chance(0.5) ? (long long)r.below(NS) : NS + (long long)(a * NP) + (long long)r.below(NP); }; static const char *gr[] = {"insv", "insv", "insv", "insn", "insn", "create", "clone"}, *sh[] = {"take", "take", "detach", "detach", "remove", "empty", "copy", "assign", "resize", "setkey", "setkey", "overwrite", "borrow", "find", "find", "findn", "drop", "refused", "none"};
				p.add(a, r.chance(grow) ? r.pick(gr) : r.pick(sh), {t(), (long long)r.below(64), t(), (long long)r.below(16), (long long)r.below((u64)ks), (long long)r.below(4)}); } }
		if (r.chance(0.002)) p.cfg["est" + std::to_string(r.below(NS + NP))] = r.range(60000, 200000);
		if (r.chance(0.003)) { p.cfg["long"] = 1; while (p.ops.size() > 16) p.ops.pop_back(); for (auto &o : p.ops) if (r.chance(0.4)) o.a[4] = 1000000 + (long long)r.below(6); }
		else if (r.chance(0.12)) { int c = (int)r.below(5); for (int i = 0; i < 2; i++) { p.cfg["sip" + std::to_string(i)] = 0; p.cfg["ka" + std::to_string(i)] = HKEY[c]; } long long lim = r.chance(0.4) ? 8 : r.chance(0.4) ? 16 : 24, lo = lim == 24 && r.chance(0.6) ? 16 : 0; for (auto &o : p.ops) if (r.chance(0.85)) o.a[4] = 2000000 + c * 24 + lo + (long long)r.below((u64)(lim - lo)); }
		else if (r.chance(0.0001)) { p.cfg["mass"] = 1; p.cfg["nact"] = 1; std::vector<Op> q; for (auto &o : p.ops) if (o.actor == 0 && q.size() < 10) { o.a[0] = o.a[2] = NS; q.push_back(o); } Op m; m.actor = 0; m.name = "mass"; if (r.chance(0.5)) p.cfg["est" + std::to_string(NS)] = 70000 + (long long)r.below(60000); m.a = {NS, r.chance(0.5) ? r.range(65000, 67000) : r.range(2000, 6000), NS}; q.insert(q.begin() + (long)r.below(q.size() + 1), m); p.ops = q; }
	}
	size_t bi(long long x) { return (size_t)x % B.size(); }
	bool shared(const Op &o) override { return bi(o.arg(0)) < NS || bi(o.arg(2)) < NS; }
	void prepare() override {
		B.assign((size_t)(NS + NP * P->get("nact", 1)), Box()); hand.assign((size_t)P->get("nact", 1), {});
		for (size_t i = 0; i < B.size(); i++) { S q = std::to_string(i); Box &b = B[i]; b.nc = (int)P->get("nc" + q); b.cfg = (int)P->get("cfg" + q) % 2; S c = std::to_string(b.cfg); b.k = g_hash_api(b.nc); b.c = b.k->make((int)P->get("sip" + c), (size_t)P->get("est" + q, 23), (u64)P->get("ka" + c, 5381), (u64)P->get("kb" + c)); verify(b, "creation"); }
	}
	void checkkey(Box &b, HN &x, const char *op) { Key q; b.k->key(x.p, &q); if (q.str) check_access(q.s, q.n, false, "a key"); if (!same(x.k, q)) violate("key", "after %s the node of %s has another key", op, x.k.show().c_str()); }
	void lookup(Box &b, const K &k, const char *op) { CK ck(k); void *f = b.k->find(b.c, ck); auto it = std::find_if(b.m.begin(), b.m.end(), [&](const HN &x) { return x.k == k; }); void *w = it == b.m.end() ? nullptr : it->p; if (f != w) violate("lookup", "after %s looking for %s gives %s", op, k.show().c_str(), !f ? "nothing although it is there" : w ? "another node" : "a node although it is not there"); }
	void verify(Box &b, const char *op, bool full = true) {
		const HashApi *k = b.k; size_t n = b.m.size(); if (k->size(b.c) != n) violate("size", "after %s there are %zu entries, %zu expected", op, k->size(b.c), n);
		void *x = k->first(b.c), *pv = nullptr;
		for (size_t i = 0; i < n; i++) { if (x != b.m[i].p) violate("order", "after %s entry %zu of %zu is %s", op, i, n, x ? "another one" : "missing"); if (k->value(x) != b.m[i].id) violate("value", "after %s the entry of %s holds %llu instead of %llu", op, b.m[i].k.show().c_str(), (unsigned long long)k->value(x), (unsigned long long)b.m[i].id); if (k->prev(x) != pv) violate("order", "after %s entry %zu of %zu has the wrong predecessor", op, i, n); checkkey(b, b.m[i], op); pv = x; x = k->next(x); }
		if (x) violate("order", "after %s there is an entry behind the last", op);
		if (k->last(b.c) != pv) violate("order", "after %s the last entry is wrong", op);
		if (full) for (size_t i = 0; i < n; i += n > 1000 ? n / 97 : 1) lookup(b, b.m[i].k, op);
	}
	bool has(Box &b, const K &k) { for (auto &x : b.m) if (x.k == k) return true; return false; }
	void adopt(Box &t, const Box &src, const char *op) { t.m.clear(); t.cfg = src.cfg; void *x = t.k->first(t.c); for (size_t i = 0; i < src.m.size(); i++) { if (!x) violate("copy", "after %s %zu of %zu entries were copied", op, i, src.m.size()); if (src.m.size() < 1000) { for (auto &y : src.m) if (y.p == x) violate("copy", "after %s both hold the same node", op); } t.m.push_back({x, src.m[i].id, src.m[i].k, -1}); x = t.k->next(x); } verify(t, op); }
	void step(int a, const Op &o) override {
		Box &b = B[bi(o.arg(0))], &c = B[bi(o.arg(2))]; const HashApi *k = b.k; auto &h = hand[(size_t)a]; const S &n = o.name; const char *op = n.c_str(); size_t z = b.m.size(), i = z ? (size_t)o.arg(1) % z : 0, hi = h.empty() ? 0 : (size_t)o.arg(3) % h.size(); K key = key_of(o.arg(4)); int how = (int)o.arg(5); u64 h0 = hard_faults();
		size_t pos = (size_t)o.arg(1) % (z + 1); void *at = how >= 2 && pos < z ? b.m[pos].p : nullptr; size_t to = how == 0 ? z : how == 1 ? 0 : how == 2 ? (at ? pos : z) : at ? pos + 1 : 0;
		if (n == "insv") { u64 id = 1000 + nid++; CK ck(key); bool dup = has(b, key); void *r = k->insv(b.c, how, at, ck, id); if (r == THREW) failed(h0, op); else if (!r) { if (!dup && hard_faults() == h0) violate("refused", "inserting %s is refused", key.show().c_str()); probe("duplicate"); } else { if (dup) violate("duplicate", "%s was inserted twice", key.show().c_str()); b.m.insert(b.m.begin() + (long)to, {r, id, key, b.cfg}); probe("inserted"); } verify(b, op); }
		else if (n == "insn" && !h.empty()) {
			HN x = h[hi]; if (x.cfg >= 0 && x.cfg != b.cfg) return;             // its cached hash key is another hash's
			bool dup = has(b, x.k); void *r = k->insn(b.c, how, at, x.p); if (r == THREW || (!r && hard_faults() != h0)) { probe("new-failed"); } else if (!r) { if (!dup) violate("refused", "attaching a node with %s is refused", x.k.show().c_str()); probe("duplicate"); } else { if (dup) violate("duplicate", "%s was inserted twice", x.k.show().c_str()); if (r != x.p) violate("order", "attaching a node gives another one"); h.erase(h.begin() + (long)hi); x.cfg = b.cfg; b.m.insert(b.m.begin() + (long)to, x); probe("attached"); } verify(b, op); }
		else if (n == "create") { u64 id = 1000 + nid++; CK ck(key); void *x = k->create(ck, id); if (x == THREW) { failed(h0, op); return; } h.push_back({x, id, key, -1}); checkkey(b, h.back(), op); if (k->next(x) || k->prev(x)) violate("order", "a new node has neighbours"); }
		else if (n == "take") { int last = how & 1, rs = how >> 1; void *x = k->take(b.c, last, rs); if (x != (z ? (last ? b.m.back().p : b.m.front().p) : nullptr)) violate("order", "taking a node off gives the wrong one"); if (x) { HN y = last ? b.m.back() : b.m.front(); if (rs) y.cfg = -1; if (last) b.m.pop_back(); else b.m.erase(b.m.begin()); out(b, h, y, op); } else verify(b, op); }
		else if (n == "detach") { if (!z) { if (k->detach(b.c, nullptr, 0)) violate("refused", "nothing is detached"); return; } HN y = b.m[i]; int rs = how & 1; if (!k->detach(b.c, y.p, rs)) violate("refused", "detaching a node is refused"); if (rs) y.cfg = -1; b.m.erase(b.m.begin() + (long)i); out(b, h, y, op); }
		else if (n == "remove") { if (!z) { if (k->remove(b.c, nullptr)) violate("refused", "nothing is removed"); return; } K kk = b.m[i].k; if (!k->remove(b.c, b.m[i].p)) violate("refused", "removing a node is refused"); b.m.erase(b.m.begin() + (long)i); lookup(b, kk, op); verify(b, op); }
		else if (n == "empty") { int dl = how & 1, rs = how >> 1; k->empty(b.c, dl, rs); if (!dl) for (auto &y : b.m) { h.push_back(y); if (rs) h.back().cfg = -1; } std::vector<HN> old; old.swap(b.m); verify(b, op); for (size_t q = 0; q < old.size(); q += old.size() > 1000 ? old.size() / 97 : 1) lookup(b, old[q].k, op); probe("emptied"); }
		else if (n == "mass") { NoFaults nf; probe("mass"); for (long long q = 0; q < o.arg(1); q++) { u64 id = 1000 + nid++; K mk = mass_key(q); CK ck(mk); void *r = k->insv(b.c, 0, nullptr, ck, id); if (!r || r == THREW) violate("refused", "inserting %s is refused", mk.show().c_str()); b.m.push_back({r, id, mk, b.cfg}); } verify(b, op); }
		else if (n == "find") { lookup(b, key, op); }
		else if (n == "findn" && !h.empty()) { HN &x = h[hi]; if (x.cfg >= 0 && x.cfg != b.cfg) return; void *f = k->findn(b.c, x.p), *w = nullptr; for (auto &y : b.m) if (y.k == x.k) w = y.p; if (f != w) violate("lookup", "looking for the key %s of a node gives %s", x.k.show().c_str(), f ? "a wrong node" : "nothing"); verify(b, op, false); }
		else if (n == "resize") { static const size_t sz[] = {0, 1, 2, 3, 5, 11, 23, 47, 64, 97, 200, 4, 6, 8, 100, 16}; size_t s = sz[(size_t)o.arg(3) % 16]; int r = k->resize(b.c, s); if (r < 0 || (!r && hard_faults() != h0)) probe("new-failed"); else if (r != (s != 0)) violate("refused", "resizing to %zu is %s", s, r ? "accepted" : "refused"); verify(b, op); probe("resized"); }
		else if (n == "copy" && k->copy) { Box t; t.nc = b.nc; t.k = k; t.c = k->copy(b.c); if (t.c == THREW) { failed(h0, op); verify(b, op); return; } NoFaults nf; adopt(t, b, op); lookup(t, key, op); { CK ck(key); u64 id = 1000 + nid++; bool dup = has(t, key); void *r = k->insv(t.c, 0, nullptr, ck, id); if ((r == nullptr) != dup) violate("copy", "inserting %s into a copy is %s", key.show().c_str(), r ? "accepted" : "refused"); if (r) t.m.push_back({r, id, key, t.cfg}); } verify(t, op); if (!t.m.empty()) { size_t q = (size_t)o.arg(3) % t.m.size(); K kk = t.m[q].k; k->remove(t.c, t.m[q].p); t.m.erase(t.m.begin() + (long)q); lookup(t, kk, op); } verify(t, op); verify(b, op); k->del(t.c); verify(b, op); probe("copied"); }
		else if (n == "assign" && k->assign && b.nc == c.nc) { if (!k->assign(b.c, c.c)) { failed(h0, op); verify(b, op); verify(c, op); return; } NoFaults nf; if (&b != &c) adopt(b, c, op); for (auto &x : b.m) x.cfg = b.cfg; verify(b, op); verify(c, op); lookup(b, key, op); probe("copied"); }
		else if (n == "setkey" && !h.empty()) { HN &x = h[hi]; CK ck(key); if (!k->setkey(x.p, ck, 1)) { failed(h0, op); checkkey(b, x, op); return; } x.k = key; x.cfg = -1; checkkey(b, x, op); }
		else if (n == "borrow" && !h.empty() && !h[hi].k.str && key.str) {      // a key in the caller's memory
			HN &x = h[hi]; NoFaults nf; CK ck(key); K z0; CK none(z0); k->setkey(x.p, ck, 0); x.cfg = -1; if (!has(b, key)) { void *r = k->insn(b.c, 0, nullptr, x.p); if (r != x.p) violate("refused", "attaching a node with a borrowed key is refused"); b.m.push_back({x.p, x.id, key, b.cfg}); verify(b, op); if (!k->detach(b.c, x.p, 1)) violate("refused", "detaching a node is refused"); b.m.pop_back(); verify(b, op); lookup(b, key, op); } Key nul; nul.str = true; nul.i = 0; nul.s = nullptr; nul.n = 0; k->setkey(x.p, &nul, 0); x.k = K(); x.cfg = -1; checkkey(b, x, op); }
		else if (n == "clone" && !h.empty()) { void *x = k->clone(h[hi].p); if (x == THREW) { failed(h0, op); checkkey(b, h[hi], op); return; } HN y = h[hi]; y.p = x; if (k->next(x) || k->prev(x)) violate("order", "a copied node has neighbours"); if (k->value(x) != y.id) violate("value", "a copied node holds another value"); h.push_back(y); checkkey(b, h.back(), op); checkkey(b, h[hi], op); probe("cloned"); }
		else if (n == "overwrite" && !h.empty()) { size_t q = (size_t)o.arg(1) % h.size(); HN &x = h[hi], &y = h[q]; void *xn = k->next(x.p), *xp = k->prev(x.p); if (k->assignnode(x.p, y.p)) { x.k = y.k; x.id = y.id; x.cfg = y.cfg; } else { failed(h0, op); K was = x.k; Key now; k->key(x.p, &now); if (now.str) check_access(now.s, now.n, false, "a key"); if (!same(x.k, now)) x.k = y.k; if (k->value(x.p) != x.id && k->value(x.p) != y.id) violate("value", "after a failed assignment a node holds another value"); checkkey(b, x, op); checkkey(b, y, op); k->delnode(x.p); h.erase(h.begin() + (long)hi); return; } checkkey(b, x, op); checkkey(b, y, op); if (k->value(x.p) != x.id) violate("value", "an assigned node holds another value"); if (k->next(x.p) != xn || k->prev(x.p) != xp) violate("order", "an assigned node has other neighbours"); probe("overwritten"); }
		else if (n == "drop" && !h.empty()) { k->delnode(h[hi].p); h.erase(h.begin() + (long)hi); }
	}
	void out(Box &b, std::vector<HN> &h, HN y, const char *op) { if (b.k->next(y.p) || b.k->prev(y.p)) violate("order", "after %s the detached node still has neighbours", op); checkkey(b, y, op); if (b.k->value(y.p) != y.id) violate("value", "after %s the detached node holds another value", op); h.push_back(y); lookup(b, y.k, op); verify(b, op); probe("detached"); }
	void leave(int a) override { for (auto &x : hand[(size_t)a]) B[0].k->delnode(x.p); hand[(size_t)a].clear(); for (int i = 0; i < NP; i++) { Box &b = B[(size_t)(NS + a * NP + i)]; verify(b, "the last operation"); b.k->del(b.c); } }
	void finish() override { for (int i = 0; i < NS; i++) { verify(B[(size_t)i], "the last operation"); B[(size_t)i].k->del(B[(size_t)i].c); } }
};

// ------------------------------------------------------------------------------------------------ C27
struct PackH : ContH {
	struct Ent { K k; u64 id; };
	struct Box { void *c = nullptr; const PackApi *k = nullptr; int nc = 0; std::vector<Ent> m; };
	std::vector<Box> B;
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; bool big = r.chance(0.01); if (big) p.cfg["nact"] = na = 1; p.cfg["keyspace"] = big ? 3000 : r.chance(0.5) ? 32 : 160; static const long long est[] = {0, 1, 2, 3, 7, 8, 8, 16, 40, 512, 600}; static const long long key[] = {5381, 0, 1, -1, 0x123456789abcdefLL};
		for (int i = 0; i < NS + NP * na; i++) { S q = std::to_string(i); p.cfg["nc" + q] = r.below(2); p.cfg["est" + q] = r.chance(big ? 1.0 : 0.9) ? (big ? 512 : r.pick(est)) : 8; p.cfg["sip" + q] = r.below(2); p.cfg["ka" + q] = r.pick(key); p.cfg["kb" + q] = r.pick(key); }
		if (r.chance(0.3)) p.cfg["f.new-fail"] = r.pick(RATE); if (r.chance(0.2)) p.cfg["f.value-fail"] = r.pick(RATE);
		long long ks = p.cfg["keyspace"];
		for (int a = 0; a < na; a++) { int n = (int)r.range(3, 25);
			for (int i = 0; i < n; i++) { auto t = [&] { return r.chance(0.5) ? (long long)r.below(NS) : NS + (long long)(a * NP) + (long long)r.below(NP); }; static const char *nm[] = {"setv", "setv", "setv", "setv", "set", "fill", "unset", "unset", "unsetn", "find", "find", "sweep", "sweep", "optimize", "auto", "resize", "copy", "assign", "get"};
				S w = r.pick(nm); p.add(a, w, {t(), (long long)r.below(64), t(), w == "fill" ? (big ? r.range(100, 700) : r.range(2, 30)) : (long long)r.below(64), (long long)r.below((u64)ks), (long long)r.below(8)}); } }
		if (r.chance(0.002)) p.cfg["est" + std::to_string(r.below(NS + NP))] = r.range(60000, 200000);
		if (r.chance(0.003)) { p.cfg["long"] = 1; while (p.ops.size() > 16) p.ops.pop_back(); for (auto &o : p.ops) { if (o.name == "fill") o.name = "set"; if (r.chance(0.4)) o.a[4] = 1000000 + (long long)r.below(6); } }
		else if (r.chance(0.12)) { int c = (int)r.below(5); for (int i = 0; i < NS + NP * na; i++) { p.cfg["sip" + std::to_string(i)] = 0; p.cfg["ka" + std::to_string(i)] = HKEY[c]; } long long lim = r.chance(0.4) ? 8 : r.chance(0.4) ? 16 : 24, lo = lim == 24 && r.chance(0.6) ? 16 : 0; for (auto &o : p.ops) { if (o.name == "fill") o.name = "setv"; if (r.chance(0.85)) o.a[4] = 2000000 + c * 24 + lo + (long long)r.below((u64)(lim - lo)); } }
		else if (r.chance(0.0001)) { p.cfg["mass"] = 1; p.cfg["nact"] = 1; std::vector<Op> q; for (auto &o : p.ops) if (o.actor == 0 && q.size() < 10 && o.name != "fill") { o.a[0] = o.a[2] = NS; q.push_back(o); } Op m; m.actor = 0; m.name = "mass"; if (r.chance(0.5)) p.cfg["est" + std::to_string(NS)] = 70000 + (long long)r.below(60000); m.a = {NS, r.chance(0.5) ? r.range(65000, 67000) : r.range(2000, 6000), NS}; q.insert(q.begin() + (long)r.below(q.size() + 1), m); p.ops = q; }
	}
	size_t bi(long long x) { return (size_t)x % B.size(); }
	bool shared(const Op &o) override { return bi(o.arg(0)) < NS || bi(o.arg(2)) < NS; }
	void prepare() override { B.assign((size_t)(NS + NP * P->get("nact", 1)), Box()); for (size_t i = 0; i < B.size(); i++) { S q = std::to_string(i); Box &b = B[i]; b.nc = (int)P->get("nc" + q); b.k = g_pack_api(b.nc); b.c = b.k->make((int)P->get("sip" + q), (size_t)P->get("est" + q, 8), (u64)P->get("ka" + q, 5381), (u64)P->get("kb" + q)); verify(b, "creation"); } }
	size_t at(Box &b, const K &k) { size_t i = 0; while (i < b.m.size() && !(b.m[i].k == k)) i++; return i; }
	void node(Box &b, void *x, Ent &e, const char *op) { Key q; b.k->key(x, &q); if (q.str) check_access(q.s, q.n, false, "a key"); if (!same(e.k, q) && !(e.k.str == q.str && q.str && S(q.s, q.n) == e.k.s)) violate("key", "after %s the entry of %s has another key", op, e.k.show().c_str()); if (b.k->value(x) != e.id) violate("value", "after %s the entry of %s holds %llu instead of %llu", op, e.k.show().c_str(), (unsigned long long)b.k->value(x), (unsigned long long)e.id); }
	void lookup(Box &b, const K &k, const char *op) { CK ck(k); size_t i = at(b, k), p = 12345; void *f = b.k->find(b.c, ck, &p), *f2 = b.k->find(b.c, ck, nullptr); if (f != f2) violate("lookup", "after %s two ways to look for %s differ", op, k.show().c_str()); if ((f != nullptr) != (i < b.m.size())) violate("lookup", "after %s looking for %s gives %s", op, k.show().c_str(), f ? "an entry although it is not there" : "nothing although it is there"); if (!f) return; node(b, f, b.m[i], op); if (b.k->get(b.c, p) != f || b.k->pos(b.c, f) != p) violate("position", "after %s the position of %s is wrong", op, k.show().c_str()); }
	void verify(Box &b, const char *op) {
		const PackApi *k = b.k; size_t n = b.m.size(); if (k->size(b.c) != n) violate("size", "after %s there are %zu entries, %zu expected", op, k->size(b.c), n);
		size_t np = k->nextpos(b.c), hs = k->hashsize(b.c); if (np < n || np > hs) violate("size", "after %s the positions go to %zu with %zu entries and room for %zu", op, np, n, hs);
		size_t p = np, i = 0; void *x; while ((x = k->next(b.c, &p))) { if (i >= n) violate("order", "after %s an entry too many is visited", op); node(b, x, b.m[i++], op); if (k->get(b.c, p) != x || k->pos(b.c, x) != p) violate("position", "after %s position %zu is wrong", op, p); }
		if (i != n) violate("order", "after %s %zu of %zu entries are visited", op, i, n);
		p = np; while ((x = k->prev(b.c, &p))) { if (!i) violate("order", "after %s an entry too many is visited backwards", op); node(b, x, b.m[--i], op); if (k->get(b.c, p) != x) violate("position", "after %s position %zu is wrong", op, p); }
		if (i) violate("order", "after %s %zu of %zu entries are visited backwards", op, n - i, n);
		if (k->get(b.c, np) || k->get(b.c, np + 7)) violate("position", "after %s there is an entry behind the last position", op);
		for (size_t j = 0; j < n; j += n > 5000 ? n / 97 : n > 60 ? 17 : 1) lookup(b, b.m[j].k, op);
	}
	void adopt(Box &t, const Box &src, const char *op) { t.m = src.m; verify(t, op); }
	void set1(Box &b, const K &key, bool val, const char *op) {
		u64 id = 1000 + nid++, h0 = hard_faults(); CK ck(key); size_t i = at(b, key); bool was = i < b.m.size(); void *x = val ? b.k->setv(b.c, ck, id) : b.k->set(b.c, ck);
		if (x == THREW) { failed(h0, op); if (was && !P->get("f.value-fail")) violate("refused", "setting the existing %s asks for memory", key.show().c_str()); return; } if (!x) violate("refused", "setting %s is refused", key.show().c_str());
		if (!was) b.m.push_back({key, val ? id : 0}); else if (val) b.m[i].id = id;
		node(b, x, b.m[i], op); probe(was ? "overwritten" : "inserted");
	}
	void step(int, const Op &o) override {
		Box &b = B[bi(o.arg(0))], &c = B[bi(o.arg(2))]; const PackApi *k = b.k; const S &n = o.name; const char *op = n.c_str(); K key = key_of(o.arg(4)); size_t z = b.m.size(), i = z ? (size_t)o.arg(1) % z : 0; u64 h0 = hard_faults();
		if (n == "setv" || n == "set") { set1(b, key, n == "setv", op); verify(b, op); }
		else if (n == "fill") { for (long long q = 0; q < o.arg(3); q++) set1(b, key_of((o.arg(4) + q * (1 + 2 * (o.arg(1) % 3))) % P->get("keyspace", 32)), true, op); verify(b, op); }
		else if (n == "unset") { if (z && o.arg(5) < 6) key = b.m[i].k; CK ck(key); size_t q = at(b, key); bool was = q < z; if (k->unset(b.c, ck) != (int)was) violate("refused", "unsetting %s is %s", key.show().c_str(), was ? "refused" : "accepted"); if (was) b.m.erase(b.m.begin() + (long)q); lookup(b, key, op); verify(b, op); probe("unset"); }
		else if (n == "unsetn") { if (!z) { if (k->unsetn(b.c, nullptr)) violate("refused", "nothing is unset"); return; } CK ck(b.m[i].k); K kk = b.m[i].k; void *x = k->find(b.c, ck, nullptr); if (!x) violate("lookup", "looking for %s gives nothing although it is there", kk.show().c_str()); if (!k->unsetn(b.c, x)) violate("refused", "unsetting an entry is refused"); b.m.erase(b.m.begin() + (long)i); if (k->unsetn(b.c, x)) violate("accepted", "an entry is unset twice"); lookup(b, kk, op); verify(b, op); probe("unset"); }
		else if (n == "find") lookup(b, key, op);
		else if (n == "mass") { NoFaults nf; probe("mass"); for (long long q = 0; q < o.arg(1); q++) { u64 id = 1000 + nid++; K mk = mass_key(q); CK ck(mk); void *x = k->setv(b.c, ck, id); if (!x || x == THREW) violate("refused", "setting %s is refused", mk.show().c_str()); b.m.push_back({mk, id}); } verify(b, op); }
		else if (n == "get") { size_t cnt = 0, np = k->nextpos(b.c); for (size_t q = 0; q < np; q++) if (void *x = k->get(b.c, q)) { if (cnt >= z) violate("order", "there is an entry too many"); node(b, x, b.m[cnt++], op); } if (cnt != z) violate("order", "%zu of %zu entries have a position", cnt, z); }
		else if (n == "sweep") { bool back = o.arg(5) & 1; size_t p = k->nextpos(b.c), q = back ? z : 0; u64 pat = (u64)o.arg(1) * 0x9E3779B97F4A7C15ULL; std::vector<K> gone; while (void *x = back ? k->prev(b.c, &p) : k->next(b.c, &p)) { if (back ? q == 0 : q >= b.m.size()) violate("order", "an entry too many is visited"); size_t e = back ? q - 1 : q; node(b, x, b.m[e], op); if ((pat >> (e & 63)) & 1) { gone.push_back(b.m[e].k); if (!k->unsetn(b.c, x)) violate("refused", "unsetting an entry is refused"); b.m.erase(b.m.begin() + (long)e); if (back) q--; } else if (back) q--; else q++; } if (back ? q != 0 : q != b.m.size()) violate("order", "not all entries are visited while some are unset"); verify(b, op); for (size_t g = 0; g < gone.size(); g += gone.size() > 1000 ? gone.size() / 97 : 1) lookup(b, gone[g], op); probe("swept"); }
		else if (n == "optimize") { k->should(b.c); if (!k->optimize(b.c)) violate("refused", "compacting is refused"); if (k->nextpos(b.c) != z) violate("position", "after compacting %zu entries take %zu positions", z, k->nextpos(b.c)); verify(b, op); probe("compacted"); }
		else if (n == "auto") { int r = k->autoresize(b.c); (void)r; verify(b, op); }
		else if (n == "resize") { static const size_t sz[] = {0, 1, 2, 8, 16, 31, 64, 100, 256, 512, 600, 1024, 5, 9, 33, 300}; int r = k->resize(b.c, sz[(size_t)o.arg(3) % 16]); (void)r; verify(b, op); probe("resized"); }
		else if (n == "copy" && k->copy) { Box t; t.nc = b.nc; t.k = k; t.c = k->copy(b.c); if (t.c == THREW) { failed(h0, op); verify(b, op); return; } NoFaults nf; adopt(t, b, op); set1(t, key, true, op); verify(t, op); if (!t.m.empty()) { size_t q = (size_t)o.arg(3) % t.m.size(); CK ck(t.m[q].k); k->unset(t.c, ck); t.m.erase(t.m.begin() + (long)q); } verify(t, op); verify(b, op); k->del(t.c); verify(b, op); probe("copied"); }
		else if (n == "assign" && k->assign && b.nc == c.nc) { if (!k->assign(b.c, c.c)) { failed(h0, op); verify(b, op); verify(c, op); return; } NoFaults nf; if (&b != &c) adopt(b, c, op); verify(b, op); verify(c, op); lookup(b, key, op); probe("copied"); }
	}
	void leave(int a) override { for (int i = 0; i < NP; i++) { Box &b = B[(size_t)(NS + a * NP + i)]; verify(b, "the last operation"); b.k->del(b.c); } }
	void finish() override { for (int i = 0; i < NS; i++) { verify(B[(size_t)i], "the last operation"); B[(size_t)i].k->del(B[(size_t)i].c); } }
};

// ------------------------------------------------------------------------------------------------ C28
struct FixH : ContH {
	struct Slot { bool used = false; u64 k = 0, v = 0; };
	struct Box { void *c = nullptr; int t = 0; size_t w = 0, h = 0; std::vector<Slot> s; };    // t: 0 cache, 1 cache without copying, 2 vector, 3 array
	std::vector<Box> B;
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; if (r.chance(0.3)) p.cfg["f.new-fail"] = r.pick(RATE); if (r.chance(0.3)) p.cfg["f.value-fail"] = r.pick(RATE); static const long long sz[] = {1, 2, 3, 5, 11, 23}; long long one = r.chance(0.5) ? r.range(0, 3) : -1, ow = r.chance(0.5) ? (long long)r.below(4) : -1, oh = r.chance(0.5) ? (long long)r.below(4) : -1;
		for (int i = 0; i < NS + NP * na; i++) { S q = std::to_string(i); p.cfg["t" + q] = one >= 0 ? one : (long long)r.below(4); p.cfg["n" + q] = r.pick(sz); p.cfg["w" + q] = ow >= 0 && r.chance(0.7) ? ow : (long long)r.below(5); p.cfg["h" + q] = oh >= 0 && r.chance(0.7) ? oh : (long long)r.below(5); }
		if (r.chance(0.001)) { p.cfg["long"] = 1; S q = std::to_string(r.below((u64)(NS + NP * na))), q2 = r.chance(0.5) ? std::to_string(r.below((u64)(NS + NP * na))) : q; static const long long bs[] = {257, 300, 65537, 66000}; long long b1 = r.pick(bs), b2 = b1 > 60000 ? r.range(1, 2) : r.chance(0.5) ? r.range(1, 3) : r.range(250, 300); if (r.chance(0.5)) std::swap(b1, b2); for (auto &z : {q, q2}) { p.cfg["n" + z] = std::max(b1, b2); p.cfg["w" + z] = b1; p.cfg["h" + z] = b2; } }
		for (int a = 0; a < na; a++) { int n = (int)r.range(3, 30); for (int i = 0; i < n; i++) { auto t = [&] { return r.chance(0.5) ? (long long)r.below(NS) : NS + (long long)(a * NP) + (long long)r.below(NP); }; static const char *nm[] = {"write", "write", "write", "write", "read", "read", "remove", "exists", "copy", "assign", "equal", "empty"}; p.add(a, r.pick(nm), {t(), (long long)r.below(r.chance(0.7) ? 6 : 60), t(), (long long)r.below(6), r.chance(0.8) ? (long long)r.below(12) : (long long)(r.next() >> 1)}); } }
	}
	size_t bi(long long x) { return (size_t)x % B.size(); }
	bool shared(const Op &o) override { return bi(o.arg(0)) < NS || bi(o.arg(2)) < NS; }
	void prepare() override { NoFaults nf; B.assign((size_t)(NS + NP * P->get("nact", 1)), Box()); for (size_t i = 0; i < B.size(); i++) { S q = std::to_string(i); Box &b = B[i]; b.t = (int)P->get("t" + q) % 4; if (b.t < 2) { b.w = (size_t)std::max(1LL, P->get("n" + q, 3)); b.c = g_cache_new(b.t, b.w); b.s.assign(b.w, Slot()); } else if (b.t == 2) { b.w = (size_t)P->get("w" + q, 2); b.c = g_vec_new(b.w); b.s.assign(b.w, Slot()); } else { b.w = (size_t)P->get("w" + q, 2); b.h = (size_t)P->get("h" + q, 2); b.c = g_arr_new(b.w, b.h); b.s.assign(b.w * b.h, Slot()); } verify(b, "creation"); } }
	void verify(Box &b, const char *op) { NoFaults nf;
		if (b.t == 2) { if (g_vec_size(b.c) != b.w) violate("size", "after %s the vector has %zu elements, %zu expected", op, g_vec_size(b.c), b.w); for (size_t i = 0; i < b.w; i++) if (g_vec_get(b.c, i) != b.s[i].v || g_vec_raw(b.c, i) != b.s[i].v) violate("value", "after %s element %zu of the vector is %llu instead of %llu", op, i, (unsigned long long)g_vec_get(b.c, i), (unsigned long long)b.s[i].v); }
		else if (b.t == 3) { if (g_arr_w(b.c) != b.w || g_arr_h(b.c) != b.h) violate("size", "after %s the array is %zu x %zu, expected %zu x %zu", op, g_arr_w(b.c), g_arr_h(b.c), b.w, b.h); for (size_t y = 0; y < b.h; y++) for (size_t x = 0; x < b.w; x++) if (g_arr_get(b.c, x, y) != b.s[y * b.w + x].v) violate("value", "after %s element (%zu,%zu) of the array is %llu instead of %llu", op, x, y, (unsigned long long)g_arr_get(b.c, x, y), (unsigned long long)b.s[y * b.w + x].v); }
		else { if (g_cache_size(b.t, b.c) != b.w) violate("size", "after %s the cache has %zu places, %zu expected", op, g_cache_size(b.t, b.c), b.w); for (size_t i = 0; i < b.w; i++) { auto &s = b.s[i]; u64 k = s.used ? s.k : 3, r = 77; int f = g_cache_find(b.t, b.c, &r, i + b.w * (i % 3), k); if (f != (int)s.used || r != (s.used ? s.v : 77)) violate("cache", "after %s place %zu of the cache: found %d, value %llu; expected %d, %llu", op, i, f, (unsigned long long)r, (int)s.used, (unsigned long long)s.v); } }
	}
	void *copyof(Box &b) { return b.t == 0 ? g_cache_copy(b.c) : b.t == 2 ? g_vec_copy(b.c) : g_arr_copy(b.c); }
	void kill(Box &b) { if (b.t < 2) g_cache_del(b.t, b.c); else if (b.t == 2) g_vec_del(b.c); else g_arr_del(b.c); }
	// what a place may answer after a copying of c into b was cut short: nothing, what was there, or what was to come; an element: what was there or what was to come, or what a new one holds
	void salvage(Box &b, Box &c, const char *op) { NoFaults nf;
		size_t w = b.t < 2 ? g_cache_size(b.t, b.c) : b.t == 2 ? g_vec_size(b.c) : g_arr_w(b.c), h = b.t == 3 ? g_arr_h(b.c) : 0; bool was = w == b.w && h == b.h, is = w == c.w && h == c.h;
		if (!was && !is) violate("size", "after a failed %s the size is %zu (%zu), neither %zu (%zu) nor %zu (%zu)", op, w, h, b.w, b.h, c.w, c.h);
		std::vector<Slot> o = b.s; b.w = w; b.h = h; if (!was) b.s.assign(c.s.size(), Slot());
		for (size_t i = 0; i < b.s.size(); i++) {
			std::vector<Slot> may; if (was) may.push_back(o[i]); else may.push_back(Slot()); if (is) may.push_back(c.s[i]);
			if (b.t >= 2) { u64 v = b.t == 2 ? g_vec_get(b.c, i) : g_arr_get(b.c, i % b.w, i / b.w); bool ok = false; for (auto &m : may) ok |= m.v == v; if (!ok) violate("value", "after a failed %s element %zu is %llu", op, i, (unsigned long long)v); b.s[i].v = v; }
			else { b.s[i].used = false; for (auto &m : may) if (m.used) { u64 r = 77; int f = g_cache_find(b.t, b.c, &r, i, m.k); bool ok = false; for (auto &q : may) ok |= q.used && q.k == m.k && q.v == r; if (f && !ok) violate("cache", "after a failed %s place %zu answers %llu with %llu", op, i, (unsigned long long)m.k, (unsigned long long)r); if (f) { b.s[i].used = true; b.s[i].k = m.k; b.s[i].v = r; } } }
		}
	}
	void write(Box &b, const Op &o, u64 v) { u64 h0 = hard_faults(); int ok = 1;
		if (b.t < 2) { u64 h = (u64)o.arg(4), k = (u64)o.arg(3); ok = g_cache_insert(b.t, b.c, h, k, v); auto &s = b.s[h % b.w]; if (ok) { s.used = true; s.k = k; s.v = v; } else { NoFaults nf; u64 r = 77, r2 = 77; bool f = s.used && g_cache_find(b.t, b.c, &r, h, s.k), g = g_cache_find(b.t, b.c, &r2, h, k); if (f && r != s.v) violate("cache", "after a failed insertion the previous key answers %llu instead of %llu", (unsigned long long)r, (unsigned long long)s.v); if (g && !(f && s.k == k)) violate("cache", "after a failed insertion the key answers %llu", (unsigned long long)r2); if (!f) s.used = false; } }
		else if (!b.s.empty()) { size_t i = (size_t)o.arg(1) % b.s.size(); ok = b.t == 2 ? g_vec_set(b.c, i, v) : g_arr_set(b.c, i % b.w, i / b.w, v); if (ok) b.s[i].v = v; }
		if (!ok) { if (hard_faults() == h0) violate("refused", "storing a value fails"); probe("new-failed"); }
	}
	void step(int, const Op &o) override {
		Box &b = B[bi(o.arg(0))], &c = B[bi(o.arg(2))]; const S &n = o.name; const char *op = n.c_str(); u64 hk = (u64)o.arg(4), key = (u64)o.arg(3), h0 = hard_faults();
		if (n == "write") { write(b, o, o.arg(1) % 3 ? 1000 + nid++ : 5); verify(b, op); probe("written"); }
		else if (n == "read" && b.t < 2) { auto &s = b.s[hk % b.w]; bool w = s.used && s.k == key; u64 r = 77; int f = g_cache_find(b.t, b.c, &r, hk, key); if (f < 0 && w && hard_faults() != h0 && r == 77) probe("new-failed"); else if (f != (int)w || r != (w ? s.v : 77)) violate("cache", "looking for %llu gives %d with %llu, expected %d with %llu", (unsigned long long)key, f, (unsigned long long)r, (int)w, (unsigned long long)(w ? s.v : 77)); probe("read"); }
		else if (n == "exists" && b.t < 2) { auto &s = b.s[hk % b.w]; if (g_cache_exists(b.t, b.c, hk, key) != (int)(s.used && s.k == key)) violate("cache", "whether %llu is there is answered wrongly", (unsigned long long)key); }
		else if (n == "remove" && b.t < 2) { auto &s = b.s[hk % b.w]; bool w = s.used && s.k == key; if (g_cache_remove(b.t, b.c, hk, key) != (int)w) violate("cache", "removing %llu is answered wrongly", (unsigned long long)key); if (w) s.used = false; verify(b, op); }
		else if (n == "empty" && b.t < 2) { g_cache_empty(b.t, b.c); for (auto &s : b.s) s.used = false; verify(b, op); }
		else if (n == "copy" && b.t != 1) { Box t = b; t.c = copyof(b); if (t.c == THREW) { if (hard_faults() == h0) violate("refused", "copying fails"); verify(b, op); probe("new-failed"); return; } verify(t, op); write(t, o, 1000 + nid++); verify(t, op); verify(b, op); kill(t); verify(b, op); probe("copied"); }
		else if (n == "assign" && b.t != 1 && b.t == c.t) { int ok = b.t == 0 ? g_cache_assign(b.c, c.c) : b.t == 2 ? g_vec_assign(b.c, c.c) : g_arr_assign(b.c, c.c); if (!ok) { if (hard_faults() == h0) violate("refused", "assigning fails"); if (&b != &c) salvage(b, c, op); verify(b, op); verify(c, op); probe("new-failed"); return; } b.w = c.w; b.h = c.h; b.s = c.s; verify(b, op); write(b, o, 1000 + nid++); verify(b, op); verify(c, op); probe("copied"); }
		else if (n == "equal" && b.t == c.t && b.t >= 2) { bool w = b.w == c.w && b.h == c.h; if (w) for (size_t i = 0; i < b.s.size(); i++) if (b.s[i].v != c.s[i].v) w = false; int e = b.t == 2 ? g_vec_eq(b.c, c.c) : g_arr_eq(b.c, c.c); if (e != (int)w) violate("equal", "two %s of %s content compare as %s", b.t == 2 ? "vectors" : "arrays", w ? "the same" : "different", e < 0 ? "equal and unequal" : e ? "equal" : "unequal"); probe("compared"); }
	}
	void leave(int a) override { for (int i = 0; i < NP; i++) { Box &b = B[(size_t)(NS + a * NP + i)]; verify(b, "the last operation"); kill(b); } }
	void finish() override { for (int i = 0; i < NS; i++) { verify(B[(size_t)i], "the last operation"); kill(B[(size_t)i]); } }
};
AddReg r1("C25", "nodes", [] () -> Harness * { return new ListH; });
AddReg r2("C26", "entries", [] () -> Harness * { return new HashH; });
AddReg r3("C27", "packed", [] () -> Harness * { return new PackH; });
AddReg r4("C28", "fixed", [] () -> Harness * { return new FixH; });
}
