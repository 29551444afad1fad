// Thread-local allocator (C11, C12).
#include "os.h"
#include "glue.h"
#include <cstring>
#include <algorithm>
using namespace sim;
namespace {
const size_t REFUSABLE = 300u << 20;
struct TlsH : Harness {
	std::string prop; Plan *P = nullptr;
	struct Blk { char *p; size_t n; int owner; u64 id; bool sys; };
	struct Str { void *v; std::string s; bool isset; int t = 0; int mode = 0; u64 num = 0; double dbl = 0; };
	std::vector<Blk> blks; std::vector<std::vector<Str>> strs; std::vector<std::vector<bool>> inited;
	std::vector<void *> T; u64 ids = 0; int na = 0, nt = 1;
	TlsH(const char *p) : prop(p) {}
	static char pat(u64 id, size_t i) { return (char)(id * 41 + i * 7 + (i >> 8) * 3 + 1); }
	void gen(Rng &r, Plan &p) override {
		na = (int)r.range(1, 4); nt = r.chance(0.2) ? 2 : 1; p.cfg["nact"] = na; p.cfg["nt"] = nt; p.cfg["same_tid"] = r.chance(0.5);
		static const long long bits[] = {0, 3, 4, 5, 8, 15, 15, 15, 20};
		p.cfg["bits"] = r.pick(bits); p.cfg["bits1"] = r.chance(0.5) ? p.cfg["bits"] : r.pick(bits);
		long long bt = p.cfg["bits"];
		bool f = prop == "C12";
		if (f) { static const long long rt[] = {30000, 150000, 400000}; p.cfg["f.alloc-fail"] = r.pick(rt); if (r.chance(0.3)) p.cfg["f.setspecific-fail"] = 200000; }
		if (r.chance(0.15)) p.cfg["f.stall"] = 10000;
		bool mv = prop == "C11" && r.chance(0.35);
		if (mv && r.chance(0.3)) { nt = 2; p.cfg["nt"] = 2; }
		bool cross = mv && nt == 2 && r.chance(0.5);
		int style = (int)r.below(4);
		for (int a = 0; a < na; a++) {
			int n = (int)r.range(3, 30);
			for (int i = 0; i < n; i++) {
				int t = (int)r.below(nt); double x = (double)r.below(100);
				auto size = [&]() -> long long {
					if (style == 0) return r.range(1, 40);
					if (style == 1) { int b = (int)r.range(3, 11); return std::max<long long>(1, (1LL << b) + r.range(-2, 2)); }
					if (style == 2) { int b = (int)std::min<long long>(17, std::max<long long>(3, bt + r.range(-2, 2))); return std::max<long long>(1, (1LL << b) + r.range(-1, 1)); }
					if (r.chance(0.05)) return r.range(60000, 140000);
					return r.range(1, 3000);
				};
				if (mv && x < 55) {
					int k = (int)r.below(20); if (cross && r.chance(0.3)) k = r.chance(0.4) ? 0 : 8;
					p.add(a, "str", {t, (long long)r.below(1000), k, (long long)r.below(4) ? r.range(0, 40) : r.range(0, 1200), (long long)r.next() >> (int)r.range(1, 60)});
				}
				else if (x < 40) p.add(a, "malloc", {t, r.chance(0.02) ? 0 : prop == "C12" && r.chance(0.02) ? (1LL << r.range(30, 62)) : size()});
				else if (x < 62) p.add(a, "realloc", {t, (long long)r.below(1000), r.chance(0.03) ? 0 : prop == "C12" && r.chance(0.02) ? (1LL << r.range(30, 62)) : size(), r.chance(0.8)});
				else if (x < 72) p.add(a, "dup", {t, (long long)r.below(1000), r.chance(0.8)});
				else if (x < 92) p.add(a, "free", {t, (long long)r.below(1000), r.chance(0.8)});
				else if (x < 94) p.add(a, "auto", {t, size()});
				else if (x < 97) p.add(a, "bucket", {t, (long long)r.below(25)});
				else if (x < 98) p.add(a, "reinit", {t});
				else p.add(a, "init", {t});
			}
		}
	}
	void fill(Blk &b) { check_access(b.p, b.n, true, "an allocated block"); for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.id, i); }
	void verify(const Blk &b, const char *when) {
		check_access(b.p, b.n, false, "a live block");
		for (size_t i = 0; i < b.n; i++) if (b.p[i] != pat(b.id, i)) violate("content-lost", "byte %zu of a live block of %zu bytes changed (%s)", i, b.n, when);
	}
	// cheap version used after every step: small blocks completely, larger ones at their ends and at some places inside
	void glance(const Blk &b, const char *when) {
		if (b.n <= 300) { verify(b, when); return; }
		check_access(b.p, 64, false, "a live block"); check_access(b.p + b.n - 64, 64, false, "a live block");
		for (size_t i = 0; i < b.n; i = i < 64 || i + 65 > b.n ? i + 1 : std::min(b.n - 64, i + 61)) if (b.p[i] != pat(b.id, i)) violate("content-lost", "byte %zu of a live block of %zu bytes changed (%s)", i, b.n, when);
	}
	void verify_all(const char *when) { for (auto &b : blks) verify(b, when); }
	void disjoint(const char *p, size_t n, const Blk *skip) {
		for (auto &b : blks) if (&b != skip && p < b.p + b.n && b.p < p + n) violate("overlap", "a new block of %zu bytes overlaps a live one of %zu bytes", n, b.n);
	}
	int pick(int a, int t, long long k, bool sys) { std::vector<int> v; for (size_t i = 0; i < blks.size(); i++) if (blks[i].owner == a * 2 + t && (sys || !blks[i].sys)) v.push_back((int)i); return v.empty() ? -1 : v[(size_t)k % v.size()]; }
	void refused(bool hf, size_t n, const char *what) { if (!hf && n < REFUSABLE) violate("refused", "%s of %zu bytes returned null although the system refused nothing", what, n); probe("refused"); }
	void drop(int i) { Blk b = blks[(size_t)i]; blks.erase(blks.begin() + i); ev("free block %llu", (unsigned long long)b.id); }
	bool ensure(int a, int t) {
		if (inited[a][t]) return true;
		u64 h0 = hard_faults(); int r = g_tls_init(T[t], bits(t));
		if (!r && hard_faults() == h0) violate("init-failed", "initialising the thread's cache failed without cause");
		inited[a][t] = r; ev("init -> %d", r);
		if (!r) { if (g_tls_malloc(T[t], 10)) violate("uninitialised", "allocation works without an initialised thread"); }
		return r;
	}
	size_t bits(int t) { return (size_t)P->get(t ? "bits1" : "bits", 15); }
	static void auto_body(void *) { point(1); }
	size_t cached(int t) { size_t n = 0; for (size_t i = 0; i < bits(t); i++) { size_t x = 0, y = 0; if (g_tls_bucket(T[t], i, &x, &y)) n += x; } return n; }
	void act(int a, const Op &o) {
		int t = (int)o.arg(0); if (t >= nt) t = 0;
		if (!ensure(a, t)) return;
		u64 h0 = hard_faults();
		if (o.name == "malloc" || o.name == "auto") {
			size_t n = (size_t)o.arg(1); char *p = (char *)g_tls_malloc(T[t], n);
			if (!p) { if (n) refused(hard_faults() != h0, n, "malloc"); }
			else {
				if (!n) violate("zero-size", "a request of zero bytes returned a block");
				disjoint(p, n, nullptr);
				Blk b{p, n, a * 2 + t, ++ids, false}; fill(b); ev("malloc %zu -> block %llu", n, (unsigned long long)b.id);
				if (o.name == "auto") { g_tls_auto(T[t], p, auto_body, nullptr); }
				else blks.push_back(b);
			}
		} else if (o.name == "realloc") {
			int i = pick(a, t, o.arg(1), false); size_t n = (size_t)o.arg(2);
			if (i < 0) { char *p = (char *)g_tls_realloc(T[t], nullptr, n, (int)o.arg(3)); if (p) { if (!n) violate("zero-size", "a request of zero bytes returned a block"); disjoint(p, n, nullptr); Blk b{p, n, a * 2 + t, ++ids, false}; fill(b); blks.push_back(b); } else if (n) refused(hard_faults() != h0, n, "realloc"); }
			else {
				Blk old = blks[i];
				if (!n) { drop(i); char *p = (char *)g_tls_realloc(T[t], old.p, 0, (int)o.arg(3)); if (p) violate("zero-size", "resizing to zero returned a block"); }
				else {
					char *p = (char *)g_tls_realloc(T[t], old.p, n, (int)o.arg(3));
					// positions may have moved while other threads ran
					int k = -1; for (size_t j = 0; j < blks.size(); j++) if (blks[j].id == old.id) k = (int)j;
					if (!p) { refused(hard_faults() != h0, n, "realloc"); verify(old, "after a refused realloc"); probe("grow-refused-kept"); }
					else {
						disjoint(p, n, &blks[k]);
						check_access(p, n, true, "a resized block");
						size_t m = std::min(n, old.n); for (size_t j = 0; j < m; j++) if (p[j] != pat(old.id, j)) violate("content-lost", "byte %zu of %zu lost when a block of %zu bytes was resized to %zu", j, m, old.n, n);
						Blk b{p, n, a * 2 + t, ++ids, false}; fill(b); blks[k] = b; ev("realloc block %llu %zu -> %zu, block %llu", (unsigned long long)old.id, old.n, n, (unsigned long long)b.id);
						if (n > old.n) probe("grown");
					}
				}
			}
		} else if (o.name == "dup") {
			int i = pick(a, t, o.arg(1), false); if (i < 0) { if (g_tls_dup(T[t], nullptr, (int)o.arg(2))) violate("zero-size", "duplicating nothing returned a block"); return; }
			Blk old = blks[i]; char *p = (char *)g_tls_dup(T[t], old.p, (int)o.arg(2));
			int k = -1; for (size_t j = 0; j < blks.size(); j++) if (blks[j].id == old.id) k = (int)j;
			if (!p) { refused(hard_faults() != h0, old.n, "duplicate"); verify(old, "after a refused duplication"); }
			else {
				disjoint(p, old.n, &blks[k]); check_access(p, old.n, true, "a duplicated block");
				for (size_t j = 0; j < old.n; j++) if (p[j] != pat(old.id, j)) violate("content-lost", "byte %zu of %zu not duplicated", j, old.n);
				Blk b{p, old.n, a * 2 + t, ++ids, true}; fill(b); blks[k] = b; ev("dup block %llu -> %llu", (unsigned long long)old.id, (unsigned long long)b.id); probe("duplicated");
			}
		} else if (o.name == "free") {
			int i = pick(a, t, o.arg(1), true); if (i < 0) { g_tls_free(T[t], nullptr, 1); return; }
			Blk b = blks[i]; verify(b, "before free"); drop(i);
			if (b.sys) g_sys_free(b.p);
			else {
				size_t c0 = cached(t); g_tls_free(T[t], b.p, (int)o.arg(2)); size_t c1 = cached(t);
				if (!o.arg(2) && c1 != c0) violate("cache", "a block freed without caching is kept in the cache (%zu blocks before, %zu after)", c0, c1);
				if (c1 != c0 && c1 != c0 + 1) violate("cache", "freeing one block changes the cache from %zu to %zu blocks", c0, c1);
			}
		} else if (o.name == "bucket") { size_t x = 0, y = 0; int r = g_tls_bucket(T[t], (size_t)o.arg(1), &x, &y); if ((r != 0) != ((size_t)o.arg(1) < bits(t))) violate("stats", "statistics of class %lld returned %d", o.arg(1), r); }
		else if (o.name == "init") { if (!g_tls_init(T[t], 3)) violate("init-failed", "initialising again failed"); }
		else if (o.name == "reinit") { finish(a, t); ensure(a, t); probe("re-initialised"); }
		else if (o.name == "str") do_str(a, t, o);
		// the others' blocks and ours are untouched
		for (auto &b : blks) if (b.owner / 2 == a) glance(b, o.name.c_str());
	}
	void check_str(const Str &s) {
		size_t n = g_mv_len(s.v); const char *d = g_mv_str(s.v);
		int md = g_mv_mode(s.v);
		if (g_mv_tls(s.v) != T[s.t]) violate("value", "a value belongs to another allocator");
		if (md != s.mode) violate("value", "a value of kind %d reports kind %d", s.mode, md);
		if (md == 1 && (g_mv_bool(s.v) != 0) != (s.num != 0)) violate("value", "a stored truth value changed");
		if ((md == 2 || md == 3) && ((u64)g_mv_int(s.v) != s.num || g_mv_uint(s.v) != s.num)) violate("value", "a stored number changed");
		if (md == 4 && g_mv_double(s.v) != s.dbl) violate("value", "a stored number changed");
		if (n != s.s.size()) violate("text", "text of %zu bytes reports %zu", s.s.size(), n);
		if (!d) { if (n || s.isset) violate("text", "text vanished"); return; }
		check_access(d, n + 1, false, "a text value");
		if (memcmp(d, s.s.data(), n)) violate("text", "stored text changed"); if (d[n]) violate("text", "text is not terminated");
		for (auto &b : blks) if (d < b.p + b.n && b.p < d + n + 1) violate("overlap", "a text overlaps a live block");
	}
	void do_str(int a, int t, const Op &o) {
		auto &v = strs[a];
		int k = (int)o.arg(2); size_t n = (size_t)o.arg(3); u64 rv = (u64)o.arg(4);
		std::string txt; for (size_t i = 0; i < n; i++) txt += "abXY"[(rv >> (i % 13)) & 3];
		if (v.empty() || k == 0) { if (v.size() < 4) { v.push_back({rv & 1 ? g_mv_new(T[t]) : g_mv_new_set(T[t]), "", false, t}); } return; }
		size_t i = (size_t)o.arg(1) % v.size(); Str &s = v[i]; void *s0 = s.v;
		switch (k) {
		case 1: g_mv_set(s.v, txt.data(), n); s.s = txt; s.isset = true; s.mode = 5; break;
		case 2: case 3: g_mv_append(s.v, txt.data(), n); s.s += txt; s.isset = true; break;
		case 4: g_mv_prepend(s.v, txt.data(), n); s.s = txt + s.s; s.isset = true; break;
		case 5: g_mv_char(s.v, 'c'); s.s += 'c'; s.isset = true; break;
		case 6: g_mv_appendint(s.v, (i64)rv); s.s += std::to_string((i64)rv); s.isset = true; break;
		case 7: if (v.size() < 4) { void *c = g_mv_copy(s.v); Str q = s; q.v = c; v.push_back(q); probe("text-copied"); } break;
		case 8: if (o.arg(1) % 6 == 5) {
				// emptied by assigning a fresh value, then given an allocator again
				g_mv_assign_fresh(s.v); if (g_mv_str(s.v) || g_mv_len(s.v) || g_mv_mode(s.v)) violate("value", "a fresh value was assigned but the old one is still there");
				g_mv_settls(s.v, T[t]); void *keep = s.v; s = Str{keep, "", false, t}; probe("text-emptied"); break;
			} else { size_t j = (size_t)(o.arg(1) / 7) % v.size(); if (s.t != v[j].t) probe("text-from-other-allocator"); g_mv_assign(s.v, v[j].v); void *keep = s.v; s = v[j]; s.v = keep; break; }
		case 9: if (s.isset && !s.s.empty()) {
			std::string src = s.s.substr(0, 1 + rv % 2), dst = "zz" + txt.substr(0, n % 5); if (rv % 3 == 0) dst = ""; if (rv % 5 == 0) dst = "q";
			std::string out; size_t c = 0, pos = 0; for (;;) { size_t f = s.s.find(src, pos); if (f == std::string::npos) { out += s.s.substr(pos); break; } out += s.s.substr(pos, f - pos) + dst; pos = f + src.size(); c++; }
			size_t r = g_mv_replace(s.v, src.data(), src.size(), dst.data(), dst.size()); if (r != c) violate("text", "replace reports %zu replacements, %zu expected", r, c); s.s = out; probe("text-replaced"); } break;
		case 10: if (s.isset) {
			size_t m = s.s.size() ? rv % (s.s.size() + 1) : 0; if (rv % 4 == 3) m = s.s.size() + n;
			g_mv_size(s.v, m); if (g_mv_len(s.v) != m) violate("text", "after setting the size to %zu it is %zu", m, g_mv_len(s.v));
			char *d = (char *)g_mv_str(s.v); check_access(d, m + 1, true, "a text value"); for (size_t q = s.s.size(); q < m; q++) d[q] = 'n'; s.s.resize(m, 'n'); } break;
		case 11: { char c = rv % 3 ? 'M' : (char)(3 + rv / 3 % 9); g_mv_missing(s.v, c); if (s.s.empty() || s.s.back() != c) s.s += c; s.isset = true; break; }
		case 12: { char c = rv % 3 ? 'M' : (char)(3 + rv / 3 % 9); if (rv % 7 == 0 && !s.s.empty()) c = s.s.back(); int r = g_mv_trail(s.v, c); bool w = !s.s.empty() && s.s.back() == c; if ((r != 0) != w) violate("text", "removing a trailing character returned %d", r); if (w) s.s.pop_back(); break; }
		}
		if (k >= 13) {
			static const size_t rx[] = {10, 10, 2, 3, 8, 16, 36}; size_t rad = rx[(size_t)o.arg(3) % 7]; int how = (int)(o.arg(1) % 4);
			static const u64 nums[] = {0, 1, 9, 10, 35, 36, 255, 1000000007ULL, 0x7FFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL, 0x8000000000000001ULL}; u64 num = o.arg(1) % 3 ? rv : nums[rv % 11];
			auto fmt = [&](u64 u, bool sg) { bool ng = sg && (i64)u < 0; if (ng) u = 0 - u; std::string t; do { t.insert(t.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[u % rad]); u /= rad; } while (u); return (ng ? "-" : "") + t; };
			if (k <= 14) {
				// numbers whose text may not fit the converter's buffer are left out
				std::string t = fmt(num, how == 0 || how == 2); if (t.size() > 40) { num &= 0xFFFFFFFF; t = fmt(num, how == 0 || how == 2); }
				g_mv_num(s.v, how, num, rad); s.s = how < 2 ? s.s + t : t + s.s; s.isset = true; probe("number-text");
			} else if (k == 15) {
				static const double ds[] = {0.0, 1.5, -2.25, 1e100, 1.0 / 3, 123456789.125, -7e-300}; double d = ds[rv % 7]; size_t pr = o.arg(1) % 2 ? 16 : 1 + (size_t)(rv / 7) % 20; char tb[100]; snprintf(tb, sizeof tb, "%1.*g", (int)pr, d);
				g_mv_dbl(s.v, how & 1, d, pr); s.s = how & 1 ? tb + s.s : s.s + tb; s.isset = true;
			} else if (k == 16) {
				char *z = (char *)halloc(n + 1, 9); memcpy(z, txt.c_str(), n + 1); how %= 3; g_mv_text(s.v, how, z); hfree(z);
				s.s = how == 0 ? txt : how == 1 ? s.s + txt : txt + s.s; s.isset = true; if (how == 0) s.mode = 5;
			} else if (k == 17) { how++; double d = (double)(i64)rv / 8; g_mv_scalar(s.v, how, num, d); s.mode = how; if (how < 4) s.num = how == 1 ? num != 0 : num; else s.dbl = d; }
			else if (k == 18) { if (s.isset && !s.s.empty()) { std::string src(1, s.s[rv % s.s.size()]), dst = rv % 2 ? "" : "yes"; std::string out; size_t c = 0; for (char ch : s.s) if (ch == src[0]) { out += dst; c++; } else out += ch; size_t r = g_mv_replaces(s.v, src.c_str(), dst.c_str()); if (r != c) violate("text", "replace reports %zu replacements, %zu expected", r, c); s.s = out; } }
			else { v.erase(v.begin() + (long)i); g_mv_del(s0); }
		}
		for (auto &x : v) check_str(x);
	}
	void finish(int a, int t) {
		if (!inited[a][t]) return;
		for (size_t i = strs[a].size(); i-- > 0;) if (strs[a][i].t == t) { void *v = strs[a][i].v; check_str(strs[a][i]); strs[a].erase(strs[a].begin() + (long)i); g_mv_del(v); }
		for (;;) { int i = pick(a, t, 0, true); if (i < 0) break; Blk b = blks[i]; verify(b, "at the end"); drop(i); if (b.sys) g_sys_free(b.p); else g_tls_free(T[t], b.p, 1); }
		int r = g_tls_end(T[t]); if (!r) violate("end-failed", "ending the thread's use failed");
		inited[a][t] = false;
		if (g_tls_malloc(T[t], 8)) violate("after-end", "allocation works after the thread ended its use");
		if (g_tls_end(T[t])) violate("end-failed", "ending twice succeeds");
	}
	void run(Plan &p) override {
		P = &p; na = (int)p.get("nact", 1); nt = (int)p.get("nt", 1);
		strs.resize(na); inited.assign(na, std::vector<bool>(2, false));
		spawn(0, [this] { for (int i = 0; i < nt; i++) T.push_back(g_tls_new()); }); go();
		if (g_viol.set) return;
		g_faults.on = true;
		for (int a = 0; a < na; a++) { bool any = false; for (auto &o : p.ops) if (o.actor == a) any = true; if (!any) continue;
			spawn(0, [this, a] { for (auto &o : P->ops) if (o.actor == a) act(a, o); for (int t = 0; t < nt; t++) finish(a, t); }); }
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "an allocator call does not return"); return; }
		spawn(0, [this] { for (void *t : T) g_tls_del(t); }); go();
		if (g_viol.set) return;
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left after every thread has ended its use", (unsigned long long)live_with_tag(1));
	}
};
#define MK(T, PROP) [] () -> Harness * { return new T(PROP); }
AddReg a1("C11", "allocator", MK(TlsH, "C11"));
AddReg a2("C12", "out-of-memory", MK(TlsH, "C12"));
}
