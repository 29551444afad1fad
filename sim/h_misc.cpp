// Random numbers (C19, C20), JSON writer (C21), shared libraries (C22), application information (C23).
#include "fs.h"
#include "glue.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <set>
using namespace sim;
typedef std::string S;

namespace {
struct Buf { char *p; size_t n; explicit Buf(size_t k) : p((char *)halloc(k, 9)), n(k) {} Buf(const Buf &) = delete; ~Buf() { hfree(p); } };
struct Name { char *p; explicit Name(const S &s) : p((char *)halloc(s.size() + 1, 9)) { memcpy(p, s.c_str(), s.size() + 1); } Name(const Name &) = delete; ~Name() { hfree(p); } operator const char *() const { return p; } };
const long long RATE[] = {20000, 60000, 150000, 400000};
u64 wide(const Op &o, size_t i) { return (u64)o.arg(i); }

// ------------------------------------------------------------------------------------------------ C19, C20
struct RandH : Harness {
	bool ints; Plan *P = nullptr; void *shared = nullptr; long long needbits = 0;
	explicit RandH(bool i) : ints(i) {}
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["key"] = (long long)(r.next() >> 1); p.cfg["safe"] = r.below(2); p.cfg["share"] = r.below(2); p.cfg["arandom"] = r.below(2); if (r.chance(0.05)) p.cfg["nosafe"] = 1; p.cfg["nproc"] = r.chance(0.3) ? na : 1; p.cfg["errno"] = (long long)r.below(4);
		int mode = (int)r.below(20); if (mode == 0) p.cfg["absent"] = 1; else if (mode == 1) p.cfg["dead"] = 1; else if (mode == 2) p.cfg["eof"] = 1; else if (mode == 3) p.cfg["dieat"] = (long long)r.below(30);
		if (r.chance(0.4)) { static const long long mx[] = {1, 2, 3, 7, 8, 16, 64, 256, 512, 4096}; p.cfg["max"] = r.pick(mx); }
		if (r.chance(0.7)) { static const char *ks[] = {"random-eintr", "random-short", "random-delay"}; for (auto k : ks) if (r.chance(0.5)) p.cfg[S("f.") + k] = r.pick(RATE); if (r.chance(0.25)) p.cfg["f.random-eio"] = r.pick(RATE); if (r.chance(0.2)) p.cfg["f.random-eof"] = r.pick(RATE); if (r.chance(0.15)) p.cfg["f.open-fail"] = 300000; }
		bool stat = ints && r.chance(0.15), large = !ints && r.chance(0.01);
		if (ints && !stat && r.chance(0.04)) p.cfg["ones"] = 8 * r.range(1, r.chance(0.5) ? 20 : 400);   // a stream that starts with values to be rejected
		for (int a = 0; a < na; a++) {
			int n = (int)r.range(1, ints ? 12 : 8);
			for (int i = 0; i < n; i++) {
				if (ints) {
					u64 lo, hi; static const u64 edge[] = {0, 1, 2, 3, 7, 8, 100, 255, 256, 0xFFFFFFFFULL, 0x100000000ULL, 0x100000001ULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL};
					switch (r.below(5)) { case 0: lo = r.pick(edge); hi = r.pick(edge); break; case 1: lo = r.next(); hi = lo + r.below(20); break; case 2: lo = r.pick(edge); hi = lo + (1ULL << r.below(64)) - r.below(3); break; case 3: lo = 0; hi = r.next() >> r.below(64); break; default: lo = r.next(); hi = r.next(); }
					p.add(a, "int", {(long long)lo, (long long)hi, (long long)r.range(1, 4)});
				} else { static const long long sz[] = {0, 1, 2, 7, 8, 9, 16, 31, 32, 255, 256, 257, 512, 1000, 4096}; long long n2 = r.chance(0.8) ? r.pick(sz) : (long long)r.below(6000); if (p.cfg.count("max") && n2 / p.cfg["max"] > 800) n2 = p.cfg["max"] * 800; if (large && i == 0) { n2 = r.chance(0.5) ? r.range(65530, 65545) : r.range(60000, 200000); if (p.cfg.count("max") && p.cfg["max"] < 256) p.cfg["max"] = 4096; } p.add(a, "bytes", {n2, (long long)r.below(10)}); }
			}
			if (stat && a == 0) { u64 R; switch (r.below(3)) { case 0: R = r.range(2, 8); break; case 1: R = (3ULL << r.range(20, 61)) - r.below(2); break; default: { static const u64 x[] = {0, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xC000000000000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x180000000ULL}; R = r.pick(x); } } u64 lo = R ? r.next() % (0 - R) : 0; p.add(a, "stat", {(long long)lo, (long long)(lo + R - 1)}); p.cfg.erase("max"); p.cfg.erase("dieat"); }
		}
	}
	void account(u64 lo, u64 hi) { u64 d = hi > lo ? hi - lo : lo - hi; int b = 0; while (b < 64 && (d >> b)) b++; if (b > 0) needbits += b - 1; else return; }
	bool draw(void *g, u64 lo, u64 hi, u64 &v, bool usable) {
		uint64_t *out = (uint64_t *)halloc(8, 9); *out = 0x1122334455667788ULL; u64 h0 = hard_faults();
		int ok = g_rng_int(g, out, lo, hi); v = *out; hfree(out);
		if (ok) { u64 a = std::min(lo, hi), b = std::max(lo, hi); if (v < a || v > b) violate("range", "a number from %llu to %llu is %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)v);
			account(lo, hi); if ((long long)(g_rand_pos * 8) < needbits) violate("stale", "numbers were drawn from fewer random bits (%llu) than they have (%lld)", (unsigned long long)g_rand_pos * 8, needbits);
			if (g_rand_absent && lo != hi) violate("no-source", "a number was drawn although there is no source"); probe("int"); return true; }
		if (usable && hard_faults() == h0 && !g_rand_dead && !g_rand_eof) violate("refused", "drawing a number failed without cause");
		probe("failed"); return false;
	}
	void act(int a) {
		u64 f0 = fd_count(cur_proc()); u64 h0 = hard_faults(); bool own = !shared || P->get("nproc", 1) > 1;
		void *g = own ? g_rng_new((int)P->get("safe")) : shared; bool usable = !g_rand_absent && !(g_random_missing && P->get("safe")) && (own ? hard_faults() == h0 : sharedok);
		for (auto &o : P->ops) if (o.actor == a) {
			if (P->cfg.count("dieat") && (long long)g_rand_calls >= P->get("dieat")) g_rand_dead = true;
			if (o.name == "int") { u64 v; for (long long i = 0; i < o.arg(2); i++) draw(g, wide(o, 0), wide(o, 1), v, usable); }
			else if (o.name == "stat") stat(g, wide(o, 0), wide(o, 1), usable);
			else bytes(g, (size_t)o.arg(0), usable);
		}
		if (own) { g_rng_del(g); if (fd_count(cur_proc()) != f0 && P->get("nact", 1) == 1) violate("leak", "%llu descriptor(s) open before, %llu after", (unsigned long long)f0, (unsigned long long)fd_count(cur_proc())); }
	}
	bool sharedok = false;
	void stat(void *g, u64 lo, u64 hi, bool usable) {
		u64 R = hi - lo + 1; unsigned k = R && R <= 8 ? (unsigned)R : 8; std::vector<int> top(k), low(8); int n = k < 8 || (R && R <= 8) ? 200 * (int)k : 1200, got = 0; bool big = R == 0 || R >= (1ULL << 20);
		for (int i = 0; i < n; i++) { u64 v; if (!draw(g, lo, hi, v, usable)) continue; got++; u64 d = v - lo; top[R && R <= 8 ? d : R ? (u64)((unsigned __int128)d * 8 / R) : d >> 61]++; low[d & 7]++; }
		if (got < 40 * (int)k) return;
		for (int t = 0; t < (big ? 2 : 1); t++) { auto &c = t ? low : top; double e = (double)got / (double)c.size(), x = 0; for (int o : c) x += (o - e) * (o - e) / e; if (x > 46 + 3.0 * (double)(c.size() - 1)) violate("bias", "of %d numbers from %llu to %llu, %s of the range has %d, the most frequent %d", got, (unsigned long long)lo, (unsigned long long)hi, t ? "one residue" : "one part", *std::min_element(c.begin(), c.end()), *std::max_element(c.begin(), c.end())); }
		probe("statistic");
	}
	void bytes(void *g, size_t n, bool usable) {
		Buf b(n); memset(b.p, 0, n); u64 h0 = hard_faults(); size_t r0 = g_rand_reads.size(); int me = cur();
		int ok = g_rng_bytes(g, (uint8_t *)b.p, n); ev("bytes %zu -> %d", n, ok);
		if (!ok) { if (usable && n && hard_faults() == h0 && !g_rand_dead && !g_rand_eof) violate("refused", "drawing %zu bytes failed without cause", n); probe("failed"); return; }
		if (n && g_rand_absent) violate("no-source", "%zu bytes were drawn although there is no source", n);
		std::vector<uint8_t> d; for (size_t i = r0; i < g_rand_reads.size(); i++) if (g_rand_reads[i].fiber == me) for (u64 k = 0; k < g_rand_reads[i].len; k++) d.push_back(rand_byte(g_rand_reads[i].start + k));
		if (d.size() < n) violate("not-random", "only %zu of %zu bytes came from the source", d.size(), n);
		size_t j = 0, i = 0; for (; i < n; i++, j++) { while (j < d.size() && d[j] != (uint8_t)b.p[i]) j++; if (j >= d.size()) break; }
		if (i < n) violate("not-random", "byte %zu of %zu is not the source's", i, n);
		probe("bytes");
	}
	void run(Plan &p) override {
		P = &p; int na = (int)p.get("nact", 1), np = (int)p.get("nproc", 1); set_step_limit(2000000);
		g_rand_key = (u64)p.get("key"); static const int er[] = {EIO, EAGAIN, EINVAL, EBADF}; g_rand_errno = er[p.get("errno") & 3]; g_rand_absent = p.get("absent"); g_rand_dead = p.get("dead"); g_rand_eof = p.get("eof"); g_arandom_present = p.get("arandom"); g_random_missing = p.get("nosafe"); if (p.cfg.count("max")) g_rand_max = (u64)p.get("max");
		g_rand_script.assign((size_t)p.get("ones", 0), 0xFF);
		fs_mkdirs("/work");
		std::vector<int> pid; for (int i = 0; i < np; i++) pid.push_back(i ? new_proc() : 0);
		g_faults.on = true;
		if (p.get("share") && np == 1) { spawn(0, [this] { u64 h0 = hard_faults(); void *s = g_rng_new((int)P->get("safe")); sharedok = hard_faults() == h0; shared = s; }); GoResult g0 = go(); if (g_viol.set) return; if (g0 != GO_DONE) { violate("no-progress", "creating the generator does not return"); return; } }
		for (int a = 0; a < na; a++) spawn(pid[a % np], [this, a] { act(a); });
		GoResult g = go(); if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "drawing random data does not return"); return; }
		if (shared) { spawn(0, [this] { g_rng_del(shared); }); go(); if (g_viol.set) return; }
		g_faults.on = false;
		for (int q : pid) if (fd_count(q)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(q)); return; }
		if (p.get("safe")) for (auto &x : g_rand_reads) if (x.weak) { violate("weak-source", "a generator made for cryptographic safety drew %llu byte(s) from another source than /dev/random", (unsigned long long)x.len); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C21
enum { RootFirst, RootNext, ObjFirst, ObjNext, ArrFirst, ArrNext, Str };
struct Tok { char t; S s; double d; int prec; };
struct JsonH : Harness {
	Plan *P = nullptr;
	static S text(long long len, long long style, long long k) {
		S s; u64 x = (u64)k * 7919 + 3;
		for (long long i = 0; i < len; i++) { x = mix(x, (u64)i); u64 v = x >> 20;
			switch (style) { case 0: s += (char)('a' + v % 26); break; case 1: s += "\"\\/\b\f\n\r\tab"[v % 10]; break; case 2: { static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "z", "/", "\xf0\x9f\x98\x80"}; s += u[v % 5]; break; } case 3: s += (char)(1 + v % 127); break; default: s += (char)(v % 4 ? ' ' + v % 90 : v % 32); break; } }
		return s;
	}
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 2); p.cfg["nact"] = na;
		if (r.chance(0.1)) p.cfg["f.stall"] = 10000;
		for (int a = 0; a < na; a++) {
			S k = std::to_string(a); p.cfg["esc" + k] = r.below(2); p.cfg["ks" + k] = r.below(5); p.cfg["vs" + k] = r.below(5); static const long long dep[] = {1, 2, 3, 5, 9, 512}; p.cfg["depth" + k] = r.pick(dep); p.cfg["cap" + k] = r.chance(0.5) ? r.range(1, 12) : r.chance(0.5) ? r.range(12, 80) : 4096;
			double illegal = r.chance(0.5) ? 0.25 : 0; int n = (int)r.range(1, r.chance(0.2) ? 60 : 20);
			bool deep = r.chance(0.012), big = r.chance(0.004); if (deep) p.cfg["depth" + k] = 512; if (big) { n = (int)r.range(2, 8); if (r.chance(0.7)) p.cfg["cap" + k] = r.range(60000, 200000); }
			auto huge = [&] { return r.chance(0.5) ? r.range(65520, 65560) : r.range(60000, 140000); };
			std::vector<int> st{RootFirst}; size_t maxd = (size_t)p.cfg["depth" + k];
			if (deep) { int d = (int)r.range(250, 515); for (int i = 0; i < d; i++) { int m = st.back(); long long key = m == ObjFirst || m == ObjNext; bool ob = r.chance(0.5); p.add(a, ob ? "object" : "array", {key, (long long)r.below(3), 0, (long long)r.below(1000)}); if (st.size() < maxd) { if (m == ObjFirst || m == ArrFirst || m == RootFirst) st.back()++; st.push_back(ob ? ObjFirst : ArrFirst); } }
				// and out again, some of the way
				for (int i = (int)r.range(0, 400); i > 0 && st.size() > 1; i--) { int m = st.back(); if (r.chance(0.2)) p.add(a, "null", {m == ObjFirst || m == ObjNext, (long long)r.below(3), 0, (long long)r.below(1000)}); p.add(a, "end", {m == ArrFirst || m == ArrNext}); st.pop_back(); } if (st.size() == 1) st[0] = RootNext; n = 20; }
			for (int i = 0; i < n; i++) {
				int m = st.back(); long long key = m == ObjFirst || m == ObjNext ? 1 : 0; if (m == Str) key = r.below(2); bool ill = r.chance(illegal); if (ill && r.chance(0.5)) key = !key;
				long long kl = big && r.chance(0.15) ? huge() : (long long)r.below(r.chance(0.8) ? 6 : 40), ks = (long long)r.below(4), kk = (long long)r.below(1000);
				int x = (int)r.below(100); std::vector<long long> v{key, kl, ks, kk};
				if (m == RootFirst && !ill && r.chance(0.85)) x = (int)r.below(25);                    // mostly a container at the root
				if (m == Str && !ill) x = r.chance(0.6) ? 70 : 30;
				if (m == RootNext && !ill) { if (r.chance(0.5)) break; x = 97; }
				if (x < 12) { p.add(a, "object", v); if (!ill && st.size() < maxd) { if (m == ObjFirst || m == ArrFirst || m == RootFirst) st.back()++; st.push_back(ObjFirst); } }
				else if (x < 22) { p.add(a, "array", v); if (!ill && st.size() < maxd) { if (m == ObjFirst || m == ArrFirst || m == RootFirst) st.back()++; st.push_back(ArrFirst); } }
				else if (x < 28) { p.add(a, "string", v); if (!ill && st.size() < maxd) { if (m == ObjFirst || m == ArrFirst || m == RootFirst) st.back()++; st.push_back(Str); } }
				else if (x < 45) { long long w = ill ? (long long)r.below(3) : m == Str ? 2 : m == ArrFirst || m == ArrNext ? 1 : 0; p.add(a, "end", {w}); if (!ill && st.size() > 1) st.pop_back(); }
				else if (x < 50) p.add(a, "null", v);
				else if (x < 55) { v.push_back((long long)r.below(2)); p.add(a, "bool", v); }
				else if (x < 62) { static const long long e[] = {0, 1, -1, 9, 10, -10, 9223372036854775807LL, -9223372036854775807LL - 1, 1000000}; v.push_back(r.chance(0.5) ? r.pick(e) : (long long)(r.next() >> r.below(64))); v.push_back((long long)r.below(2)); p.add(a, "int", v); }
				else if (x < 68) { static const long long pr[] = {100, 100, 16, 17, 6, 1, 0, 40, 90, 95, 200}; v.push_back((long long)r.below(12)); v.push_back((long long)(r.next() >> 1)); v.push_back(r.pick(pr)); p.add(a, "double", v); }
				else if (x < 90) { v.push_back(big && r.chance(0.5) ? huge() : (long long)r.below(r.chance(0.8) ? 8 : 60)); v.push_back((long long)r.below(5)); v.push_back((long long)r.below(1000)); v.push_back((long long)r.below(2)); p.add(a, "str", v); }
				else if (x < 93) p.add(a, "raw", {(long long)r.below(4), big ? huge() : 0});
				else if (x < 96) p.add(a, "drain", {(long long)r.below(3), r.chance(0.5) ? r.range(1, 20) : r.range(1, 200)});
				else if (x < 98) p.add(a, "size", {big ? huge() : (long long)r.below(30), (long long)r.below(5), (long long)r.below(1000), (long long)r.below(2)});
				else if (r.chance(0.6)) p.add(a, "set", {(long long)r.below(3), (long long)r.below(5)});
				else if (r.chance(0.5)) { p.add(a, "reset", {}); st.assign(1, RootFirst); }
				if (!ill && x >= 45 && x < 90 && x != 70) { if (st.back() == ObjFirst || st.back() == ArrFirst || st.back() == RootFirst) st.back()++; } else if (!ill && x == 70 && st.back() != Str) { if (st.back() == ObjFirst || st.back() == ArrFirst || st.back() == RootFirst) st.back()++; }
			}
			p.add(a, "finish", {});
		}
	}
	struct Ser {
		void *j = nullptr; bool esc = false; S ks, vs; size_t depth = 0; std::vector<int> st{RootFirst}; S out, pend; Buf *b = nullptr; std::vector<Tok> toks; std::vector<Name *> keep;
		~Ser() { for (auto k : keep) delete k; }
		size_t cap() const { return b->n - 1; }
	};
	static const char *KS(long long i) { static const char *t[] = {": ", ":", " : ", "\n:\t", ":   "}; return t[i % 5]; }
	static const char *VS(long long i) { static const char *t[] = {", ", ",", " ,\n", ",\n\t\t", "  ,"}; return t[i % 5]; }
	static S escaped(const Ser &s, const S &v) { S o; for (char c : v) { switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '/': o += s.esc ? "\\/" : "/"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; default: if ((unsigned char)c < 0x20) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += c; } } return o; }
	static S lower(S x) { for (size_t i = 0; i + 5 < x.size(); i++) if (x[i] == '\\' && x[i + 1] == 'u') for (int k = 2; k < 6; k++) x[i + k] = (char)tolower(x[i + k]); return x; }
	static void setbuf(Ser &s, size_t n) { if (s.b) delete s.b; s.b = new Buf(n); memset(s.b->p, 'Q', n); g_json_buffer(s.j, (uint8_t *)s.b->p, n); }
	static void drain(Ser &s, int how, size_t n) { s.out += S(s.b->p, s.pend.size()); s.pend.clear(); if (how == 0) g_json_drain(s.j); else setbuf(s, how == 1 ? s.b->n : n); probe("drained"); }
	static void verify(Ser &s, const char *op) {
		if (g_json_pos(s.j) != s.pend.size()) violate("position", "after %s the position is %zu, %zu expected", op, g_json_pos(s.j), s.pend.size());
		if (lower(S(s.b->p, s.pend.size())) != lower(s.pend)) violate("content", "after %s the buffer holds '%s', expected '%s'", op, S(s.b->p, s.pend.size()).c_str(), s.pend.c_str());
		if (g_json_getbuf(s.j) != (uint8_t *)s.b->p || g_json_getsize(s.j) != s.cap()) violate("buffer", "after %s the writer reports another buffer", op);
		if (g_json_mode(s.j) != s.st.back()) violate("mode", "after %s the writer is in mode %d, expected %d", op, g_json_mode(s.j), s.st.back());
		if ((g_json_keyreq(s.j) != 0) != (s.st.back() == ObjFirst || s.st.back() == ObjNext)) violate("mode", "after %s the writer asks wrongly for a key", op);
	}
	// one append: refused when illegal; otherwise written completely, draining when there is no room
	template <class F> static bool put(Ser &s, const char *op, bool legal, const S &t, size_t slack, size_t how, F call) {
		for (int k = 0; k < 3; k++) {
			S before(s.b->p, s.pend.size()); int r = call();
			if (r) { if (!legal) violate("accepted", "%s was accepted where it makes no valid document", op); if (s.pend.size() + t.size() > s.cap()) violate("overrun", "%s of %zu bytes was accepted with %zu bytes of room", op, t.size(), s.cap() - s.pend.size());
				s.pend += t; if (g_json_pos(s.j) == s.pend.size() && s.b->p[s.pend.size()]) violate("unterminated", "after %s the text is not terminated", op); return true; }
			if (S(s.b->p, s.pend.size()) != before) violate("changed", "a refused %s changed the document", op);
			verify(s, "a refused append");
			if (!legal) { probe("refused-illegal"); return false; }
			if (s.pend.size() + t.size() + slack <= s.cap()) violate("refused", "%s of %zu bytes was refused with %zu bytes of room", op, t.size(), s.cap() - s.pend.size());
			probe("full"); if (k == 0 && !s.pend.empty()) drain(s, (int)(how % 2), 0); else { drain(s, 2, t.size() + slack + 1); }
		}
		violate("refused", "%s of %zu bytes is refused with an empty buffer", op, t.size()); return false;
	}
	static S number(double v, size_t prec, bool) { void *j = g_json_new(0, ":", ",", 2); Buf b(2048); g_json_buffer(j, (uint8_t *)b.p, b.n); if (!g_json_double(j, nullptr, v, prec)) violate("refused", "writing a number into an empty buffer of 2048 bytes is refused"); S t(b.p, g_json_pos(j)); g_json_del(j);
		if (!isnum(t)) violate("number", "%.17g is written as '%s', which is no JSON number", v, t.c_str());
		double w = strtod(t.c_str(), nullptr), tol = std::pow(10.0, 1.0 - (double)std::max<size_t>(prec, 1)); long double wl = strtold(t.c_str(), nullptr), vl = v; if (prec >= 17 ? w != v : std::fabs(wl - vl) > std::fabs(vl) * tol * 1.01L) violate("number", "%.17g is written with precision %zu as '%s'", v, prec, t.c_str());
		return t; }
	static bool isnum(const S &t) { size_t i = 0; auto dig = [&] { size_t k = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++; return i - k; }; if (i < t.size() && t[i] == '-') i++; if (i < t.size() && t[i] == '0') i++; else if (!dig()) return false; if (i < t.size() && t[i] == '.') { i++; if (!dig()) return false; } if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; if (!dig()) return false; } return i == t.size(); }
	static double value(long long kind, long long bits) { static const double e[] = {0.0, 1.0, -1.5, 0.1, 1e-300, -1.7976931348623157e308, 5e-324, 123456789012345680.0, 1e21, 3.141592653589793, -2.2250738585072014e-308}; if (kind < 11) return e[kind]; double d; u64 b = (u64)bits; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 2.5; }
	void step(Ser &s, const Op &o) {
		int m = s.st.back(); const S &n = o.name;
		if (n == "drain") { drain(s, (int)o.arg(0), (size_t)o.arg(1, 8)); verify(s, "draining"); return; }
		if (n == "reset") { g_json_reset(s.j); s.st.assign(1, RootFirst); s.out.clear(); s.pend.clear(); s.toks.clear(); verify(s, "Reset"); return; }
		if (n == "set") { long long w = o.arg(0), x = o.arg(1); Name t(w == 1 ? KS(x) : VS(x)); if (w == 0) s.esc = x % 2; else if (w == 1) s.ks = KS(x); else s.vs = VS(x); s.keep.push_back(new Name(w == 1 ? KS(x) : VS(x))); g_json_set(s.j, (int)w, (int)(x % 2), *s.keep.back()); probe("settings-changed"); verify(s, "a change of the settings"); return; }
		if (n == "raw") { if (m == Str) return; static const char *w[] = {" ", "\n\t", "", "  \r\n "}; S t = w[o.arg(0) % 4]; if (o.arg(1) > 0) t = S((size_t)o.arg(1), ' '); Name v(t); put(s, "Append", true, t, 0, 0, [&] { return g_json_raw(s.j, v, t.size()); }); verify(s, "Append"); return; }
		if (n == "size") { S v = text(o.arg(0), o.arg(1), o.arg(2)); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); size_t want = escaped(s, v).size() + (m != Str ? 2 : 0) + (o.arg(3) ? s.ks.size() : 0); size_t got = g_json_sizen(s.j, b.p, v.size(), o.arg(3) != 0); if (got != want) violate("size", "a text of %zu bytes is said to take %zu bytes, it takes %zu", v.size(), got, want); if (v.find('\0') == S::npos) { Name z(v); got = g_json_size(s.j, z, o.arg(3) != 0); if (got != want) violate("size", "a text of %zu bytes is said to take %zu bytes, it takes %zu", v.size(), got, want); } return; }
		if (n == "finish") {
			for (int k = 0; k < 600; k++) { int r = g_json_finish(s.j); size_t pos = g_json_pos(s.j); while (pos > s.pend.size() && s.st.size() > 1) { int x = s.st.back(); s.pend += x == Str ? '"' : x >= ArrFirst ? ']' : '}'; if (x < Str) s.toks.push_back({x >= ArrFirst ? ']' : '}', "", 0, 0}); s.st.pop_back(); }
				verify(s, "Finish"); if (r) { if (s.st.size() > 1) violate("finish", "Finish leaves %zu level(s) open", s.st.size() - 1); break; }
				if (s.pend.size() + s.st.size() - 1 <= s.cap()) violate("refused", "Finish is refused with room for it"); drain(s, s.cap() ? (int)(k % 2) : 2, 5); }
			if (s.st.size() > 1) violate("finish", "Finish never ends"); return;
		}
		if (n == "end") {
			int w = (int)o.arg(0); bool legal = w == 0 ? m == ObjFirst || m == ObjNext : w == 1 ? m == ArrFirst || m == ArrNext : m == Str;
			if (put(s, "an end", legal, w == 0 ? "}" : w == 1 ? "]" : "\"", 0, 0, [&] { return g_json_end(s.j, w); })) { s.st.pop_back(); if (w < 2) s.toks.push_back({w ? ']' : '}', "", 0, 0}); }
			verify(s, "an end"); return;
		}
		S key = text(o.arg(1), o.arg(2), o.arg(3)); key = key.substr(0, key.find('\0')); bool hk = o.arg(0); Name nk(key); const char *kp = hk ? (const char *)nk : nullptr;
		bool legal = m == ObjFirst || m == ObjNext ? hk : m == RootNext || m == Str ? false : !hk;
		S pre; if (m == ObjNext || m == ArrNext) pre = s.vs; if (hk) pre += "\"" + escaped(s, key) + "\"" + s.ks;
		auto done = [&](const Tok &t) { if (hk && m != Str) s.toks.push_back({'k', key, 0, 0}); s.toks.push_back(t); int &b = s.st.back(); if (b == RootFirst || b == ObjFirst || b == ArrFirst) b++; };
		size_t how = (size_t)o.arg(3);
		if (n == "object" || n == "array" || n == "string") {
			int w = n == "object" ? 0 : n == "array" ? 1 : 2; bool ok = legal && s.st.size() < s.depth;
			if (put(s, n.c_str(), ok, pre + (w == 0 ? "{" : w == 1 ? "[" : "\""), 0, how, [&] { return g_json_start(s.j, w, kp); })) { done({w == 0 ? '{' : w == 1 ? '[' : 's', "", 0, 0}); s.st.push_back(w == 0 ? ObjFirst : w == 1 ? ArrFirst : Str); }
		} else if (n == "null") { if (put(s, "null", legal, pre + "null", 0, how, [&] { return g_json_null(s.j, kp); })) done({'n', "", 0, 0}); }
		else if (n == "bool") { int v = (int)o.arg(4); if (put(s, "a boolean", legal, pre + (v ? "true" : "false"), v ? 1 : 0, how, [&] { return g_json_bool(s.j, kp, v); })) done({'b', v ? "true" : "false", 0, 0}); }
		else if (n == "int") { bool u = o.arg(5); S t = u ? std::to_string((u64)o.arg(4)) : std::to_string(o.arg(4)); if (put(s, "an integer", legal, pre + t, 0, how, [&] { return u ? g_json_uint(s.j, kp, (u64)o.arg(4)) : g_json_int(s.j, kp, o.arg(4)); })) done({'i', t, 0, 0}); }
		else if (n == "double") { double v = value(o.arg(4), o.arg(5)); size_t pr = (size_t)o.arg(6); S t = number(v, pr, hk); if (put(s, "a number", legal, pre + t, 0, how, [&] { return g_json_double(s.j, kp, v, pr); })) done({'d', t, v, (int)pr}); }
		else if (n == "str") {
			S v = text(o.arg(4), o.arg(5), o.arg(6)); bool sized = o.arg(7); if (!sized) v = v.substr(0, v.find('\0'));
			bool in = m == Str; S e = escaped(s, v), t = in ? e : pre + "\"" + e + "\"";
			bool r; if (sized) { Buf b(v.size()); memcpy(b.p, v.data(), v.size()); r = put(s, "a text", in || legal, t, 0, how, [&] { return g_json_strn(s.j, kp, b.p, v.size()); }); } else { Name z(v); r = put(s, "a text", in || legal, t, 0, how, [&] { return g_json_str(s.j, kp, z); }); }
			if (r) { if (in) s.toks.back().s += v; else done({'s', v, 0, 0}); }
		}
		verify(s, n.c_str());
	}
	// strict parser
	struct Parse { const S &d; size_t i = 0; std::vector<Tok> t; bool ok = true; explicit Parse(const S &x) : d(x) {}
		void ws() { while (i < d.size() && strchr(" \t\r\n", d[i]) && d[i]) i++; }
		S str() { S o; i++; while (i < d.size() && d[i] != '"') { unsigned char c = (unsigned char)d[i]; if (c < 0x20) { ok = false; return o; } if (c == '\\') { i++; if (i >= d.size()) { ok = false; return o; } char e = d[i++]; switch (e) { case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'u': { if (i + 4 > d.size()) { ok = false; return o; } unsigned v = 0; for (int k = 0; k < 4; k++) { char h = d[i++]; if (!isxdigit((unsigned char)h)) { ok = false; return o; } v = v * 16 + (unsigned)(h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } if (v < 0x80) o += (char)v; else ok = false; break; } default: ok = false; return o; } } else { o += (char)c; i++; } } if (i >= d.size()) { ok = false; return o; } i++; return o; }
		void val() { ws(); if (!ok || i >= d.size()) { ok = false; return; } char c = d[i];
			if (c == '{') { t.push_back({'{', "", 0, 0}); i++; ws(); if (i < d.size() && d[i] == '}') i++; else for (;;) { ws(); if (i >= d.size() || d[i] != '"') { ok = false; return; } S k = str(); t.push_back({'k', k, 0, 0}); ws(); if (!ok || i >= d.size() || d[i] != ':') { ok = false; return; } i++; val(); ws(); if (!ok || i >= d.size()) { ok = false; return; } if (d[i] == ',') { i++; continue; } if (d[i] == '}') { i++; break; } ok = false; return; } t.push_back({'}', "", 0, 0}); }
			else if (c == '[') { t.push_back({'[', "", 0, 0}); i++; ws(); if (i < d.size() && d[i] == ']') i++; else for (;;) { val(); ws(); if (!ok || i >= d.size()) { ok = false; return; } if (d[i] == ',') { i++; continue; } if (d[i] == ']') { i++; break; } ok = false; return; } t.push_back({']', "", 0, 0}); }
			else if (c == '"') { S v = str(); t.push_back({'s', v, 0, 0}); }
			else { size_t k = i; while (i < d.size() && !strchr(" \t\r\n,]}:", d[i])) i++; S w = d.substr(k, i - k); if (w == "null") t.push_back({'n', "", 0, 0}); else if (w == "true" || w == "false") t.push_back({'b', w, 0, 0}); else if (isnum(w)) t.push_back({'#', w, 0, 0}); else ok = false; } }
	};
	void act(int a) {
		S k = std::to_string(a); Ser s;
		s.esc = P->get("esc" + k); s.ks = KS(P->get("ks" + k)); s.vs = VS(P->get("vs" + k)); s.depth = (size_t)P->get("depth" + k, 512); Name ks(s.ks), vs(s.vs);
		s.j = g_json_new(s.esc, ks, vs, s.depth); setbuf(s, (size_t)P->get("cap" + k, 100)); verify(s, "creation");
		for (auto &o : P->ops) if (o.actor == a) { ev("json %d %s", a, o.name.c_str()); step(s, o); }
		// a plan without its Finish (minimised) is left unfinished
		s.out += S(s.b->p, s.pend.size());
		if (s.st.size() == 1 && !s.toks.empty()) {
			Parse q(s.out); q.val(); q.ws(); if (!q.ok || q.i != s.out.size()) violate("invalid", "the document is not valid JSON at %zu: %s", q.i, s.out.substr(0, 200).c_str());
			size_t i = 0; for (; i < q.t.size() && i < s.toks.size(); i++) { auto &x = q.t[i]; auto &y = s.toks[i]; bool eq = x.t == '#' ? ((y.t == 'i' || y.t == 'd') && x.s == y.s) : x.t == y.t && x.s == y.s; if (!eq) break; }
			if (i < q.t.size() || i < s.toks.size()) violate("values", "the document does not parse back to the values given (item %zu): %s", i, s.out.substr(0, 200).c_str());
			probe("document");
		}
		delete s.b; g_json_del(s.j);
	}
	void run(Plan &p) override {
		P = &p; g_faults.on = true; set_step_limit(20000000);
		for (int a = 0; a < (int)p.get("nact", 1); a++) spawn(0, [this, a] { act(a); });
		GoResult g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "writing JSON does not return"); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C22
struct Calls { int lib, fn; S args; };
std::vector<std::vector<Calls>> g_calls;
void called(int lib, int fn, const S &args) {
	S n = "lib" + std::to_string(lib) + ".so"; bool open = lib == 90; for (auto &o : g_dl.open) if (o.second.first == n) open = true;
	if (!open) violate("stale-call", "a function of %s was called after the library was closed", n.c_str());
	point(1); g_calls[(size_t)cur()].push_back({lib, fn, args});
}
template <int L> int lf_i(int a) { called(L, 0, std::to_string(a)); return a * 3 + L; }
template <int L> double lf_d(double a, double b) { called(L, 1, std::to_string(a) + "," + std::to_string(b)); return a - b / 4 + L; }
template <int L> const char *lf_s(const char *s, size_t n) { called(L, 2, S(s, n)); return s + n + L; }
template <int L> uint64_t lf_m(uint64_t a, uint64_t b, uint64_t c, int d, double e, uint64_t g, uint64_t h, char i) { called(L, 3, std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + "," + std::to_string(e) + "," + std::to_string(g) + "," + std::to_string(h) + "," + std::to_string(i)); return a ^ (b << 1) ^ (c << 2) ^ (u64)d ^ g ^ h ^ (u64)L; }
template <int L> void lf_v(int a, uint64_t b) { called(L, 4, std::to_string(a) + "," + std::to_string(b)); }
template <int L> void lf_v0() { called(L, 5, ""); }
const char *FN[] = {"fi", "fd", "fs", "fm", "fv", "fv0", "missing"};
template <int L> void reglib() { auto &l = g_dl.libs["lib" + std::to_string(L) + ".so"]; l["fi"] = (void *)lf_i<L>; l["fd"] = (void *)lf_d<L>; l["fs"] = (void *)lf_s<L>; l["fm"] = (void *)lf_m<L>; l["fv"] = (void *)lf_v<L>; l["fv0"] = (void *)lf_v0<L>; }
struct LibH : Harness {
	Plan *P = nullptr; u64 once = 0;
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na;
		if (r.chance(0.6)) { if (r.chance(0.7)) p.cfg["f.dlopen-fail"] = r.pick(RATE); if (r.chance(0.7)) p.cfg["f.dlsym-fail"] = r.pick(RATE); }
		for (int a = 0; a < na; a++) { int n = (int)r.range(2, 16); for (int i = 0; i < n; i++) { long long m = (long long)r.below(3), f = r.chance(0.9) ? (long long)r.below(6) : 6; int x = (int)r.below(100);
			if (x < 15) p.add(a, "module", {m, r.chance(0.85) ? (long long)r.below(3) : 9}); else if (x < 40) p.add(a, "function", {(long long)r.below(4), m, f}); else if (x < 80) p.add(a, "call", {(long long)r.below(4), (long long)(r.next() >> r.below(60)), (long long)r.below(1000)}); else if (x < 86) p.add(a, "load", {m}); else if (x < 90) p.add(a, "fload", {(long long)r.below(4)}); else if (x < 94) p.add(a, "unload", {m}); else p.add(a, "once", {r.chance(0.85) ? (long long)r.below(3) : 9, r.chance(0.8) ? (r.chance(0.5) ? 0LL : 4LL) : 6, (long long)r.below(100000)}); } }
	}
	struct Fun { void *f = nullptr; int mod = -1, lib = 0, fn = 0; Name *nm = nullptr; bool failed = false; };
	struct Mod { void *m = nullptr; int lib = 0; Name *nm = nullptr; bool failed = false; };
	void act(int a) {
		std::vector<Mod> M(3); std::vector<Fun> F(4);
		auto delf = [&](Fun &f) { if (f.f) { g_fun_del(f.f); delete f.nm; f = Fun(); } };
		auto delm = [&](int i) { for (auto &f : F) if (f.mod == i) delf(f); if (M[i].m) { g_mod_del(M[i].m); delete M[i].nm; M[i] = Mod(); } };
		auto lib = [](long long l) { return "lib" + std::to_string(l) + ".so"; }; size_t me = (size_t)cur();
		for (auto &o : P->ops) if (o.actor == a) {
			if (o.name == "module") { int i = (int)o.arg(0) % 3; delm(i); M[i].lib = (int)o.arg(1); M[i].nm = new Name(lib(o.arg(1))); M[i].m = g_mod_new(*M[i].nm); }
			else if (o.name == "unload") delm((int)o.arg(0) % 3);
			else if (o.name == "function") { Fun &f = F[(size_t)o.arg(0) % 4]; int i = (int)o.arg(1) % 3; delf(f); if (!M[i].m) continue; f.mod = i; f.lib = M[i].lib; f.fn = (int)o.arg(2) % 7; f.nm = new Name(FN[f.fn]); f.f = g_fun_new(M[i].m, *f.nm); }
			else if (o.name == "load") { Mod &m = M[(size_t)o.arg(0) % 3]; if (!m.m) continue; u64 h0 = hard_faults(); void *p = g_mod_load(m.m); if (p && (!g_dl.open.count((u64)p) || g_dl.open[(u64)p].first != lib(m.lib))) violate("load", "loading %s is reported as done, it is not open", lib(m.lib).c_str()); if (!p && m.lib < 3 && !m.failed && hard_faults() == h0) violate("load", "loading %s failed without cause", lib(m.lib).c_str()); if (!p) m.failed = true; else probe("loaded"); }
			else if (o.name == "fload") { Fun &f = F[(size_t)o.arg(0) % 4]; if (!f.f) continue; void *old = g_fun_ptr(f.f); u64 h0 = hard_faults(); void *p = g_fun_load(f.f); if (p && p != g_fun_ptr(f.f)) violate("lookup", "a function is found but not kept"); if (p && (f.lib >= 3 || f.fn >= 6 || p != g_dl.libs[lib(f.lib)][FN[f.fn]])) violate("lookup", "'%s' is found where it is not", FN[f.fn]); if (!p && !old && f.lib < 3 && f.fn < 6 && !f.failed && !M[f.mod].failed && hard_faults() == h0) violate("lookup", "'%s' is not found without cause", FN[f.fn]); if (old && g_fun_ptr(f.f) != old) violate("lookup", "a function found is lost by looking again"); if (!p && !old) f.failed = true; if (hard_faults() != h0) M[f.mod].failed = true; }
			else if (o.name == "call") {
				Fun &f = F[(size_t)o.arg(0) % 4]; if (!f.f) continue; size_t c0 = g_calls[me].size(); u64 h0 = hard_faults(); u64 x = (u64)o.arg(1); int y = (int)o.arg(2); int ok = 0; bool good = true; S want; int L = f.lib;
				switch (f.fn) {
				case 0: case 6: { int *r = (int *)halloc(sizeof(int), 9); *r = -77; ok = g_call_i(f.f, r, y); want = std::to_string(y); good = ok ? *r == y * 3 + L : *r == -77; hfree(r); break; }
				case 1: { double *r = (double *)halloc(8, 9); *r = 0.5; double u = (double)(long long)(x >> 12) / 8; ok = g_call_d(f.f, r, u, y); want = std::to_string(u) + "," + std::to_string((double)y); good = ok ? *r == u - (double)y / 4 + L : *r == 0.5; hfree(r); break; }
				case 2: { const char **r = (const char **)halloc(8, 9); *r = nullptr; Name t("hello shared world"); size_t n = (size_t)y % 10; ok = g_call_s(f.f, r, t, n); want = S((const char *)t, n); good = ok ? *r == (const char *)t + n + L : *r == nullptr; hfree(r); break; }
				case 3: { uint64_t *r = (uint64_t *)halloc(8, 9); *r = 5; ok = g_call_m(f.f, r, x, x + 1, x * 3, y, (double)y / 2, x >> 7, x << 9, (char)(y & 63)); want = std::to_string(x) + "," + std::to_string(x + 1) + "," + std::to_string(x * 3) + "," + std::to_string(y) + "," + std::to_string((double)y / 2) + "," + std::to_string(x >> 7) + "," + std::to_string(x << 9) + "," + std::to_string((char)(y & 63)); good = ok ? *r == (x ^ ((x + 1) << 1) ^ ((x * 3) << 2) ^ (u64)y ^ (x >> 7) ^ (x << 9) ^ (u64)L) : *r == 5; hfree(r); break; }
				case 4: ok = g_call_v(f.f, y, x); want = std::to_string(y) + "," + std::to_string(x); break;
				case 5: ok = g_call_v0(f.f); break; }
				ev("call %s/%s -> %d", lib(L).c_str(), FN[f.fn], ok);
				if (ok) { if (g_calls[me].size() != c0 + 1) violate("calls", "a call reported as done reached %zu functions", g_calls[me].size() - c0); auto &c = g_calls[me].back(); if (L >= 3 || f.fn >= 6 || c.lib != L || c.fn != f.fn) violate("calls", "a call of '%s' in %s reached another function", FN[f.fn], lib(L).c_str()); if (c.args != want) violate("arguments", "'%s' got (%s) instead of (%s)", FN[f.fn], c.args.c_str(), want.c_str()); if (!good) violate("result", "the result of '%s' was not returned", FN[f.fn]); probe("called"); }
				else { if (g_calls[me].size() != c0) violate("calls", "a call reported as failed reached a function"); if (!good) violate("result", "a failed call changed the result variable"); if (L < 3 && f.fn < 6 && !f.failed && !M[f.mod].failed && hard_faults() == h0) violate("call-refused", "calling '%s' in %s failed without cause", FN[f.fn], lib(L).c_str()); f.failed = true; if (hard_faults() != h0) M[f.mod].failed = true; probe("call-failed"); }
			}
			else if (o.name == "once") {
				Name l(lib(o.arg(0))), n(FN[o.arg(1) % 7]); size_t c0 = g_calls[me].size(); u64 h0 = hard_faults(), k0 = g_dl.closes; int y = (int)o.arg(2), fn = (int)o.arg(1) % 7, ok; bool good = true; (void)k0;
				if (fn == 4) ok = g_once_v(l, n, y, 7); else { int *r = (int *)halloc(sizeof(int), 9); *r = -77; ok = g_once_i(l, n, r, y); good = ok ? *r == y * 3 + (int)o.arg(0) : *r == -77; hfree(r); }
				bool there = o.arg(0) < 3 && fn < 6;
				if (ok) { if (!there || g_calls[me].size() != c0 + 1 || g_calls[me].back().lib != (int)o.arg(0) || g_calls[me].back().fn != fn) violate("calls", "a single call reported as done did not reach its function"); if (g_calls[me].back().args != (fn == 4 ? std::to_string(y) + ",7" : std::to_string(y))) violate("arguments", "a single call got other arguments"); probe("once"); }
				else { if (g_calls[me].size() != c0) violate("calls", "a single call reported as failed reached a function"); if (there && hard_faults() == h0) violate("call-refused", "a single call failed without cause"); }
				if (!good) violate("result", "the result of a single call is wrong");
			}
		}
		for (int i = 0; i < 3; i++) delm(i);
		for (auto &f : F) delf(f);
	}
	void run(Plan &p) override {
		P = &p; g_calls.assign(64, {}); reglib<0>(); reglib<1>(); reglib<2>();
		// the program has functions of the same names, and the one the libraries lack
		reglib<90>(); g_dl.libs[DL_MAIN]["missing"] = (void *)lf_i<90>;
		u64 onces = 0; for (auto &o : p.ops) if (o.name == "once") onces++;
		g_faults.on = true;
		for (int a = 0; a < (int)p.get("nact", 1); a++) spawn(0, [this, a] { act(a); });
		GoResult g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a call does not return"); return; }
		if (g_dl.opens - g_dl.closes > onces || g_dl.opens < g_dl.closes) { violate("leak", "%llu libraries opened, %llu closed, %llu opened for good", (unsigned long long)g_dl.opens, (unsigned long long)g_dl.closes, (unsigned long long)onces); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C23
}
extern "C" struct passwd *sim_getpwnam(const char *);
namespace {
struct AppH : Harness {
	Plan *P = nullptr; bool nohome = false; S home, exe, pwdir; bool pw = true, pwd_ = true;
	static S dirname(long long n, long long k) { S s = "/"; for (long long i = 1; i < n; i++) s += i % 9 == 5 ? '/' : (char)('a' + (i + k) % 26); return s; }
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 2); p.cfg["nact"] = na; p.cfg["home"] = r.chance(0.6) ? r.range(1, 30) : r.chance(0.5) ? 0 : r.chance(0.5) ? -1 : r.range(30, 4200); p.cfg["hslash"] = r.chance(0.15); p.cfg["pw"] = !r.chance(0.15); p.cfg["pwdir"] = r.chance(0.7) ? r.range(1, 30) : r.chance(0.5) ? 0 : -1;
		p.cfg["exe"] = r.chance(0.8) ? r.range(2, 40) : r.chance(0.5) ? -1 : r.range(40, 4000); p.cfg["proc"] = r.chance(0.85) ? 0 : (long long)r.below(5); p.cfg["exegone"] = r.chance(0.08); p.cfg["pwextra"] = r.chance(0.7) ? 0 : r.range(900, 5000); p.cfg["asks"] = r.chance(0.3) ? r.range(1, 6) : 0;
		if (r.chance(0.4)) { static const char *ks[] = {"readlink-fail", "realpath-fail", "alloc-fail", "clock-fail"}; for (auto k : ks) if (r.chance(0.4)) p.cfg[S("f.") + k] = r.pick(RATE); }
		for (int a = 0; a < na; a++) { int n = (int)r.range(1, 8); for (int i = 0; i < n; i++) {
			long long len = p.cfg["exe"] > 0 ? p.cfg["exe"] : 10; static const char *nm[] = {"exe", "path", "system", "user", "temp", "ids"}; int w = (int)r.below(6); long long app = r.chance(0.7) ? (long long)r.below(20) : r.chance(0.5) ? -1 : (long long)r.below(300);
			long long need = w <= 1 ? len + 1 : w == 2 ? 10 + (app >= 0 ? app + 1 : 0) : w == 3 ? std::max<long long>(p.cfg["home"], 0) + 2 + (app >= 0 ? app + 2 : 0) : 6;
			long long sz = r.chance(0.75) ? std::max<long long>(0, need + r.range(-3, 3)) : r.chance(0.5) ? (long long)r.below(60) : 8192; p.add(a, nm[w], {sz, app, (long long)r.below(3), (long long)r.below(4)}); } }
	}
	S text(const char *p, size_t max, size_t said) { size_t n = 0; for (;; n++) { if (n >= max) violate("unterminated", "the result is not terminated within the %zu bytes given", max); check_access(p + n, 1, false, "the result"); if (!p[n]) break; } if (said != n + 1) violate("size", "the result has %zu bytes with its end, %zu are reported", n + 1, said); return S(p, n); }
	void act(int a) {
		for (auto &o : P->ops) if (o.actor == a) {
			if (o.name == "ids") { u64 h0 = hard_faults(); u64 t0 = real_now_us(), v = g_app_time(), t1 = real_now_us(); if (v ? v < t0 || v > t1 : hard_faults() == h0) violate("time", "the time is given as %llu, it is %llu", (unsigned long long)v, (unsigned long long)t0); if (g_app_pid() != 4000u + (u64)cur_proc()) violate("identity", "the process number is wrong"); if (g_app_tid() != fiber_self(cur())) violate("identity", "the thread number is wrong"); continue; }
			size_t n = (size_t)o.arg(0); Buf b(n); memset(b.p, 'Q', n); size_t *sz = (size_t *)halloc(sizeof(size_t), 9); *sz = n; u64 h0 = hard_faults(); int r; S want; bool can = true;
			S app; if (o.arg(1) >= 0) { for (long long i = 0; i < o.arg(1); i++) app += (char)('A' + i % 26); if (o.arg(2) == 1 && app.size() > 3) app += "/"; } Name na(app); const char *ap = o.arg(1) >= 0 ? (const char *)na : nullptr;
			auto tail = [&](S base, const char *pre) { if (base.empty() || base[base.size() - 1] != '/') base += "/"; if (ap) { base += pre; base += app; if (base[base.size() - 1] != '/') base += "/"; } return base; };
			if (o.name == "exe" || o.name == "path") {
				Name a0("/work/argv0"); const char *ar = o.arg(3) ? (const char *)a0 : nullptr; r = o.name == "exe" ? g_app_exe(b.p, sz, ar) : g_app_path(b.p, sz, ar);
				bool haslink = P->get("proc") < 4 && P->get("exe") > 0; 
				if (haslink && hard_faults() == h0) { want = exe; can = !P->get("exegone"); } else if (haslink) { want = exe; can = true; } else { want = "/work/real0"; can = ar; }
				if (o.name == "path") want = want.substr(0, want.rfind('/') + 1);
				if (r) { S g = text(b.p, n, *sz); bool alt = hard_faults() != h0 && ar && g == (o.name == "path" ? S("/work/") : S("/work/real0")); if (g != want && !alt) violate("executable", "the executable is given as '%s', it is '%s'", g.c_str(), want.c_str()); if (!can && !alt) violate("executable", "an executable is given although the system has none"); probe("exe"); }
				else if (can && n > exe.size() + 12 && n > want.size() + 1 && hard_faults() == h0) violate("refused", "the executable '%s' (%zu bytes) is refused with a buffer of %zu", want.c_str(), want.size(), n);
			} else {
				if (o.name == "system") { want = tail("/var/lib", ""); r = g_app_system(b.p, sz, ap); }
				else if (o.name == "temp") { want = "/tmp/"; r = g_app_temp(b.p, sz); }
				else { S h = !home.empty() ? home : pw && pwd_ ? pwdir : ""; can = !h.empty(); want = tail(h, "."); r = g_app_user(b.p, sz, ap); if (!can && r) violate("storage", "a user directory is given although the system has none"); }
				if (r) { S g = text(b.p, n, *sz); if (g != want) violate("storage", "a storage directory is given as '%s', it is '%s'", g.c_str(), want.c_str()); probe("dir"); }
				else if (can && n > want.size() + 1 && (o.name != "user" || hard_faults() == h0)) violate("refused", "the directory '%s' (%zu bytes) is refused with a buffer of %zu", want.c_str(), want.size(), n);
			}
			if (!r) probe("failed");
			hfree(sz);
		}
	}
	void run(Plan &p) override {
		P = &p; fs_mkdirs("/work"); fs_put("/work/real0", "x"); fs_link("/work/argv0", "real0");
		nohome = p.get("home") < 0; home = nohome ? "" : p.get("home") ? dirname(p.get("home"), 1) : ""; while (home.size() > 1 && home[home.size() - 1] == '/') home += "h"; if (p.get("hslash") && !home.empty()) home += "/"; if (nohome) env_unset("HOME"); else env_set("HOME", home);
		pw = p.get("pw", 1); pwd_ = p.get("pwdir", 1) >= 0; pwdir = pwd_ && p.get("pwdir", 1) ? dirname(p.get("pwdir", 1), 2) : ""; pw_set(pw, pwd_, pwdir, (u64)p.get("pwextra", 0));
		exe = ""; if (p.get("exe", 5) > 0) {
			// neighbours whose names are prefixes of the executable's, so that a cut-off name is a wrong answer
			long long n = p.get("exe", 5); exe = "/x"; for (long long i = 2; i < n; i++) exe += i % 200 == 100 ? '/' : (char)('a' + i % 26); if (exe[exe.size() - 1] == '/') exe += "e";
			fs_mkdirs("/"); size_t cut = exe.rfind('/'); if (cut) fs_mkdirs(exe.substr(0, cut)); for (size_t k = exe.size() > 4 ? exe.size() - 3 : 2; k < exe.size(); k++) if (k > cut + 1) fs_put(exe.substr(0, k), "neighbour"); if (!p.get("exegone")) fs_put(exe, "program");
			static const char *pl[] = {"/proc/self/exe", "/proc/curproc/file", "/proc/curproc/exe", "/proc/self/path/a.out"}; long long w = p.get("proc"); if (w < 4) { S l = pl[w]; fs_mkdirs(l.substr(0, l.rfind('/'))); fs_link(l, exe); } }
		g_faults.on = true;
		for (int a = 0; a < (int)p.get("nact", 1); a++) spawn(0, [this, a] { act(a); });
		// a part of the program that asks about other users meanwhile
		if (p.get("asks", 0) > 0) spawn(0, [this] { for (long long i = 0; i < P->get("asks", 0); i++) sim_getpwnam("bob"); });
		GoResult g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a call does not return"); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};
AddReg r1("C19", "bytes", [] () -> Harness * { return new RandH(false); });
AddReg r2("C20", "integers", [] () -> Harness * { return new RandH(true); });
AddReg r3("C21", "documents", [] () -> Harness * { return new JsonH; });
AddReg r4("C22", "calls", [] () -> Harness * { return new LibH; });
AddReg r5("C23", "places", [] () -> Harness * { return new AppH; });
}
