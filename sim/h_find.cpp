// Search and replace (C29): every variant, several threads, each with objects of its own, sharing one thread-local allocator.
#include "core.h"
#include "glue.h"
#include "glue_find.h"
#include <cstring>
#include <algorithm>
using namespace sim;
typedef std::string S;
namespace {
const long long RATE[] = {5000, 30000, 120000, 400000};
struct FindH : Harness {
	Plan *P = nullptr; void *tls = nullptr;
	struct Obj { void *f = nullptr, *r = nullptr; S pat; bool haspat = false; };
	struct Buf { char *b = nullptr; size_t n; Buf(const S &s, bool w, size_t room = (size_t)-1) { n = room == (size_t)-1 ? s.size() : room; size_t e = w ? 4 : 1; b = (char *)halloc(n * e, 9); for (size_t i = 0; i < s.size() && i < n; i++) if (w) { int32_t v = s[i]; memcpy(b + 4 * i, &v, 4); } else b[i] = s[i]; } Buf(const Buf &) = delete; ~Buf() { hfree(b); } };
	int kind = 0; bool wide = false;
	S gets(const void *p, size_t n) { size_t e = wide ? 4 : 1; if (n) check_access(p, n * e, false, "the result"); S s; for (size_t i = 0; i < n; i++) { if (wide) { int32_t v; memcpy(&v, (const char *)p + 4 * i, 4); s += v == (char)v ? (char)v : '?'; } else s += ((const char *)p)[i]; } return s; }
	// texts are generated from the seed kept in the operation, so that a plan stays short
	static S text(u64 seed, const S &pat, size_t n) { Rng r(seed); if (pat.size() == 1 && n > 60000 && r.chance(0.5)) return S(n, pat[0]); int ab = (int)r.range(1, 4); bool up = r.chance(0.3); S s; while (s.size() < n) { if (!pat.empty() && r.chance(0.15)) { S q = pat; if (r.chance(0.4)) q[r.below(q.size())] = (char)('a' + r.below(4)); if (r.chance(0.2)) q = q.substr(0, r.below(q.size() + 1)); s += q; } else { char c = (char)('a' + r.below((u64)ab)); if (up && r.chance(0.3)) c = (char)(c - 32); s += c; } } if (r.chance(0.8)) s.resize(n); return s; }
	static S pattern(u64 seed, size_t n) { Rng r(seed); static const int abs_[] = {1, 2, 3, 26}; int ab = r.pick(abs_); if (n > 2000) ab = 26; S s; for (size_t i = 0; i < n; i++) s += (char)('a' + r.below((u64)ab)); if (r.chance(0.3) && n) s[r.below(n)] = 'Z'; if (r.chance(0.2) && n > 4 && n <= 2000) for (size_t i = 1; i + 1 < n; i++) s[i] = 'a'; return s; }
	bool eq(char a, char b) { if (kind >= 2) { if (a >= 'A' && a <= 'Z') a = (char)(a + 32); if (b >= 'A' && b <= 'Z') b = (char)(b + 32); } return a == b; }
	size_t search(const S &d, const S &p, size_t from) { if (p.empty() || d.size() < p.size()) return S::npos; for (size_t i = from; i + p.size() <= d.size(); i++) { size_t j = 0; while (j < p.size() && eq(d[i + j], p[j])) j++; if (j == p.size()) return i; } return S::npos; }
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["kind"] = r.below(4); p.cfg["wide"] = r.chance(0.3); static const long long bits[] = {4, 8, 15}; p.cfg["bits"] = r.pick(bits); bool big = r.chance(0.0006); if (big) p.cfg["big"] = 1;
		if (r.chance(0.4)) p.cfg[p.cfg["kind"] & 1 ? "f.alloc-fail" : "f.new-fail"] = r.pick(RATE);
		for (int a = 0; a < na; a++) { int n = (int)r.range(2, big ? 4 : 10); for (int i = 0; i < n; i++) { static const char *nm[] = {"find", "find", "all", "all", "fixed", "inplace", "steps", "steps", "steps", "fresh"};
			static const size_t pl[] = {0, 1, 1, 2, 3, 4, 5, 6, 9, 10, 11, 14, 15, 16, 20, 33}; long long pn = r.chance(0.004) ? r.range(1020, 1100) : (long long)r.pick(pl), dn = pn > 1000 ? r.range(0, 2500) : r.chance(0.02) ? r.range(0, 1600) : r.range(0, 70); if (big) { static const long long bd[] = {16300, 32700, 65500, 65500, 131000}; dn = r.pick(bd) + r.range(0, 2000); if (r.chance(0.25)) { pn = r.range(65400, 66500); dn = pn * 2 + r.range(0, 9000); } else pn = r.chance(0.4) ? 1 : r.range(1, 33); }
			static const long long lim[] = {-1, -1, -1, 0, 1, 2, 3}, gr[] = {1024, 1024, 0, 1, 3, 10}; p.add(a, big && pn == 1 && r.chance(0.5) ? r.chance(0.5) ? "fixed" : "all" : r.pick(nm), {(long long)(r.next() >> 2), pn, dn, big || r.chance(0.8) ? r.range(0, 6) : r.range(0, 60), r.pick(lim), big ? r.range(20000, 70000) : r.pick(gr), (long long)r.below(4), (long long)(r.next() >> 2)}); } }
	}
	void act(int a) {
		const FindApi *k = g_find_api(kind, wide); bool al = kind & 1; if (al && !g_tls_init(tls, (size_t)P->get("bits", 15))) probe("no-cache");
		Obj o; size_t e = wide ? 4 : 1;
		for (auto &op : P->ops) if (op.actor == a) {
			const S &n = op.name; u64 sd = (u64)op.arg(0); S pat = pattern(sd, (size_t)op.arg(1) % 80000), d = text(sd + 1, pat, (size_t)op.arg(2) % 200000), w = pattern(sd + 2, (size_t)op.arg(3) % 100); size_t lim = op.arg(4) < 0 ? (size_t)-1 : (size_t)op.arg(4), growth = (size_t)op.arg(5), extra = (size_t)op.arg(6); int mc = (int)(sd & 1); u64 h0 = hard_faults(); Rng q((u64)op.arg(7));
			Buf bp(pat, wide), bd(d, wide), bw(w, wide); bool tp = (sd >> 1) % 4 == 0, tw = (sd >> 3) % 4 == 0; S pz = pat, wz = w; pz += '\0'; wz += '\0'; Buf bpz(pz, wide), bwz(wz, wide); void *ap = tp ? bpz.b : bp.b, *aw = tw ? bwz.b : bw.b; size_t apn = tp ? (size_t)-1 : pat.size(), awn = tw ? (size_t)-1 : w.size();   // a size of -1 stands for data that ends with a zero element
			auto model = [&](size_t &num) { S r; size_t pos = 0; num = 0; for (;;) { size_t m = num < lim ? search(d, pat, pos) : S::npos; if (m == S::npos) break; r += d.substr(pos, m - pos) + w; pos = m + pat.size(); num++; } return r + d.substr(pos); };
			if (n == "find") {
				if (!o.f) o.f = k->fnew();
				if (k->fpat(o.f, bp.b, pat.size(), al ? tls : nullptr)) { if (hard_faults() == h0) violate("refused", "setting a pattern fails"); k->fdel(o.f); o.f = nullptr; probe("new-failed"); continue; }
				for (int round = 0; round < 2; round++) {
					k->fdata(o.f, bd.b, d.size()); size_t pos = 0; int guard = 0;
					for (;;) {
						const void *f = k->fnext(o.f, mc); size_t m = search(d, pat, pos); const void *want = m == S::npos ? nullptr : bd.b + m * e;
						if (f != want) violate("match", "the next match of a pattern of %zu in %zu elements from %zu: %s, expected %s", pat.size(), d.size(), pos, f ? std::to_string(((const char *)f - bd.b) / (long)e).c_str() : "none", want ? std::to_string(m).c_str() : "none");
						if (!f) { if (k->fnext(o.f, mc)) violate("match", "a match after the last"); break; }
						probe("found"); pos = m + 1; if (q.chance(0.4)) { size_t x = q.chance(0.5) ? 0 : q.below(4); const void *s = k->fskip(o.f, x); pos = m + pat.size() + x; if (s != bd.b + pos * e) violate("match", "skipping a match leads to the wrong place"); }
						if (++guard > 400000) violate("match", "matches without end");
					}
				}
			}
			else if (n == "all") {
				void *r = nullptr; size_t rn = 99, num = 99, wn; S want = model(wn); int x = k->all(&r, &rn, bd.b, d.size(), ap, apn, aw, awn, al ? tls : nullptr, mc, lim, growth, extra, &num);
				if (x || (al && !r && hard_faults() != h0)) { if (hard_faults() == h0) violate("refused", "replacing fails"); if (!x && rn) violate("result", "no result, but a size of %zu", rn); probe("new-failed"); continue; }
				same(gets(r, rn), want, "replacing"); if (num != wn) violate("count", "%zu replacements counted, %zu made", num, wn); if (r) { check_access(r, (rn + extra) * e, true, "the result with its extra room"); k->drop(al ? tls : nullptr, r); } probe("replaced");
			}
			else if (n == "fixed" || n == "inplace") {
				size_t num = 99, wn; if (n == "inplace" && w.size() > pat.size()) continue; S want = model(wn); size_t room = n == "inplace" ? d.size() : q.chance(0.5) ? want.size() + q.below(3) : (size_t)q.below(want.size() + 1), rn; if (!room) continue;
				if (n == "inplace") { rn = d.size(); int x = k->fixed(bd.b, &rn, bd.b, d.size(), ap, apn, aw, awn, al ? tls : nullptr, mc, lim, &num); if (x) { if (hard_faults() == h0) violate("refused", "replacing fails"); continue; } same(gets(bd.b, rn), want, "replacing in place"); if (num != wn) violate("count", "%zu replacements counted, %zu made", num, wn); probe("in-place"); }
				else { Buf br("", wide, room); rn = room; int x = k->fixed(br.b, &rn, bd.b, d.size(), ap, apn, aw, awn, al ? tls : nullptr, mc, lim, &num); if (x) { if (hard_faults() == h0) violate("refused", "replacing fails"); continue; } if (rn > room) violate("result", "%zu elements in a buffer of %zu", rn, room); bool fits = want.size() <= room; same(gets(br.b, rn), fits ? want : want.substr(0, room), "replacing into a buffer"); if (fits && num != wn) violate("count", "%zu replacements counted, %zu made", num, wn); probe(fits ? "fitted" : "cut"); }
			}
			else if (n == "fresh") { if (o.r) k->rdel(o.r); o.r = k->rnew(); }
			else if (n == "steps") {
				if (!o.r) o.r = k->rnew();
				if (k->rpat(o.r, bp.b, pat.size(), al ? tls : nullptr)) { k->rdel(o.r); o.r = nullptr; probe("new-failed"); if (hard_faults() == h0) violate("refused", "setting a pattern fails"); continue; }
				k->rset(o.r, growth, extra); int rounds = (int)q.range(1, 2); bool gone = false;
				for (int round = 0; round < rounds && !gone; round++) {
					size_t room = q.chance(0.3) ? q.below(d.size() + 12) + 1 : 0; Buf fix("", wide, room); if (k->rdata(o.r, bd.b, d.size(), room ? fix.b : nullptr, room)) { gone = true; break; }
					S want; size_t pos = 0; int guard = 0;
					for (;;) {
						const void *f = nullptr; if (k->rnext(o.r, mc, &f)) { gone = true; break; } size_t m = search(d, pat, pos); const void *wf = m == S::npos ? nullptr : bd.b + m * e;
						if (al && !f && hard_faults() != h0 && !k->rget(o.r, 0)) { gone = true; break; }
						if (room && !f && wf && want.size() + (m - pos) > room) { want += d.substr(pos, m - pos); probe("step-cut"); break; }
						if (f != wf) violate("match", "the next match to replace is at the wrong place");
						if (!f) { want += d.substr(std::min(pos, d.size())); break; }
						want += d.substr(pos, m - pos); S rw = q.chance(0.3) ? S() : pattern(q.next(), (size_t)q.below(q.chance(0.2) ? 60 : 8)); size_t post = q.chance(0.2) ? q.below(5) : 0; Buf br(rw, wide);
						if (k->rrepl(o.r, br.b, rw.size(), post)) { gone = true; break; }
						want += rw; pos = std::min(d.size(), m + pat.size() + post); if (++guard > 400000) violate("match", "matches without end");
					}
					if (gone) break;
					if (al && hard_faults() != h0 && !k->rget(o.r, 0)) { gone = true; break; }
					size_t rn = k->rsize(o.r); if (room) { if (rn > room) violate("result", "%zu elements in a buffer of %zu", rn, room); if (k->rget(o.r, 0) != fix.b) violate("result", "the result is not in the buffer given"); same(gets(fix.b, rn), want.substr(0, room), "replacing step by step into a buffer"); probe("stepped-fixed"); if (q.chance(0.5) && k->rdata(o.r, bd.b, 0, nullptr, 0)) { gone = true; break; } continue; }
					bool det = q.chance(0.5); void *r = k->rget(o.r, det); same(gets(r, rn), want, "replacing step by step"); if (r) check_access(r, (rn + extra) * e, true, "the result with its extra room"); if (det && r) k->drop(al ? tls : nullptr, r); probe("stepped");
				}
				if (gone) { if (hard_faults() == h0) violate("refused", "replacing fails"); k->rdel(o.r); o.r = nullptr; probe("new-failed"); }
				else { k->rpat(o.r, bp.b, 0, al ? tls : nullptr); }
			}
			ev("%s", n.c_str());
		}
		if (o.f) k->fdel(o.f);
		if (o.r) k->rdel(o.r);
		if (al) g_tls_end(tls);
	}
	void same(const S &a, const S &b, const char *what) { if (a == b) return; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; violate("result", "%s gives %zu elements, %zu expected, the first difference at %zu", what, a.size(), b.size(), i); }
	void run(Plan &p) override {
		P = &p; set_step_limit(p.get("big") ? 150000000 : 20000000); kind = (int)p.get("kind") & 3; wide = p.get("wide"); int na = (int)p.get("nact", 1);
		spawn(0, [this] { tls = g_tls_new(); }); GoResult g = go(); if (g_viol.set) return; if (g != GO_DONE) { violate("no-progress", "creating the allocator does not return"); return; }
		g_faults.on = true; for (int a = 0; a < na; a++) spawn(0, [this, a] { act(a); }); g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g != GO_DONE) { violate("no-progress", "searching or replacing does not return"); return; }
		spawn(0, [this] { g_tls_del(tls); }); g = go(); if (g_viol.set) return;
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};
AddReg r1("C29", "replace", [] () -> Harness * { return new FindH; });
}
