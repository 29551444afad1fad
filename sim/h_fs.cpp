// Copying and moving (C15), line input and loading (C16), directories (C18), answers about files (C24).
#include "fs.h"
#include "glue.h"
#include <cstring>
#include <algorithm>
#include <set>
#include <fcntl.h>
using namespace sim;
typedef std::string S;
extern "C" struct passwd *sim_getpwnam(const char *);
extern "C" struct group *sim_getgrnam(const char *);

namespace {
struct Buf { char *p; size_t n; explicit Buf(size_t k) : p((char *)halloc(k ? k : 1, 9)), n(k) {} Buf(const Buf &) = delete; ~Buf() { hfree(p); } };
struct Name { char *p; explicit Name(const S &s) : p((char *)halloc(s.size() + 1, 9)) { memcpy(p, s.c_str(), s.size() + 1); } Name(const Name &) = delete; ~Name() { hfree(p); } operator const char *() const { return p; } };
const long long RATE[] = {20000, 60000, 150000, 400000};
S pattern(size_t n, int k) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + (i >> 9) * 3 + (size_t)k * 29 + 1); return s; }

// ------------------------------------------------------------------------------------------------ C15
struct CopyH : Harness {
	Plan *P = nullptr; bool killed = false; int victim = -1;
	struct Pend { bool on = false, move = false; S src, dst, data, old; bool had = false; };
	std::vector<Pend> pend; std::vector<int> aproc;
	static S path(int a, int i) {
		S k = std::to_string(a);
		switch (i) { case 0: case 1: case 2: return "/work/d" + k + "/f" + std::to_string(i); case 3: return "/work/d" + k + "/sub/\xc3\xa9.bin"; case 4: case 5: return "/mnt/d" + k + "/g" + std::to_string(i); case 6: return "/work/d" + k + "/link"; case 7: return "/work/d" + k + "/sub"; case 8: return "/work/d" + k + "/none/x"; case 9: return "/work/shared"; case 10: return "/work/d" + k + "/dlink/f1"; }
		return "/work/d" + k + "/mlink";
	}
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["nproc"] = r.chance(0.5) ? na : 1;
		if (r.chance(0.75)) { static const char *ks[] = {"eintr", "short-read", "short-write", "read-eio", "write-eio", "disk-full", "truncate-eio", "lseek-fail", "fstat-fail", "stat-fail", "open-fail", "flock-fail", "rename-fail", "unlink-fail", "chmod-fail", "chown-fail", "utime-fail", "eintr-close"}; for (auto k : ks) if (r.chance(0.3)) p.cfg[S("f.") + k] = r.pick(RATE); if (r.chance(0.6)) p.cfg["f.rename-fail"] = 500000; }
		if (r.chance(0.15)) p.cfg["cap1"] = (long long)r.below(40000);
		if (r.chance(0.15)) p.cfg["cap2"] = (long long)r.below(40000);
		if (r.chance(0.1)) p.cfg["f.stall"] = 10000;
		auto size = [&]() -> long long { static const long long b[] = {0, 1, 100, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 40000}; return r.chance(0.8) ? r.pick(b) : (long long)r.below(30000); };
		for (int a = 0; a < na; a++) {
			for (int i = 0; i < 6; i++) if (r.chance(0.75)) p.cfg["s" + std::to_string(a) + "." + std::to_string(i)] = size();
			int n = (int)r.range(1, 7);
			for (int i = 0; i < n; i++) {
				auto file = [&]() -> long long { return r.chance(0.85) ? (long long)r.below(6) : (long long)r.below(12); };
				p.add(a, r.chance(0.5) ? "copy" : "move", {file(), file()});
			}
		}
		if (na > 1 && r.chance(0.25)) for (int a = 0; a < na; a++) for (int k = (int)r.range(1, 2); k > 0; k--) p.add(a, "meet", {(long long)r.below(6)});
		p.cfg["shared"] = size(); if (r.chance(0.3)) p.cfg["root"] = 1;
		if (r.chance(0.25)) p.cfg["future"] = 1;
		if (r.chance(0.004)) p.cfg["s0." + std::to_string(r.below(6))] = r.range(65530, 140000);
		if (r.chance(0.03)) { auto keep = p.cfg; p.cfg.clear(); for (auto &k : keep) if (k.first.compare(0, 2, "f.") == 0) p.cfg[k.first] = k.second; p.ops.clear(); p.cfg["nact"] = p.cfg["nproc"] = 1; p.cfg["changing"] = 1; p.cfg["s0.0"] = size(); p.cfg["to"] = size(); p.cfg["when"] = (long long)r.below(r.chance(0.5) ? 60 : 900); if (r.chance(0.5)) p.cfg["s0.1"] = size(); if (r.chance(0.5)) p.cfg["s0.4"] = size(); p.add(0, "copy", {0, r.chance(0.5) ? 1 : 4}); return; }
		if (r.chance(0.00001)) { p.cfg.clear(); p.ops.clear(); p.cfg["nact"] = p.cfg["nproc"] = 1; p.cfg["giant"] = r.chance(0.6) ? (1LL << 32) + r.range(1, 30000) : (1LL << 31) + r.range(-20000, 20000); p.add(0, "copy", {0, r.chance(0.5) ? 1 : 4}); return; }
		if (p.cfg["nproc"] > 1 && r.chance(0.3)) p.add(90, "kill", {r.range(1, na - 1), (long long)r.below(500)});
	}
	static bool reg(const S &p, u64 &ino) { struct stat st; if (!fs_stat(p, st, true) || !S_ISREG(st.st_mode)) return false; ino = ((u64)st.st_dev << 40) + st.st_ino; return true; }
	static bool isdir(const S &p) { struct stat st; return fs_stat(p, st, true) && S_ISDIR(st.st_mode); }
	static S parent(const S &p) { return p.substr(0, p.rfind('/')); }
	// several copy to one place at the same time: whoever comes last, the place holds one complete source
	std::set<S> met; bool meetbad = false;
	void meet(int a, const Op &o) {
		S s = path(a, (int)o.arg(0)), data; u64 i; if (!reg(s, i) || !fs_get(s, data)) return; u64 h0 = hard_faults(); Name n1(s), n2(S("/work/meet"));
		int r = g_fs_copy(n1, n2); ev("copy %s to the meeting place -> %d", s.c_str(), r); if (r) { met.insert(data); probe("met"); } else if (hard_faults() != h0) meetbad = true; else probe("met-refused");
	}
	// somebody shortens or extends the source meanwhile: the copy holds a beginning of it, of a length it had
	S rs_text; size_t rs_from = 0, rs_to = 0;
	void changing(const Op &o) {
		S s = path(0, 0), d = path(0, (int)o.arg(1)), got, now; u64 h0 = hard_faults(); Name n1(s), n2(d); int r = g_fs_copy(n1, n2); ev("copy while it changes -> %d", r);
		if (!r) { if (hard_faults() == h0) violate("refused", "copy failed without cause"); return; } fs_get(d, got); fs_get(s, now); size_t lo = std::min(rs_from, rs_to), hi = std::max(rs_from, rs_to);
		if (got.size() < lo || got.size() > hi || got != rs_text.substr(0, got.size())) violate("incomplete", "a file of %zu bytes that became %zu was copied as %zu bytes%s", rs_from, rs_to, got.size(), got.size() <= hi ? " with other content" : "");
		if (now != rs_text.substr(0, now.size())) violate("lost-source", "the source changed"); probe("copied-while-changing");
	}
	// more than 4 GB, mostly a hole
	void giant(const Op &o) {
		u64 n = (u64)P->get("giant"); S s = path(0, 0), d = path(0, (int)o.arg(1)); fs_put(s, pattern(100, 1)); fs_sparse(s, n); Blob want; fs_get(s, want); S tail = pattern(77, 3); want.write(n - 77, tail.data(), 77); want.write(n / 2, tail.data(), 50); fs_put_blob(s, want); fs_put(d, pattern(5000, 2));
		Name n1(s), n2(d); int r = g_fs_copy(n1, n2); ev("copy of %llu bytes -> %d", (unsigned long long)n, r); if (!r) violate("refused", "copy failed without cause");
		Blob got, now; fs_get(d, got); fs_get(s, now); i64 x = got.diff(want); if (x >= 0) violate("incomplete", "a copy of %llu bytes reports success but the destination has %llu bytes and differs at %lld", (unsigned long long)n, (unsigned long long)got.size(), (long long)x); if (now.diff(want) >= 0) violate("lost-source", "the source changed"); probe("giant");
	}
	void act(int a, const Op &o) {
		if (P->get("giant", 0)) return giant(o);
		if (P->get("changing", 0)) return changing(o);
		if (o.name == "meet") return meet(a, o);
		S s = path(a, (int)o.arg(0)), d = path(a, (int)o.arg(1)); bool move = o.name == "move";
		if (move && (o.arg(0) == 9 || o.arg(0) == 6 || o.arg(0) == 11 || o.arg(1) == 9)) return;     // links are moved as links; the shared file stays
		if (o.arg(1) == 9) return;
		{ struct stat st; if (move && fs_stat(s, st, false) && !S_ISREG(st.st_mode)) return; }              // only files are judged
		u64 si = 0, di = 0; bool sr = reg(s, si), dr = reg(d, di); S data, old; if (sr) fs_get(s, data); if (dr) fs_get(d, old);
		auto before = fs_snapshot(); bool same = sr && dr && si == di; struct stat src; if (!fs_stat(s, src, true)) memset(&src, 0, sizeof src);
		Pend &q = pend[(size_t)a]; q.on = true; q.move = move; q.src = s; q.dst = d; q.data = data; q.had = sr; q.old = old;
		u64 h0 = hard_faults(); Name n1(s), n2(d);
		int r = move ? g_fs_move(n1, n2) : g_fs_copy(n1, n2); ev("%s %s %s -> %d", o.name.c_str(), s.c_str(), d.c_str(), r);
		q.on = false;
		S now; u64 ni; bool still = reg(s, ni); if (still) fs_get(s, now);
		S got; u64 gi; bool dst = reg(d, gi); if (dst) fs_get(d, got);
		if (r) {
			if (!sr) violate("no-source", "%s of something that is not a file reports success", o.name.c_str());
			if (!dst) violate("incomplete", "%s reports success but there is no destination file", o.name.c_str());
			if (got != data) { size_t i = 0; while (i < got.size() && i < data.size() && got[i] == data[i]) i++; violate("incomplete", "%s of %zu bytes reports success but the destination has %zu bytes and differs at %zu", o.name.c_str(), data.size(), got.size(), i); }
			if (move && s != d && !same && fs_exists(s)) violate("source-left", "a move reports success but the source is still there");
			if (!move && same) violate("same-file", "copying a file onto itself reports success");
			struct stat s2; if (hard_faults() == h0 && sr && s != d && !same && fs_stat(d, s2, true)) { if ((s2.st_mode & 07777) != (src.st_mode & 07777)) violate("attributes", "after a %s the destination has mode %o, the source had %o", o.name.c_str(), s2.st_mode & 07777, src.st_mode & 07777); if (g_fs_root && (s2.st_uid != src.st_uid || s2.st_gid != src.st_gid)) violate("attributes", "after a %s the destination belongs to %u:%u, the source to %u:%u", o.name.c_str(), (unsigned)s2.st_uid, (unsigned)s2.st_gid, (unsigned)src.st_uid, (unsigned)src.st_gid); if (s2.st_mtime != src.st_mtime) violate("attributes", "after a %s the destination's modification time is not the source's", o.name.c_str()); }
			probe(move ? "moved" : "copied");
		} else {
			bool room = isdir(parent(d)) && !isdir(d);
			struct stat st; bool usable = sr && !same && room && (!fs_stat(d, st, true) || (st.st_mode & 0200)) && fs_stat(s, st, true) && (st.st_mode & 0400);
			if (usable && hard_faults() == h0) violate("refused", "%s failed without cause", o.name.c_str());
			probe(move ? "move-failed" : "copy-failed");
		}
		if (sr && (!r || !move) && !(r && same)) { if (!still) violate("lost-source", "%s %s and the source file is gone", r ? "a copy succeeded" : "a failed", r ? "" : o.name.c_str()); if (now != data) violate("lost-source", "the source changed from %zu to %zu bytes when a %s %s", data.size(), now.size(), o.name.c_str(), r ? "succeeded" : "failed"); }
		if (same) { if (!dst || got != data) violate("lost-source", "a %s of a file onto itself destroyed it", o.name.c_str()); }
		// nothing else changed (others work elsewhere)
		auto after = fs_snapshot(); S own1 = "/work/d" + std::to_string(a) + "/", own2 = "/mnt/d" + std::to_string(a) + "/";
		std::set<S> skip{s, d}; auto tgt = [&](const S &x) { auto it = before.find(x); if (it != before.end() && it->second.compare(0, 2, "l:") == 0) skip.insert(it->second.substr(2)); }; tgt(d); tgt(s);
		for (auto *m : {&before, &after}) for (auto &e : *m) { if (e.first.compare(0, own1.size(), own1) && e.first.compare(0, own2.size(), own2)) continue; S real = e.first; if (skip.count(real)) continue; S viad = "/work/d" + std::to_string(a) + "/f1"; if (real == viad && (skip.count(path(a, 10)))) continue;
			auto x = before.find(e.first), y = after.find(e.first); if (x == before.end() || y == after.end() || x->second != y->second) violate("elsewhere", "a %s changed '%s', which is neither source nor destination", o.name.c_str(), e.first.c_str()); }
	}
	void run(Plan &p) override {
		P = &p; int na = (int)p.get("nact", 1), np = (int)p.get("nproc", 1); pend.resize(na); if (p.get("giant", 0)) set_step_limit(4000000000ULL);
		std::vector<int> pid; for (int i = 0; i < np; i++) pid.push_back(i ? new_proc() : 0);
		for (int a = 0; a < na; a++) aproc.push_back(pid[a % np]);
		fs_mkdirs("/work"); fs_put("/work/shared", pattern((size_t)p.get("shared"), 99));
		for (int a = 0; a < na; a++) { S k = std::to_string(a); fs_mkdirs("/work/d" + k + "/sub"); fs_mkdirs("/mnt/d" + k); for (int i = 0; i < 6; i++) { S c = "s" + k + "." + std::to_string(i); if (p.cfg.count(c)) { fs_put(path(a, i), pattern((size_t)p.get(c), i + a * 10), i == 2 ? 0444 : i == 3 ? 0600 : i == 5 ? 04755 : 0644); fs_set_mtime(path(a, i), (p.get("future", 0) && i % 2 ? 40000000000ULL : 1000) + (u64)i); if (p.get("root", 0)) fs_chown(path(a, i), i % 2 ? 1001 : 1000, 1000 + i); } } fs_link(path(a, 6), path(a, 0)); fs_link("/work/d" + k + "/dlink", "/work/d" + k); fs_link(path(a, 11), path(a, 4)); }
		for (int dv = 1; dv <= 2; dv++) { S c = "cap" + std::to_string(dv); if (p.cfg.count(c)) { u64 u = 0; for (auto &e : fs_snapshot()) if ((e.first.compare(0, 4, "/mnt") == 0) == (dv == 2) && e.second[0] == 'f') u += e.second.size() - 6; fs_cap(dv, u + (u64)p.get(c)); } }
		g_fs_root = p.get("root", 0); g_faults.on = true;
		if (p.get("changing", 0)) { rs_from = (size_t)p.get("s0.0"); rs_to = (size_t)p.get("to"); rs_text = pattern(std::max(rs_from, rs_to), 0); spawn(new_proc(), [this] { for (long long i = 0; i < P->get("when"); i++) point(1); Blob b(rs_text.substr(0, rs_to)); fs_put_blob(path(0, 0), b); probe("source-changed"); }); }
		for (int a = 0; a < na; a++) spawn(aproc[a], [this, a] { for (auto &o : P->ops) if (o.actor == a) act(a, o); });
		for (auto &o : p.ops) if (o.actor == 90 && o.arg(0) < np) { int v = pid[(size_t)o.arg(0)]; long long n = o.arg(1); victim = v; spawn(new_proc(), [this, v, n] { for (long long i = 0; i < n; i++) point(1); if (proc_alive(v)) { kill_proc(v); killed = true; probe("process-died"); } }); }
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "copying or moving does not return"); return; }
		for (int a = 0; a < na; a++) if (killed && aproc[a] == victim && pend[a].on && pend[a].had) {
			Pend &q = pend[a]; S x, y; bool s = fs_get(q.src, x), d = fs_get(q.dst, y);
			if (!(s && x == q.data) && !(q.move && d && y == q.data)) { violate("lost-source", "a process died during a %s and the source's bytes are gone", q.move ? "move" : "copy"); return; }
			probe("died-inside");
		}
		{ S m; if (!met.empty() && !meetbad && !killed && (!fs_get("/work/meet", m) || !met.count(m))) { violate("incomplete", "after several copies to one place it holds %zu bytes, which none of the sources has", m.size()); return; } }
		for (int q : pid) if (proc_alive(q) && fd_count(q)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(q)); return; }
		if (!killed && live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C16
std::set<void *> g_alt; bool g_alt_bad;
void *alt_malloc(void *m, size_t n) { if (m != (void *)&g_alt) g_alt_bad = true; if (!n || fault("alloc-fail")) return nullptr; void *p = halloc(n, 8); g_alt.insert(p); return p; }
void alt_free(void *m, void *p) { if (m != (void *)&g_alt) g_alt_bad = true; if (!p) return; if (!g_alt.erase(p)) violate("alt-free", "memory that is not from the given allocator was returned to it"); hfree(p); }
void *alt_realloc(void *m, void *p, size_t n) {
	if (m != (void *)&g_alt) g_alt_bad = true;
	if (!p) return alt_malloc(m, n);
	if (!g_alt.count(p)) violate("alt-free", "memory that is not from the given allocator was resized with it");
	if (!n) { alt_free(m, p); return nullptr; }
	if (fault("alloc-fail")) return nullptr;
	void *q = halloc(n, 8); memcpy(q, p, std::min(n, hsize(p))); g_alt.erase(p); hfree(p); g_alt.insert(q); return q;
}
struct LineH : Harness {
	Plan *P = nullptr; void *f = nullptr; S text; bool shrinks = false; int shrunk = 0;
	static S content(Plan &p) {
		S t; int i = 0;
		for (auto &o : p.ops) if (o.name == "text") { size_t n = (size_t)o.arg(0); for (size_t k = 0; k < n; k++) t += (o.arg(2) && k % (size_t)(o.arg(2) + 1) == (size_t)o.arg(2)) ? '\0' : (char)("abcdefgh \xc3\xa9"[(k + (size_t)i) % 10] ? "abcdefgh \xc3\xa9"[(k * 3 + (size_t)i) % 11] : 'x'); i++; static const char *e[] = {"\n", "\r", "\r\n", "\n\r", "", "\r\r", "\n\n"}; t += e[o.arg(1) % 7]; }
		return t;
	}
	void gen(Rng &r, Plan &p) override {
		int n = (int)r.range(0, 12);
		static const long long hints[] = {0, 1, 2, 3, 7, 8, 16, 64, 100, 1023, 1024, 1024, 1024, 4096};
		long long hint = r.pick(hints); int style = (int)r.below(3);
		if (r.chance(0.75)) { static const char *ks[] = {"eintr", "short-read", "read-eio", "lseek-fail", "fstat-fail", "alloc-fail", "new-fail"}; for (auto k : ks) if (r.chance(0.35)) p.cfg[S("f.") + k] = r.pick(RATE) / (k[0] == 'e' || k[0] == 's' ? 1 : 4); if (r.chance(0.3)) p.cfg["f.open-fail"] = 200000; if (r.chance(0.2)) p.cfg["f.flock-fail"] = 100000; }
		for (int i = 0; i < n; i++) {
			long long len = style == 0 ? (long long)r.below(20) : style == 1 ? std::max<long long>(0, hint * (long long)r.range(0, 3) + r.range(-3, 2)) : (long long)r.below(3000);
			p.add(0, "text", {std::min<long long>(len, 9000), (long long)r.below(r.chance(0.5) ? 3 : 7), r.chance(0.2) ? (long long)r.below(9) + 1 : 0});
		}
		int m = (int)r.range(1, 4);
		if (r.chance(0.002)) { m = 1; p.ops.clear(); static const long long lens[] = {65534, 65535, 65536, 65537, 65600, 70000, 131071, 131073}, hh[] = {1024, 4096, 65535, 65536, 70000, 3000}; hint = r.pick(hh); for (int i = 0; i < 3; i++) p.add(0, "text", {r.chance(0.6) ? r.pick(lens) : (long long)r.below(100), (long long)r.below(3), 0}); }
		for (int i = 0; i < m; i++) {
			double x = (double)r.below(100);
			if (x < 60) p.add(0, "lines", {r.chance(0.7) ? hint : (long long)r.pick(hints), (long long)r.below(3), r.chance(0.2) ? (long long)r.below(6) : 1000});
			else if (x < 90) p.add(0, "load", {(long long)r.below(2)});
			else if (x < 95) p.add(0, "wronly", {}); else p.add(0, "missing", {(long long)r.below(2)});
		}
		p.cfg["other"] = r.chance(0.2); if (r.chance(0.12)) { p.add(80, "shrink", {(long long)r.below(60), (long long)r.below(100)}); }
	}
	void drop(char *l, int alt) { if (alt == 1) alt_free(&g_alt, l); else g_del_chars(l); }
	void do_lines(const Op &o) {
		size_t hint = (size_t)o.arg(0); int alt = (int)o.arg(1); long long max = o.arg(2, 1000);
		if (text.size() / std::max<size_t>(hint, 1) > 400) hint = text.size() > 40000 ? 4096 : 64;
		void *h = g_file_new(); u64 h0 = hard_faults(); Name nm("/work/t.txt");
		if (!g_file_open(h, nm, O_RDONLY, 0, 0)) { if (hard_faults() == h0) violate("open-refused", "opening failed without cause"); g_file_del(h); return; }
		size_t pos = 0; long long cnt = 0;
		while (cnt++ < max) {
			h0 = hard_faults(); bool end = pos >= text.size();
			char *l = alt == 1 ? g_file_line(h, hint, &g_alt, alt_realloc) : alt == 2 && hint == 1024 ? g_file_line0(h) : g_file_line(h, hint, nullptr, nullptr);
			if (!l) { if (!end && hard_faults() == h0) violate("line-lost", "reading the line at %zu of %zu returned nothing", pos, text.size()); if (end) break; probe("line-failed"); break; }
			size_t e = pos; while (e < text.size() && text[e] != '\n' && text[e] != '\r') e++;
			S want = text.substr(std::min(pos, text.size()), e - std::min(pos, text.size())); for (auto &c : want) if (!c) c = ' ';
			size_t nx = e < text.size() ? e + 1 + (text[e] == '\r' && e + 1 < text.size() && text[e + 1] == '\n') : e;
			size_t n = 0; for (;; n++) { check_access(l + n, 1, false, "a line"); if (!l[n]) break; }
			if (S(l, n) != want) { if (hard_faults() != h0) violate("line-partial", "a line of %zu bytes cut short by a failing read was returned as if complete (%zu bytes)", want.size(), n); violate("line-content", "the line at %zu should have %zu bytes, %zu returned%s", pos, want.size(), n, n == want.size() ? " with other content" : ""); }
			u64 at = g_file_pos(h); if (at != nx) violate("line-position", "after the line at %zu the object is at %llu, the next line starts at %zu (size %zu)", pos, (unsigned long long)at, nx, text.size());
			drop(l, alt); pos = nx; probe("line");
			if (end) { probe("end"); break; }
		}
		g_file_del(h);
	}
	void do_load(const Op &o, const char *path, bool there) {
		int alt = (int)o.arg(0); char *r = (char *)1; size_t n = 12345; u64 h0 = hard_faults(); Name nm(path); S text0 = text; int s0 = shrunk;
		int ok = g_file_load(nm, &r, &n, alt ? &g_alt : nullptr, alt ? alt_malloc : nullptr, alt ? alt_free : nullptr);
		if (!ok) { if (there && hard_faults() == h0 && shrunk == s0) violate("load-refused", "loading %zu bytes failed without cause", text.size()); probe("load-failed"); return; }
		if (!there) violate("load-missing", "loading a file that does not exist succeeded");
		const S &text = n == text0.size() ? text0 : this->text;   // the file may have become shorter meanwhile
		if (n != text.size()) violate("load-size", "loading a file of %zu bytes returned %zu", text.size(), n);
		if (n) { check_access(r, n, false, "the loaded data"); if (memcmp(r, text.data(), n)) violate("load-content", "loaded bytes differ from the file"); }
		if (alt) alt_free(&g_alt, r); else g_del_chars(r); probe("loaded");
	}
	void run(Plan &p) override {
		P = &p; text = content(p); for (auto &o : p.ops) if (o.name == "shrink") shrinks = true; g_alt.clear(); g_alt_bad = false; set_step_limit(6000000);
		fs_mkdirs("/work"); fs_put("/work/t.txt", text);
		g_faults.on = true;
		for (int a = 0; a < (p.get("other") ? 2 : 1); a++) spawn(0, [this] { for (auto &o : P->ops) { if (o.name == "lines") { if (!shrinks) do_lines(o); } else if (o.name == "load") do_load(o, "/work/t.txt", true); else if (o.name == "missing") do_load(o, "/work/none", false);
			else if (o.name == "wronly") { void *h = g_file_new(); if (g_file_line0(h)) violate("line-closed", "a closed object returned a line"); Name nm("/work/t.txt"); if (g_file_open(h, nm, O_WRONLY, 0, 0) && g_file_line0(h)) violate("line-closed", "an object not open for reading returned a line"); g_file_del(h); } } });
		if (shrinks) spawn(new_proc(), [this] { for (auto &o : P->ops) if (o.name == "shrink") { for (int i = 0; i < o.arg(0); i++) point(1); text.resize(text.size() * (size_t)o.arg(1) / 100); shrunk++; fs_put("/work/t.txt", text); probe("shrunk"); } });
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "reading lines or loading does not return"); return; }
		S now; fs_get("/work/t.txt", now); if (now != text) { violate("changed", "reading changed the file"); return; }
		if (g_alt_bad) { violate("alt-manager", "the given allocator was called for another manager"); return; }
		if (!g_alt.empty()) { violate("leak", "%zu block(s) of the given allocator left", g_alt.size()); return; }
		if (fd_count(0)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(0)); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C18
struct DirH : Harness {
	Plan *P = nullptr; bool noise = false; std::vector<int> aproc;
	static S comp(int i) { static const char *s[] = {"a", "b", "c", "dd", ".hid", "..x", "...", "\xc3\xa9", "sp ace", "e"}; if (i < 10) return s[i]; if (i == 10) return S(255, 'L'); static const char *w[] = {"st*r", "q?", "bs\\x", "tab\t"}; return w[(i - 11) % 4]; }
	static bool odd(const S &n) { for (char c : n) if ((unsigned char)c < 0x20 || c == 0x7F || strchr("*?\"<>|\\", c)) return true; return false; }
	S base(int a) { return "/work/w" + std::to_string(a) + "/t"; }
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["dtype_unknown"] = r.chance(0.3); p.cfg["nproc"] = r.chance(0.3) ? na : 1;
		if (r.chance(0.6)) { static const char *ks[] = {"stat-fail", "unlink-fail", "rmdir-fail", "mkdir-fail", "opendir-fail", "readdir-fail", "getcwd-fail"}; for (auto k : ks) if (r.chance(0.35)) p.cfg[S("f.") + k] = r.pick(RATE); }
		if (r.chance(0.1)) p.cfg["f.stall"] = 10000;
		bool weird = r.chance(0.1), nz = r.chance(0.15);
		int voc = (int)r.range(2, 10);
		auto nm = [&]() -> long long { return weird && r.chance(0.2) ? (long long)r.range(10, 14) : (long long)r.below(voc); };
		for (int a = 0; a < na; a++) {
			int n = (int)r.range(0, 14);
			for (int i = 0; i < n; i++) { std::vector<long long> v{(long long)r.below(10), (long long)r.below(5)}; int d = (int)r.range(1, r.chance(0.1) ? 9 : 4); for (int k = 0; k < d; k++) v.push_back(nm()); p.add(a, "plant", v); }
			int m = (int)r.range(1, 8);
			for (int i = 0; i < m; i++) {
				double x = (double)r.below(100); std::vector<long long> v{(long long)r.below(2), (long long)r.below(7)}; int d = (int)r.range(x < 40 ? 1 : 0, x < 40 ? 5 : 3); for (int k = 0; k < d; k++) v.push_back(nm());
				p.add(a, x < 40 ? "mkdir" : x < 75 ? "rmdir" : x < 97 ? "list" : "listroot", v);
			}
		}
		if (nz) for (int i = 0; i < 6; i++) p.add(80, "noise", {(long long)r.below(na), (long long)r.below(40), (long long)r.below(voc), (long long)r.below(2)});
	}
	// builds a path from components, in different spellings
	S spell(int a, const Op &o, S &canon, bool &trick) {
		canon = base(a); S sp = canon; trick = false; int way = (int)o.arg(1);
		for (size_t i = 2; i < o.a.size(); i++) {
			S c = comp((int)o.a[i]); canon += "/" + c; for (auto &ch : canon) if (ch == '\\') ch = '/';
			if (way == 1) sp += "//" + c; else if (way == 2) sp += "/./" + c; else if (way == 3) sp += "/zz/../" + c; else if (way == 4) sp += "\\" + c; else sp += "/" + c;
			if (way == 4 && c.find('\\') != S::npos) trick = true;
		}
		for (size_t i = 2; i < o.a.size(); i++) if (odd(comp((int)o.a[i]))) trick = true;
		if (way == 5) sp += "/"; else if (way == 6) { sp = sp.substr(6); }   // relative to the current directory /work
		return sp;
	}
	// real location of a path whose parents may be symbolic links; empty if a parent is missing or no directory
	static S real(const S &p) {
		struct stat st; size_t i = p.rfind('/'); if (i == 0) return p; S par = p.substr(0, i), leaf = p.substr(i);
		if (!fs_stat(par, st, true) || !S_ISDIR(st.st_mode)) return "";
		S rp = fs_realdir(par); return (rp == "/" ? "" : rp) + leaf;
	}
	static bool below(const S &p, const S &top) { return p == top || (p.size() > top.size() && p.compare(0, top.size(), top) == 0 && p[top.size()] == '/'); }
	bool mine(int a, const S &p) { return below(p, base(a)) || below(p, "/out" + std::to_string(a)); }
	void act(int a, const Op &o) {
		S canon; bool trick; S sp = spell(a, o, canon, trick); if (o.name == "listroot") { static const char *rs[] = {"/", "//", "/work/..", "/.", "/work/w0/../../"}; canon = "/"; sp = rs[o.arg(1) % 5]; trick = false; } u64 h0 = hard_faults();
		auto before = fs_snapshot(); struct stat st;
		if (o.name == "mkdir") {
			bool rec = o.arg(0); std::vector<S> miss; bool possible = !trick; bool there = false, canmake = true;
			{ S cur = ""; S rcur = ""; size_t i = 1; bool gone = false;
			  while (i <= canon.size()) { size_t j = canon.find('/', i); if (j == S::npos) j = canon.size(); S c = canon.substr(i, j - i); cur += "/" + c; i = j + 1;
				if (!gone && fs_stat(cur, st, false)) { if (!fs_stat(cur, st, true) || !S_ISDIR(st.st_mode)) { possible = false; miss.clear(); break; } rcur = fs_realdir(cur); if (rcur == "/") rcur = "";  canmake = (st.st_mode & 0300) == 0300; }
				else { gone = true; rcur += "/" + c; miss.push_back(rcur); } } }
			there = miss.empty();
			if ((!rec && miss.size() > 1) || !canmake) possible = false;
			static const int modes[] = {0777, 0777, 0700, 0755, 0750, 0711}; int mode = modes[(size_t)(o.arg(1) + 3 * o.arg(2) + (long long)o.a.size()) % 6]; Name nm(sp); int r = g_dir_mkdir(nm, mode, rec); ev("mkdir %s rec=%d -> %d", sp.c_str(), rec, r);
			if (trick) { if (!r) probe("odd-name-refused"); return; }   // special characters: refused, or a separator
			auto after = fs_snapshot(); std::set<S> ok(miss.begin(), miss.end()); if (!rec) ok = miss.empty() ? std::set<S>() : std::set<S>{miss.back()};
			for (auto &e : after) if (mine(a, e.first) && e.first.find("noise") == S::npos) { auto b = before.find(e.first); if (b == before.end()) { if (!ok.count(e.first) || e.second != "d") violate("mkdir-extra", "making '%s' created '%s'", sp.c_str(), e.first.c_str()); struct stat s2; if (fs_stat(e.first, s2, false) && (s2.st_mode & 0777) != (unsigned)(mode & ~022)) violate("mkdir-mode", "making '%s' with mode %o created '%s' with mode %o", sp.c_str(), mode, e.first.c_str(), (unsigned)s2.st_mode & 0777); } else if (b->second != e.second) violate("mkdir-extra", "making '%s' changed '%s'", sp.c_str(), e.first.c_str()); }
			for (auto &e : before) if (mine(a, e.first) && e.first.find("noise") == S::npos && !after.count(e.first)) violate("mkdir-extra", "making '%s' removed '%s'", sp.c_str(), e.first.c_str());
			if (r) { if (!there && (miss.empty() || !after.count(miss.back()))) violate("mkdir-false", "making '%s' reports success but it does not exist", sp.c_str()); if (there && !(fs_stat(canon, st, true) && S_ISDIR(st.st_mode))) violate("mkdir-false", "making '%s' reports success but there is no such directory", sp.c_str()); probe("made"); }
			else if (possible && !there && hard_faults() == h0 && !noise) violate("mkdir-refused", "making '%s' (recursive %d) failed without cause", sp.c_str(), rec);
		} else if (o.name == "rmdir") {
			bool rec = o.arg(0); S top = real(canon); bool isd = !top.empty() && fs_stat(top, st, false) && S_ISDIR(st.st_mode), empty = true, strange = false;
			for (auto &e : before) if (isd && e.first != top && below(e.first, top)) { empty = false; if (e.second == "d" && odd(e.first)) strange = true; if (e.second == "d") { struct stat s2; if (fs_stat(e.first, s2, false) && (s2.st_mode & 0700) != 0700) strange = true; } }
			if (isd && fs_stat(top, st, false) && (st.st_mode & 0700) != 0700) strange = true;
			{ struct stat s2; S par = top.substr(0, top.rfind('/')); if (!par.empty() && fs_stat(par, s2, true) && (s2.st_mode & 0700) != 0700) strange = true; }
			Name nm(sp); int r = g_dir_rmdir(nm, rec); ev("rmdir %s rec=%d -> %d", sp.c_str(), rec, r);
			auto after = fs_snapshot();
			for (auto &e : before) if (mine(a, e.first) && e.first.find("noise") == S::npos) { auto x = after.find(e.first);
				if (x == after.end()) { if (!isd || !below(e.first, top)) violate("rmdir-outside", "removing '%s' deleted '%s'", sp.c_str(), e.first.c_str()); if (!rec && e.first != top) violate("rmdir-outside", "removing '%s' (not recursively) deleted '%s'", sp.c_str(), e.first.c_str()); }
				else if (x->second != e.second) violate("rmdir-outside", "removing '%s' changed '%s'", sp.c_str(), e.first.c_str()); }
			for (auto &e : after) if (mine(a, e.first) && e.first.find("noise") == S::npos && !before.count(e.first)) violate("rmdir-outside", "removing '%s' created '%s'", sp.c_str(), e.first.c_str());
			if (r) { if (!isd) violate("rmdir-false", "removing '%s', which is no directory, reports success", sp.c_str()); if (after.count(top) && !noise) violate("rmdir-false", "removing '%s' reports success but it is still there", sp.c_str()); probe("removed"); if (!empty) probe("removed-tree"); }
			else if (isd && !trick && !strange && (rec ? canon == top : empty) && hard_faults() == h0 && !noise) violate("rmdir-refused", "removing '%s' (recursive %d) failed without cause", sp.c_str(), rec);
			if (!r && !rec && hard_faults() == h0 && !noise) for (auto &e : before) if (mine(a, e.first) && !after.count(e.first)) violate("rmdir-outside", "a refused removal deleted '%s'", e.first.c_str());
		} else if (o.name == "list" || o.name == "listroot") {
			bool isd = fs_stat(canon, st, true) && S_ISDIR(st.st_mode) && (st.st_mode & 0500) == 0500; std::multiset<S> want; if (isd) { for (auto &n : fs_list(canon)) want.insert(n); want.insert("."); want.insert(".."); }
			void *d = g_dir_new(); Name nm(sp); int r = g_dir_open(d, nm); ev("list %s -> %d", sp.c_str(), r);
			if (r && !isd && !trick) violate("list-false", "listing '%s', which is no directory, succeeds", sp.c_str());
			if (!r && isd && !trick && hard_faults() == h0 && !noise) violate("list-refused", "listing '%s' failed without cause", sp.c_str());
			if (r) {
				std::multiset<S> got; Buf b(o.arg(0) ? 4096 : 300); bool stop = o.a.size() % 5 == 4, ended = false; int k = 0;
				while (!(stop && k++ >= 2)) { if (!g_dir_read(d, b.p, b.n)) { ended = true; break; } size_t n = 0; for (;; n++) { check_access(b.p + n, 1, false, "an entry name"); if (!b.p[n]) break; } got.insert(S(b.p, n)); if (got.size() > 300) break; }
				for (auto &n : got) { if (got.count(n) > 1) violate("list-twice", "listing '%s' returned '%s' twice", sp.c_str(), n.c_str()); if (!noise && !trick && !want.count(n)) violate("list-extra", "listing '%s' returned '%s', which is not there", sp.c_str(), n.c_str()); }
				if (!stop && !noise && !trick && hard_faults() == h0) for (auto &n : want) if (!got.count(n)) violate("list-missing", "listing '%s' did not return '%s'", sp.c_str(), n.c_str());
				if (!stop) { if (g_dir_read(d, b.p, b.n) && !noise) violate("list-end", "listing goes on after its end"); }
				if (stop && o.arg(1) % 2) { if (!g_dir_close(d) && !ended) violate("list-close", "closing an open listing failed"); if (g_dir_read(d, b.p, b.n)) violate("list-end", "listing goes on after closing"); }
				probe("listed");
				if (stop && o.arg(1) % 3 == 0) { g_dir_open(d, nm); }
			}
			g_dir_del(d);
		}
	}
	void plant(int a, const Op &o) {
		S p = base(a); fs_mkdirs(p); int n = (int)o.a.size();
		for (int i = 2; i < n - 1; i++) { S q = p + "/" + comp((int)o.a[i]); struct stat st; if (fs_stat(q, st, false) && !S_ISDIR(st.st_mode)) return; fs_mkdirs(q); p = q; }
		S leaf = p + "/" + comp((int)o.a[n - 1]); if (fs_exists(leaf)) return; S out = "/out" + std::to_string(a);
		switch (o.arg(0)) { case 0: case 1: case 2: fs_put(leaf, "file"); break; case 3: case 4: case 5: fs_mkdirs(leaf); break; case 6: fs_link(leaf, out + "/keep"); break; case 7: fs_link(leaf, o.arg(1) ? out + "/keep/file" : out + "/gone"); break; case 8: fs_link(leaf, o.arg(1) % 2 ? ".." : base(a)); break; case 9: fs_mkdirs(leaf); if (!o.arg(1)) fs_chmod(leaf, 0555); break; }
	}
	void run(Plan &p) override {
		P = &p; int na = (int)p.get("nact", 1), np = (int)p.get("nproc", 1);
		std::vector<int> pid; for (int i = 0; i < np; i++) pid.push_back(i ? new_proc() : 0);
		for (int a = 0; a < na; a++) { S out = "/out" + std::to_string(a); fs_mkdirs(out + "/keep/deep"); fs_put(out + "/keep/file", "precious"); fs_put(out + "/keep/deep/file", "precious"); fs_mkdirs(base(a)); for (auto &o : p.ops) if (o.actor == a && o.name == "plant" && o.a.size() > 2) plant(a, o); }
		g_faults.on = true;
		for (auto &o : p.ops) if (o.name == "noise") noise = true;
		for (int a = 0; a < na; a++) spawn(pid[a % np], [this, a] { for (auto &o : P->ops) if (o.actor == a && o.name != "plant") act(a, o); });
		if (noise) spawn(new_proc(), [this] { for (auto &o : P->ops) if (o.name == "noise") { for (int i = 0; i < o.arg(1); i++) point(1); S d = base((int)o.arg(0)) + "/" + comp((int)o.arg(2)); struct stat st; if (fs_stat(d, st, false) && S_ISDIR(st.st_mode)) { fs_put(d + "/noise" + std::to_string(o.arg(1)), "n"); probe("noise"); } } });
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a directory operation does not return"); return; }
		for (int q : pid) if (fd_count(q)) { violate("leak", "%llu directory handle(s) left open", (unsigned long long)fd_count(q)); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C24
struct MetaH : Harness {
	Plan *P = nullptr;
	static S path(int i) { static const char *s[] = {"/work/a", "/work/sub", "/work/sub/f.x", "/work/link", "/work/dlink", "/work/dang", "/work/loop", "/work/none", "/work/none/x", "/work/dlink/f.x", "/work/sub/new", "a", "sub/f.x", "./a", "/work/sub/../a", "/", "/work/longlink", "/work/other", "/work/w*d", "/work/ct\x01l", "\\work\\sub\\f.x", "sub\\f.x", "/work/\xc3\xa9", "/work/del\x7f", "/work//a", "/work/sub/", "@4000", "@4095", "@8190", "@9000"}; S r = s[i % 30]; if (r[0] == '@') { size_t n = (size_t)atoi(r.c_str() + 1); r = "/work"; while (r.size() < n) r += '/'; r[n - 1] = 'a'; } return r; }
	static bool odd(const S &n) { for (char c : n) if ((unsigned char)c < 0x20 || c == 0x7F || strchr("*?\"<>|", c)) return true; return n.size() > 4000; }
	void gen(Rng &r, Plan &p) override {
		p.cfg["nact"] = (long long)r.range(1, 2); p.cfg["tlen"] = r.chance(0.5) ? r.range(1, 12) : r.range(13, 3000); p.cfg["root"] = (long long)r.below(2); p.cfg["pwextra"] = r.chance(0.7) ? 0 : r.range(900, 5000); p.cfg["asks"] = r.chance(0.3) ? r.range(1, 12) : 0;
		if (r.chance(0.6)) { static const char *ks[] = {"stat-fail", "unlink-fail", "realpath-fail", "readlink-fail", "symlink-fail", "chmod-fail", "chown-fail", "utime-fail", "getcwd-fail", "alloc-fail"}; for (auto k : ks) if (r.chance(0.35)) p.cfg[S("f.") + k] = r.pick(RATE); }
		if (p.cfg["nact"] > 1) { int k = (int)r.range(2, 14); for (int i = 0; i < k; i++) p.add(1, "by", {r.chance(0.3) ? (long long)r.range(12, 13) : (long long)r.below(12), (long long)r.below(1000)}); }
		int n = (int)r.range(2, 14);
		for (int i = 0; i < n; i++) {
			long long f = (long long)r.below(r.chance(0.6) ? 18 : 30), tl = p.cfg["tlen"];
			auto sz = [&]() -> long long { switch (r.below(4)) { case 0: return 4096; case 1: return r.range(1, 20); case 2: return std::max<long long>(1, tl + r.range(-1, 2)); } return r.range(1, 300); };
			switch (r.below(13)) { case 12: p.add(0, "platform", {(long long)r.below(25), r.range(-2, 5), r.chance(0.5) ? r.range(8180, 8200) : (long long)r.below(300)}); break; case 10: case 11: p.add(0, "absolute", {r.chance(0.6) ? (long long)r.below(30) : r.range(30, 1000000000), (long long)r.below(9), r.chance(0.4) ? r.range(1, 20) : 4096, (long long)r.below(2)}); break; case 0: p.add(0, "exists", {f}); break; case 1: p.add(0, "stat", {f, (long long)r.below(2)}); break; case 2: p.add(0, "realpath", {f, sz()}); break; case 3: case 4: p.add(0, "readlink", {r.chance(0.7) ? (r.chance(0.5) ? 16 : 3) : f, sz()}); break; case 5: p.add(0, "delete", {f}); break; case 6: p.add(0, "symlink", {r.chance(0.5) ? 10 : f, (long long)r.below(18)}); break; case 7: p.add(0, "chmod", {f, (long long)r.below(512)}); break; case 8: p.add(0, "times", {f, (long long)r.below(4), (long long)(r.next() % 4000000000000000ULL), (long long)(r.next() % 4000000000000000ULL)}); break; case 9: if (r.chance(0.35)) p.add(0, "getcwd", {f, sz()}); else p.add(0, "chown", {f, (long long)r.below(8)}); break; }
		}
	}
	// Another thread that asks about and changes files of its own meanwhile.
	void by(const Op &o) {
		u64 h0 = hard_faults(); long long k = o.arg(1); S id = std::to_string(k), f = (o.arg(0) == 6 ? "/own/l" : "/own/") + S(1 + (size_t)k % 40, 'b') + id; struct stat st; int r; const char *what = ""; bool bad = false, can = true; size_t n = 4096; Buf b(n); memset(b.p, 'Q', n);
		if (o.arg(0) != 6) fs_put(f, S(1 + (size_t)k % 50, 'o')); Name nm(f);
		switch (o.arg(0)) {
		case 0: what = "exists"; r = g_fs_exists(nm); break;
		case 1: { what = "exists"; Name no(f + "-none"); r = g_fs_exists(no); bad = r; can = false; break; }
		case 2: case 3: { what = "details"; struct stat *p = (struct stat *)halloc(sizeof(struct stat), 9); memset(p, 0, sizeof *p); r = g_fs_stat(p, nm, o.arg(0) == 3); bad = r && p->st_size != (off_t)(1 + k % 50); hfree(p); break; }
		case 4: { what = "real path"; Name x("/own/../own/./" + f.substr(5)); r = g_fs_realpath(b.p, n, x); bad = r && f != b.p; break; }
		case 5: { what = "delete"; r = g_fs_delete(nm); bad = (r != 0) == fs_exists(f); break; }
		case 6: { what = "link"; if (fs_exists(f)) { can = false; r = 0; break; } Name t("to" + id); r = g_fs_symlink(nm, t); bad = (r != 0) != fs_stat(f, st, false); if (r && !bad) { r = g_fs_readlink(b.p, n, nm); bad = r && S("to" + id) != b.p; Name x(f); g_fs_delete(x); } break; }
		case 7: { what = "mode"; mode_t m = (mode_t)(0400 | (k & 0377)); r = g_fs_chmod(nm, (int)m); bad = r && (!fs_stat(f, st, true) || (st.st_mode & 07777) != m); break; }
		case 8: { what = "times"; uint64_t *x = (uint64_t *)halloc(8, 9), *y = (uint64_t *)halloc(8, 9); *x = 1000000ull * (u64)(1000 + k); *y = 1000000ull * (u64)(500000 + k); r = g_fs_times(nm, nullptr, x, y); bad = r && (!fs_stat(f, st, true) || (u64)st.st_atime != 1000u + (u64)k || (u64)st.st_mtime != 500000u + (u64)k); hfree(x); hfree(y); break; }
		case 9: { what = "absolute name"; Name bd("/own"), x("q/../" + id); r = g_fs_absolute(b.p, n, bd, x, 0); bad = r && "/own/" + id != b.p; break; }
		case 10: { what = "system name"; Name x("\\own\\" + id); r = g_fs_platform(b.p, n, x); bad = r && "/own/" + id != b.p; break; }
		case 12: case 13: { bool g = o.arg(0) == 13; what = g ? "group" : "owner"; can = g_fs_root; Name u(k % 2 ? "bob" : "sim"); unsigned id = k % 2 ? g ? 1003 : 1001 : 1000; r = g ? g_fs_chgrp(nm, u) : g_fs_chown(nm, u); bad = r && (!fs_stat(f, st, true) || (g ? st.st_gid : st.st_uid) != id); break; }
		default: { what = "current directory"; r = g_dir_getcwd(b.p, n); bad = r && S("/work") != b.p; break; } }
		ev("by %s '%s' -> %d", what, f.c_str(), r);
		if (bad) violate("other-thread", "%s of '%s' is wrong while another thread asks about other files", what, f.c_str());
		if (!r && can && hard_faults() == h0) violate("other-thread", "%s of '%s' is refused while another thread asks about other files", what, f.c_str());
		if (r) probe("by");
	}
	static bool own(const S &p) { return !p.compare(0, 4, "/own"); }
	// names made of all kinds of parts
	static S made(u64 k) { static const char *t[] = {"a", "bb", "..", "", ".", "..x", ".h", ""}; S s; int n = 1 + (int)(k % 7); k /= 7; for (int i = 0; i < n; i++, k /= 8) { if (i) s += k % 3 ? '/' : '\\'; s += t[k % 8]; } if (s.empty()) s = "/"; return s; }
	S cstr(const char *p, size_t max, const char *what) { size_t n = 0; for (;; n++) { if (n >= max) violate("unterminated", "%s is not terminated within the %zu bytes given", what, max); check_access(p + n, 1, false, what); if (!p[n]) return S(p, n); } }
	void act(const Op &o) {
		S f = path((int)o.arg(0)), full = f; bool rw = o.name == "symlink" || o.name == "readlink" || o.name == "realpath"; /* these take the name as it is */ if (!rw) for (auto &c : full) if (c == '\\') c = '/'; if (full[0] != '/') full = "/work/" + full; bool od = odd(f); struct stat sl, sf; bool el = fs_stat(full, sl, false), ef = fs_stat(full, sf, true); u64 h0 = hard_faults(); Name nm(f);
		auto before = fs_snapshot(), abefore = fs_attrs(); bool changes = false; S removed, changed;
		if (o.name == "exists") { int r = g_fs_exists(nm); if (r && !ef) violate("exists", "'%s' is said to exist", f.c_str()); if (!r && ef && hard_faults() == h0 && !od) violate("exists", "'%s' is said not to exist", f.c_str()); }
		else if (o.name == "stat") { struct stat *st = (struct stat *)halloc(sizeof(struct stat), 9); bool l = o.arg(1); int r = g_fs_stat(st, nm, l); bool e = l ? el : ef; struct stat &x = l ? sl : sf;
			if (r && !e) violate("stat", "details of '%s' are given although it does not exist", f.c_str()); if (!r && e && hard_faults() == h0 && !od) violate("stat", "details of '%s' are refused", f.c_str());
			if (r && (st->st_ino != x.st_ino || st->st_size != x.st_size || st->st_mode != x.st_mode || st->st_mtime != x.st_mtime || st->st_dev != x.st_dev)) violate("stat", "details of '%s' (link %d) are those of something else", f.c_str(), l); hfree(st); }
		else if (o.name == "realpath") { size_t n = (size_t)o.arg(1); Buf b(n); memset(b.p, 'Q', n); int r = g_fs_realpath(b.p, n, nm); S want = ef ? fs_realany(full) : "";
			if (r) { if (!ef) violate("realpath", "'%s' does not exist but has a real path", f.c_str()); S g = cstr(b.p, n, "the real path"); if (g != want) violate("realpath", "the real path of '%s' is given as '%s', it is '%s'", f.c_str(), g.c_str(), want.c_str()); probe("realpath"); }
			else if (ef && want.size() < n && hard_faults() == h0 && !od) violate("realpath", "the real path of '%s' is refused", f.c_str()); }
		else if (o.name == "readlink") { size_t n = (size_t)o.arg(1); Buf b(n); memset(b.p, 'Q', n); bool isl = el && S_ISLNK(sl.st_mode); bool link = isl; auto bi = before.find(fs_norm(full)); if (bi == before.end() || bi->second.compare(0, 2, "l:")) isl = false; S want = isl ? bi->second.substr(2) : "";
			int r = g_fs_readlink(b.p, n, nm);
			if (r) { if (!link) violate("readlink", "'%s' is no link but has a target", f.c_str()); if (isl) { S g = cstr(b.p, n, "the link target"); if (g != want) violate("readlink", "the target of a link (%zu bytes) is given wrongly (%zu bytes)", want.size(), g.size()); probe("readlink"); } }
			else if (isl && want.size() < n && hard_faults() == h0) violate("readlink", "reading a link of %zu bytes into %zu is refused", want.size(), n); }
		else if (o.name == "delete") { int r = g_fs_delete(nm); changes = true; removed = full; if (r && !el) violate("delete", "deleting '%s', which does not exist, succeeds", f.c_str()); if (r && fs_exists(full)) violate("delete", "'%s' is said to be deleted but is there", f.c_str()); if (r && S_ISDIR(sl.st_mode)) violate("delete", "a directory was deleted as a file"); if (!r && el && !S_ISDIR(sl.st_mode) && hard_faults() == h0 && !od) violate("delete", "deleting '%s' is refused", f.c_str()); if (!r && el && !fs_exists(full)) violate("delete", "a refused deletion removed '%s'", f.c_str()); if (r) probe("deleted"); }
		else if (o.name == "symlink") { S t = path((int)o.arg(1)); Name nt(t); int r = g_fs_symlink(nm, nt); changes = true; changed = full; if (r) { auto a = fs_snapshot(); if (el) violate("symlink", "creating a link over '%s' succeeds", f.c_str()); bool ok = false; for (auto &e : a) if (!before.count(e.first) && e.second == "l:" + t) { ok = true; changed = e.first; } if (!ok) violate("symlink", "a link to '%s' is said to be created but is not there", t.c_str()); probe("linked"); } else if (!el && hard_faults() == h0) { struct stat s2; S par = full.substr(0, full.rfind('/')); if (par.empty()) par = "/"; if (full != "/" && fs_stat(par, s2, true) && S_ISDIR(s2.st_mode) && (s2.st_mode & 0300) == 0300) violate("symlink", "creating the link '%s' is refused", f.c_str()); } }
		else if (o.name == "chmod") { int m = (int)o.arg(1) & 0777; if (ef && S_ISDIR(sf.st_mode)) return; int r = g_fs_chmod(nm, m); struct stat s2; if (r) { if (!ef || !fs_stat(full, s2, true) || (s2.st_mode & 0777) != (unsigned)m) violate("chmod", "'%s' does not have the mode set", f.c_str()); } else if (ef && hard_faults() == h0 && !od) violate("chmod", "setting the mode of '%s' is refused", f.c_str()); changes = true; if (ef) changed = fs_realany(full); }
		else if (o.name == "times") { uint64_t *x = (uint64_t *)halloc(8, 9), *y = (uint64_t *)halloc(8, 9); *x = (u64)o.arg(2); *y = (u64)o.arg(3); bool sa = o.arg(1) & 1, sm = o.arg(1) & 2; int r = g_fs_times(nm, nullptr, sa ? x : nullptr, sm ? y : nullptr); struct stat s2;
			if (r) { if (!ef || !fs_stat(full, s2, true)) violate("times", "setting times of '%s', which does not exist, succeeds", f.c_str()); u64 wa = sa ? *x / 1000000 : (u64)sf.st_atime, wm = sm ? *y / 1000000 : (u64)sf.st_mtime; if ((u64)s2.st_atime != wa || (u64)s2.st_mtime != wm || (sa && (u64)s2.st_atim.tv_nsec != *x % 1000000 * 1000) || (sm && (u64)s2.st_mtim.tv_nsec != *y % 1000000 * 1000)) violate("times", "the times of '%s' are not those set", f.c_str()); probe("times"); }
			else if (ef && hard_faults() == h0 && !od) violate("times", "setting the times of '%s' is refused", f.c_str()); hfree(x); hfree(y); changes = true; if (ef) changed = fs_realany(full); }
		else if (o.name == "getcwd") { size_t n = (size_t)o.arg(1); Buf b(n); memset(b.p, 'Q', n); int r = g_dir_getcwd(b.p, n); if (r) { S g = cstr(b.p, n, "the current directory"); if (g != "/work") violate("getcwd", "the current directory is given as '%s'", g.c_str()); } else if (n > 5 && hard_faults() == h0) violate("getcwd", "the current directory is refused"); }
		else if (o.name == "absolute") {
			static const char *nm2[] = {"a", "sub/f.x", "sub//f.x", "sub/../a", "sub/./f.x", "/", "/work", "/work/", "/../x", "/a/b/../../c", "/a/b/c/../..", "x/..", "..", ".", "sub/.", "./a", "../a", "\\work\\a", "sub\\..\\a", "/work/../../..", ".hid", "..x/y", "a..", "...", "x/.hid/..y/", "\xc3\xa9/z", "q?", "//a", "/a//..//b", ""};
			static const char *bs[] = {nullptr, nullptr, "/", "/work", "/work/", "/work/sub/..", "/b//c/", "rel", "\\work"};
			S n = o.arg(0) < 30 ? nm2[(size_t)o.arg(0)] : made((u64)o.arg(0)), b = bs[(size_t)o.arg(1) % 9] ? bs[(size_t)o.arg(1) % 9] : "/work"; bool useb = bs[(size_t)o.arg(1) % 9]; size_t sz = (size_t)o.arg(2); bool slash = o.arg(3);
			S n2 = n, b2 = b; for (auto *q : {&n2, &b2}) for (auto &c : *q) if (c == '\\') c = '/';
			auto comps = [](const S &p) { std::vector<S> v; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == S::npos) j = p.size(); S c = p.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(c); } S r; for (auto &c : v) r += "/" + c; return r; };
			S want = comps(n2[0] == '/' ? n2 : b2 + "/" + n2); Name nn(n), nb(b); Buf out(sz); memset(out.p, 'Q', sz);
			int r = g_fs_absolute(out.p, sz, useb ? (const char *)nb : nullptr, nn, slash); ev("absolute '%s' '%s' %zu %d -> %d", b.c_str(), n.c_str(), sz, slash, r);
			bool dotend = n2.size() >= 1 && n2[n2.size() - 1] == '.';
			if (r) { S g = cstr(out.p, sz, "the absolute name"); if (n.empty() || n == "q?" || (n2[0] != '/' && b2[0] != '/')) violate("absolute", "'%s' is made absolute from '%s'", n.c_str(), b.c_str());
				if (g.empty() && want.empty() && !slash) violate("absolute-root", "the root directory becomes an empty name");
				if (g.empty() || g[0] != '/') violate("absolute", "'%s' becomes '%s', which is not absolute", n.c_str(), g.c_str());
				if (comps(g) != want) violate("absolute", "'%s' in '%s' becomes '%s'", n.c_str(), b.c_str(), g.c_str());
				if (g.find("//") != S::npos || (!dotend && (g + "/").find("/../") != S::npos) || (!dotend && (g + "/").find("/./") != S::npos)) violate("absolute", "'%s' becomes '%s'", n.c_str(), g.c_str());
				if (want.size() && slash != (g[g.size() - 1] == '/')) violate("absolute", "'%s' becomes '%s' with trailing slash %d", n.c_str(), g.c_str(), slash); probe("absolute"); }
			else if (!n.empty() && n != "q?" && b2[0] == '/' && want.size() + 5 < sz && hard_faults() == h0) violate("absolute", "'%s' in '%s' cannot be made absolute", n.c_str(), b.c_str()); }
		else if (o.name == "platform") {
			static const char *nl[] = {"a", "/work/\xc3\xa9", "x\\y/z", "", "bad\xff", "cut\xc3", "q?", "st*r", "a|b", "<", ">", "\"", "tab\t", "del\x7f", "\x1f", "sp ace", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\xaf", "con", "a:b", "\\\\", "/"}; static const int good[] = {1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 1, 1, 1, 1};
			size_t i = (size_t)o.arg(0) % 25; S n = i == 24 ? S((size_t)o.arg(2), 'n') : nl[i], want = n; bool ok = !n.empty() && (i == 24 || good[i]); for (auto &c : want) if (c == '\\') c = '/'; Name nn(n); size_t sz = (size_t)std::max<long long>(1, (long long)n.size() + o.arg(1)); Buf b(sz); memset(b.p, 'Q', sz);
			int r = g_fs_platform(b.p, sz, nn); if (r) { if (!ok) violate("platform", "a name that is not allowed is accepted"); S g = cstr(b.p, sz, "the name for the system"); if (g != want) violate("platform", "'%s' becomes '%s'", n.c_str(), g.c_str()); probe("platform"); } else if (ok && sz > n.size() + 3) violate("platform", "'%s' is refused", n.c_str());
			int v = g_fs_valid(nn); if (v && !ok) violate("platform", "a name that is not allowed is said to be valid"); if (!v && ok && n.size() < 8000) violate("platform", "'%s' is said to be no valid name", n.c_str()); }
		else if (o.name == "chown") { static const char *who[] = {"sim", "bob", "staff", "nobody-here"}; int w = (int)(o.arg(1) % 4); bool grp = o.arg(1) / 4 % 2; Name u(who[w]); bool known = grp ? w < 3 : w < 2; unsigned id = grp ? (w == 0 ? 1000 : w == 1 ? 1003 : 1002) : (w == 0 ? 1000 : 1001);
			bool allowed = g_fs_root || (ef && sf.st_uid == 1000 && (grp ? id != 1003 || sf.st_gid == 1003 : w == 0));
			int r = grp ? g_fs_chgrp(nm, u) : g_fs_chown(nm, u); struct stat s2; const char *what = grp ? "group" : "owner"; ev("%s of '%s' to %s -> %d", what, f.c_str(), who[w], r);
			if (r) { if (!ef || !known) violate("chown", "changing the %s of '%s' to '%s' succeeds", what, f.c_str(), who[w]); if (!fs_stat(full, s2, true) || s2.st_uid != (grp ? sf.st_uid : id) || s2.st_gid != (grp ? id : sf.st_gid)) violate("chown", "'%s' belongs to %u:%u after changing the %s to '%s'", f.c_str(), (unsigned)s2.st_uid, (unsigned)s2.st_gid, what, who[w]); probe("chown"); }
			else if (ef && known && allowed && hard_faults() == h0 && !od) violate("chown", "setting the %s of '%s' to '%s' is refused", what, f.c_str(), who[w]);
			changes = true; if (ef) changed = fs_realany(full); }
		auto after = fs_snapshot(), aafter = fs_attrs();
		for (auto &e : abefore) { auto b = aafter.find(e.first); if (b != aafter.end() && b->second != e.second && !own(e.first) && !(changes && e.first == changed)) violate("elsewhere", "'%s' of '%s' changed mode, owner or time of '%s'", o.name.c_str(), f.c_str(), e.first.c_str()); }
		for (auto *m : {&before, &after}) for (auto &e : *m) { auto a = before.find(e.first), b = after.find(e.first); if (own(e.first) || (a != before.end() && b != after.end() && a->second == b->second)) continue;
			if (changes && (e.first == changed || e.first == removed || (!removed.empty() && a != before.end() && b == after.end() && fs_norm(removed) == e.first))) continue;
			violate("elsewhere", "'%s' of '%s' changed '%s'", o.name.c_str(), f.c_str(), e.first.c_str()); }
	}
	static S fs_norm(const S &p0) { S p; for (char c : p0) if (c != '/' || p.empty() || p[p.size() - 1] != '/') p += c; if (p.size() > 1 && p[p.size() - 1] == '/') p.pop_back();  if (p == "/work/./a" || p == "/work/sub/../a") return "/work/a"; if (p == "/work/dlink/f.x") return "/work/sub/f.x"; return p; }
	void run(Plan &p) override {
		P = &p; fs_mkdirs("/work/sub"); fs_put("/work/a", "hello"); fs_put("/work/sub/f.x", S(77, 'x')); fs_put("/work/other", ""); fs_put("/work/w*d", "star"); fs_put("/work/ct\x01l", "ctl"); fs_put("/work/del\x7f", "del"); fs_put("/work/\xc3\xa9", "accent"); fs_set_mtime("/work/a", 12345); fs_set_mtime("/work/sub/f.x", 777777777);
		fs_link("/work/link", "/work/a"); fs_link("/work/dlink", "sub"); fs_link("/work/dang", "/work/nothing"); fs_link("/work/loop", "loop"); fs_link("/work/longlink", S((size_t)p.get("tlen", 5), 't'));
		g_fs_root = p.get("root", 0); pw_set(true, true, "/home/sim", (u64)p.get("pwextra", 0)); g_faults.on = true;
		fs_mkdirs("/own");
		spawn(0, [this] { for (auto &o : P->ops) if (o.actor == 0) act(o); });
		if (p.get("nact", 1) > 1) spawn(0, [this] { for (auto &o : P->ops) if (o.actor == 1) by(o); });
		// a part of the program that asks about other users and groups meanwhile
		if (p.get("asks", 0) > 0) spawn(0, [this] { for (long long i = 0; i < P->get("asks", 0); i++) { sim_getpwnam("bob"); sim_getgrnam("bob"); } });
		GoResult g = go(); g_faults.on = false; if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a call does not return"); return; }
		if (fd_count(0)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(0)); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};
AddReg a1("C15", "copy-move", [] () -> Harness * { return new CopyH; });
AddReg a2("C16", "lines", [] () -> Harness * { return new LineH; });
AddReg a3("C18", "trees", [] () -> Harness * { return new DirH; });
AddReg a4("C24", "answers", [] () -> Harness * { return new MetaH; });
}
