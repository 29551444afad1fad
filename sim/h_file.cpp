// File objects: byte array with a position (C13), durability of flushed data (C14), opening and sharing (C17).
#include "fs.h"
#include "glue.h"
#include <cstring>
#include <algorithm>
#include <fcntl.h>
using namespace sim;
typedef std::string S;

namespace {
// Argument memory of exactly the given size, so that any access outside it is noticed.
struct Buf { char *p; size_t n; explicit Buf(size_t k) : p((char *)halloc(k ? k : 1, 9)), n(k) {} Buf(const Buf &) = delete; ~Buf() { hfree(p); } };
struct Name { char *p; explicit Name(const S &s) : p((char *)halloc(s.size() + 1, 9)) { memcpy(p, s.c_str(), s.size() + 1); } Name(const Name &) = delete; ~Name() { hfree(p); } operator const char *() const { return p; } };

// ------------------------------------------------------------------------------------------------ C13, C14
struct FileH : Harness {
	S prop; Plan *P = nullptr;
	struct Hd { void *f = nullptr; bool open = false, rd = false, wr = false, app = false; u64 pos = 0, max = 0; };
	struct File { S path; bool exists = false; Blob data; bool flushed = false, entry = false; Blob fl; std::vector<std::pair<u64, S>> since; u64 minsize = 0; };
	std::vector<File> files; std::vector<std::vector<Hd>> hs; std::vector<Hd> logh; std::vector<S> logd;
	u64 stamp = 0;
	FileH(const char *p) : prop(p) {}
	bool crash() const { return prop == "C14"; }
	static const char *logpath() { return "/work/log"; }

	void gen(Rng &r, Plan &p) override {
		int na = crash() ? (int)r.range(1, 3) : (int)r.range(1, 3); p.cfg["nact"] = na; p.cfg["nproc"] = (long long)r.range(1, na);
		static const long long rate[] = {20000, 60000, 150000, 400000};
		bool quiet = r.chance(0.2);
		if (!quiet) {
			static const char *ks[] = {"eintr", "short-read", "short-write", "read-eio", "write-eio", "disk-full", "lseek-fail", "fstat-fail", "open-fail", "flock-fail", "eintr-close"};
			for (auto k : ks) if (r.chance(0.35)) p.cfg[S("f.") + k] = r.pick(rate);
			if (crash()) { if (r.chance(0.5)) p.cfg["f.fsync-eio"] = r.pick(rate) + 100000; if (r.chance(0.4)) p.cfg["f.fsync-eintr"] = r.pick(rate); }
		}
		if (r.chance(0.1)) p.cfg["cap"] = (long long)r.range(0, 30000);
		if (r.chance(0.1)) p.cfg["f.stall"] = 10000;
		static const long long big[] = {(1LL << 31) - 5, (1LL << 31) + 77, (1LL << 32) - 9, (1LL << 32) + 4096, 5000000000LL};
		for (int a = 0; a < na; a++) {
			S k = std::to_string(a);
			p.cfg["there" + k] = r.chance(0.6); p.cfg["init" + k] = r.chance(0.3) ? 0 : (long long)r.range(1, 12000);
			if (!crash() && r.chance(0.12)) p.cfg["hole" + k] = r.pick(big);
			bool two = !crash() && r.chance(0.35);
			int n = (int)r.range(4, crash() ? 24 : 40);
			auto open = [&](int h) { p.add(a, "open", {h, r.chance(0.85) ? 2 : (long long)r.below(4), r.chance(0.8), r.chance(0.05), r.chance(crash() ? 0.05 : 0.12), r.chance(0.15)}); };
			open(0); if (two) open(1);
			for (int i = 0; i < n; i++) {
				int h = two ? (int)r.below(2) : 0; double x = (double)r.below(100);
				auto len = [&]() -> long long { switch (r.below(6)) { case 0: return (long long)r.below(3); case 1: case 2: return r.range(1, 60); case 3: return r.range(1, 900); case 4: return r.range(4000, 4200); } return r.chance(0.3) ? r.range(8000, 20000) : r.range(1, 300); };
				auto off = [&]() -> long long { switch (r.below(7)) { case 0: return 0; case 1: return (long long)r.below(5); case 2: case 3: return r.range(0, 3000); case 4: return r.range(0, 20000); case 5: return r.pick(big) + r.range(-3, 3); } return (long long)(r.chance(0.5) ? ~0ULL - r.below(4) : r.next() >> r.below(40)); };
				if (crash()) {
					if (x < 45) p.add(a, "write", {h, len()}); else if (x < 50) p.add(a, "writes", {h, r.range(0, 100)}); else if (x < 78) p.add(a, "flush", {h}); else if (x < 90) p.add(a, "seek", {h, (long long)r.below(4), r.range(0, 3000)}); else if (x < 94) p.add(a, "close", {h}); else open(h);
				} else {
					if (x < 28) p.add(a, "write", {h, len()}); else if (x < 32) p.add(a, "writes", {h, r.range(0, 100)}); else if (x < 60) p.add(a, "read", {h, len()}); else if (x < 82) p.add(a, "seek", {h, (long long)r.below(4), off()}); else if (x < 86) p.add(a, "update", {h}); else if (x < 89) p.add(a, "flush", {h}); else if (x < 92) p.add(a, "close", {h}); else if (x < 97) p.add(a, "log", {r.range(1, 200)}); else open(h);
				}
			}
		}
		for (auto &o : p.ops) if (o.name == "log" || (o.name == "open" && o.arg(5))) p.cfg.erase("f.lseek-fail");   // asking where an append ended cannot fail
		if (crash()) { p.cfg["crash"] = 1; p.add(90, "crash", {(long long)(r.chance(0.5) ? r.below(60) : r.below(600))}); }
	}
	Blob now(const File &f) { Blob b; fs_get(f.path, b); return b; }
	void same(File &f, const char *what) {
		Blob b; bool e = fs_get(f.path, b);
		if (crash()) { f.exists = e; f.data = b; return; }
		if (e != f.exists) violate("existence", "after %s the file %s", what, e ? "exists although nothing created it" : "is gone");
		if (!e) return;
		int64_t d = b.diff(f.data);
		if (d >= 0) violate("content", "after %s the file differs from the bytes reported as written at offset %lld (size %llu, expected %llu)", what, (long long)d, (unsigned long long)b.size(), (unsigned long long)f.data.size());
	}
	void reported(Hd &h, File &f, const char *what, bool fresh) {
		u64 p = g_file_pos(h.f), m = g_file_max(h.f), act = f.data.size();
		if (crash()) { h.pos = p; h.max = m; return; }
		if (p != h.pos) violate("position", "after %s the object reports position %llu, the file is at %llu", what, (unsigned long long)p, (unsigned long long)h.pos);
		u64 grown = std::max(h.max, 0 * h.pos);
		if (m != act && (fresh || m != grown)) violate("size", "after %s the object reports size %llu, the file has %llu", what, (unsigned long long)m, (unsigned long long)act);
		h.max = m;
	}
	S payload(size_t n) { S s(n, 0); stamp++; for (size_t i = 0; i < n; i++) s[i] = (char)(1 + (stamp * 37 + i * 11 + (i >> 8) * 5) % 255); return s; }
	void do_log(int a, size_t n) {
		Hd &h = logh[a]; size_t k = (size_t)-1;
		if (!h.f) h.f = g_file_new();
		if (!h.open) { u64 h0 = any_faults(); Name nm(logpath()); if (!g_file_open(h.f, nm, O_WRONLY | O_CREAT | O_APPEND, 0, 0666)) { if (any_faults() == h0) violate("open-refused", "opening the log failed without cause"); return; } h.open = true; }
		Buf b(n); for (size_t i = 0; i < n; i++) b.p[i] = (char)(32 + a * 32 + (logd[a].size() + i) % 31);
		u64 h0 = hard_faults(); int r = g_file_write(h.f, (const uint8_t *)b.p, n, &k);
		if (k > n) violate("count", "a write of %zu bytes reports %zu", n, k);
		if (r && k != n) violate("count", "a successful write of %zu bytes reports %zu", n, k);
		if (!r && hard_faults() == h0) violate("refused", "appending failed without cause");
		logd[a].append(b.p, k);
		if (k) { u64 pos = g_file_pos(h.f); Blob f; fs_get(logpath(), f); if (pos > f.size() || !pos || f.at(pos - 1) != b.p[k - 1]) violate("position", "after appending the object reports position %llu, which is not behind the bytes appended (size %llu)", (unsigned long long)pos, (unsigned long long)f.size()); }
		probe("appended");
	}
	template <class... A> void bad(const char *cls, const char *fmt, A... x) { if (!crash()) violate(cls, fmt, x...); }
	void act(int a, const Op &o) {
		File &f = files[a];
		if (o.name == "log") { do_log(a, (size_t)o.arg(0)); return; }
		Hd &h = hs[a][(size_t)o.arg(0) & 1];
		if (!h.f) h.f = g_file_new();
		u64 h0 = hard_faults(), a0 = any_faults();
		if (o.name == "open") {
			int acc = (int)o.arg(1) & 3; bool creat = o.arg(2), excl = o.arg(3) && creat, tr = o.arg(4) && acc != O_RDONLY, app = o.arg(5);
			int fl = acc | (creat ? O_CREAT : 0) | (excl ? O_EXCL : 0) | (tr ? O_TRUNC : 0) | (app ? O_APPEND : 0);
			if (tr) { f.minsize = 0; f.fl.clear(); f.since.clear(); }
			Name nm(f.path); int r = g_file_open(h.f, nm, fl, 0, 0666); ev("open %d -> %d", fl, r);
			bool should = acc != 3 && (f.exists ? !excl : creat);
			if (r && !should) bad("open-unexpected", "opening with flags %d succeeded although the file %s", fl, f.exists ? "exists" : "does not exist");
			if (!r && should && hard_faults() == h0) bad("open-refused", "opening with flags %d failed without cause", fl);
			if (!r) {
				if (g_file_isopen(h.f)) bad("open-state", "the object says it is open after a failed opening");
				h.open = false;
				Blob b; bool e = fs_get(f.path, b);   // a refused opening may or may not have created or emptied the file already
				if (e && !f.exists) { if (!creat || b.size()) bad("content", "a failed opening changed the file"); f.exists = true; f.data.clear(); }
				else if (e && tr && b.size() == 0) f.data.clear();
				same(f, "a failed opening"); return;
			}
			if (!g_file_isopen(h.f)) bad("open-state", "the object says it is closed after a successful opening");
			f.exists = true; if (tr) f.data.clear();
			h.open = true; h.rd = acc != O_WRONLY; h.wr = acc != O_RDONLY; h.app = app; h.pos = 0; h.max = f.data.size();
			// Systems differ in where an appending object starts; the object has to say which it is.
			if (app && g_file_pos(h.f) == f.data.size()) h.pos = f.data.size();
			same(f, "opening"); reported(h, f, "opening", true);
		} else if (o.name == "close") { g_file_close(h.f); h.open = false; if (g_file_isopen(h.f)) bad("open-state", "the object says it is open after closing"); same(f, "closing"); }
		else if (o.name == "read") {
			size_t n = (size_t)o.arg(1), k = (size_t)-1; Buf b(n); memset(b.p, 0xA5, n);
			int r = g_file_read(h.f, (uint8_t *)b.p, n, &k); ev("read %zu at %llu -> %d %zu", n, (unsigned long long)h.pos, r, k);
			if (!h.open || !h.rd) { if (r) bad("not-readable", "reading succeeded on an object that is not open for reading"); if (h.open) reported(h, f, "a refused read", false); same(f, "a refused read"); return; }
			u64 size = f.data.size(), avail = h.pos < size ? size - h.pos : 0, want = std::min<u64>(n, avail);
			if (!r && hard_faults() == h0) bad("refused", "reading failed without cause");
			if (k == (size_t)-1 && !r) k = 0;
			if (k > want) bad("count", "a read of %zu bytes with %llu left reports %zu", n, (unsigned long long)avail, k);
			if (r && k == 0 && want) bad("false-end", "a read of %zu bytes reports the end of the file although %llu bytes are left", n, (unsigned long long)avail);
			if (r && k < want && hard_faults() == h0) bad("count", "a read of %zu bytes with %llu left reports only %zu", n, (unsigned long long)avail, k);
			if (k) { S e = f.data.str(h.pos, k); if (memcmp(e.data(), b.p, k)) { size_t i = 0; while (e[i] == b.p[i]) i++; bad("read-content", "byte %zu of a read of %zu bytes at %llu is not what the file holds", i, k, (unsigned long long)h.pos); } probe("read"); }
			if (!r) probe("read-failed");
			h.pos += k; reported(h, f, "a read", false); same(f, "a read");
		} else if (o.name == "write" || o.name == "writes") {
			size_t n = (size_t)o.arg(1), k = (size_t)-1; S d = payload(n); Buf b(n + 1); memcpy(b.p, d.c_str(), n + 1);
			if (h.open && h.wr) { u64 at = h.app ? f.data.size() : h.pos; f.since.push_back({at, d}); }
			int r = o.name == "writes" ? g_file_writes(h.f, b.p, &k) : g_file_write(h.f, (const uint8_t *)b.p, n, &k);
			ev("write %zu at %llu -> %d %zu", n, (unsigned long long)h.pos, r, k);
			if (!h.open || !h.wr) { if (r) bad("not-writable", "writing succeeded on an object that is not open for writing"); if (h.open) reported(h, f, "a refused write", false); same(f, "a refused write"); return; }
			if (!r && hard_faults() == h0) bad("refused", "writing failed without cause");
			if (k == (size_t)-1 && !r) k = 0;
			if (k > n) bad("count", "a write of %zu bytes reports %zu", n, k);
			if (r && k < n) bad("count", "a write of %zu bytes reports success and %zu bytes", n, k);
			if (k) { if (h.app) h.pos = f.data.size(); f.data.write(h.pos, d.data(), k); h.pos += k; h.max = std::max(h.max, h.pos); if (k < n) probe("partial-write"); }
			if (!r) probe("write-failed");
			same(f, "a write"); reported(h, f, "a write", false);
		} else if (o.name == "seek") {
			int t = (int)o.arg(1) & 3; u64 v = (u64)o.arg(2);
			auto target = [&](u64 m) -> u64 { switch (t) { case 0: return std::min(v, m); case 1: return v <= m ? m - v : 0; case 2: return h.pos > m || v > m - h.pos ? m : h.pos + v; } return v <= h.pos ? h.pos - v : 0; };
			int r = g_file_seek(h.f, t, v); ev("seek %d %llu -> %d", t, (unsigned long long)v, r);
			if (!h.open) { if (r) bad("not-open", "seeking succeeded on a closed object"); return; }
			if (!r && hard_faults() == h0) bad("refused", "seeking failed without cause");
			if (r) { u64 p = g_file_pos(h.f), e1 = target(h.max), e2 = target(f.data.size()); if (p != e1 && p != e2) bad("position", "seeking (way %d, %llu) from %llu in a file of %llu bytes ends at %llu", t, (unsigned long long)v, (unsigned long long)h.pos, (unsigned long long)f.data.size(), (unsigned long long)p); h.pos = p; }
			reported(h, f, "seeking", false); same(f, "seeking");
		} else if (o.name == "update") {
			int r = g_file_update(h.f);
			if (!h.open) { if (r) bad("not-open", "asking a closed object for the file size succeeded"); return; }
			if (!r && hard_faults() == h0) bad("refused", "asking for the file size failed without cause");
			reported(h, f, "asking for the file size", r != 0);
		} else if (o.name == "flush") {
			Blob b = f.data; int r = g_file_flush(h.f); ev("flush -> %d", r);
			if (!h.open || !h.wr) { if (r) bad("not-writable", "flushing succeeded on an object that is not open for writing"); return; }
			if (!r && hard_faults() == h0) bad("refused", "flushing failed without cause");
			if (r) { f.flushed = true; f.entry = true; f.fl = b; f.minsize = b.size(); f.since.clear(); probe("flushed"); }
			reported(h, f, "flushing", false); same(f, "flushing");
		}
	}
	void after_crash() {
		for (auto &f : files) {
			if (!f.flushed) continue;
			probe("crash-after-flush");
			Blob b; if (!fs_get(f.path, b)) { violate("lost-file", "the file is gone after the crash although it was flushed"); return; }
			if (b.size() < f.minsize) { violate("lost-data", "the file has %llu bytes after the crash, %llu were flushed", (unsigned long long)b.size(), (unsigned long long)f.minsize); return; }
			for (u64 i = 0; i < f.minsize; i++) {
				char c = b.at(i); if (c == f.fl.at(i)) continue;
				bool ok = false; for (auto &w : f.since) if (i >= w.first && i < w.first + w.second.size() && w.second[(size_t)(i - w.first)] == c) ok = true;
				if (!ok) { violate("lost-data", "byte %llu of %llu flushed bytes has another value after the crash", (unsigned long long)i, (unsigned long long)f.minsize); return; }
			}
		}
	}
	void run(Plan &p) override {
		P = &p; int na = (int)p.get("nact", 1), np = (int)p.get("nproc", 1);
		files.resize(na); hs.assign(na, std::vector<Hd>(2)); logh.resize(na); logd.resize(na);
		std::vector<int> pid; for (int i = 0; i < np; i++) pid.push_back(i ? new_proc() : 0);
		fs_mkdirs("/work");
		for (int a = 0; a < na; a++) {
			S k = std::to_string(a); File &f = files[a]; f.path = "/work/f" + k;
			if (p.get("there" + k)) { S d((size_t)p.get("init" + k), 0); for (size_t i = 0; i < d.size(); i++) d[i] = (char)(i * 13 + a + 1); fs_put(f.path, d); if (p.get("hole" + k)) fs_sparse(f.path, (u64)p.get("hole" + k)); f.exists = true; fs_get(f.path, f.data); f.flushed = crash(); f.entry = true; f.fl = f.data; f.minsize = f.data.size(); }
		}
		if (p.cfg.count("cap")) { u64 u = 0; for (auto &f : files) u += f.data.size(); fs_cap(1, u + (u64)p.get("cap")); }
		g_faults.on = true;
		for (int a = 0; a < na; a++) spawn(pid[a % np], [this, a] { for (auto &o : P->ops) if (o.actor == a) act(a, o); });
		for (auto &o : p.ops) if (o.actor == 90) { long long n = o.arg(0); spawn(new_proc(), [n] { for (long long i = 0; i < n; i++) point(1); crash_machine(); }); }
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "a file operation does not return"); return; }
		if (crash()) { if (g != GO_CRASH) { probe("crash-at-end"); crash_machine(); } fs_crash(); after_crash(); return; }
		for (int a = 0; a < na; a++) spawn(pid[a % np], [this, a] { for (auto &h : hs[a]) if (h.f) g_file_del(h.f); if (logh[a].f) g_file_del(logh[a].f); });
		go();
		if (g_viol.set) return;
		for (auto &f : files) { same(f, "the end"); if (g_viol.set) return; }
		Blob lg; S all; if (fs_get(logpath(), lg)) all = lg.str();
		for (int a = 0; a < na; a++) { S mine; for (char c : all) if ((unsigned char)c / 32 == 1u + (unsigned)a) mine += c; if (mine != logd[a]) { violate("append", "the shared log holds %zu bytes of a writer that was told %zu were appended (or in another order)", mine.size(), logd[a].size()); return; } }
		for (int q : pid) if (fd_count(q)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(q)); return; }
		if (live_with_tag(1)) violate("leak", "%llu heap block(s) left", (unsigned long long)live_with_tag(1));
	}
};

// ------------------------------------------------------------------------------------------------ C17
struct OpenH : Harness {
	Plan *P = nullptr;
	struct Hd { void *f = nullptr; bool held = false, maybe = false; int file = -1, prev = -1; bool ex = false, prevex = false; int acc = 0; S seen; };
	std::vector<std::vector<Hd>> hs; std::vector<int> pid, aproc; std::vector<u64> epoch; std::vector<bool> dead; std::vector<u64> trans;
	static S path(int i) { static const char *s[] = {"/work/a", "/work/b.txt", "/work/sub/\xc3\xa9t\xc3\xa9.dat", "/work/new", "/work/\xe6\x97\xa5\xe6\x9c\xac", "/work/ro", "/work/missing/x", "/work/bad*name", "", "/work/sub"}; return s[i]; }
	void gen(Rng &r, Plan &p) override {
		int na = (int)r.range(1, 4), np = (int)r.range(1, na); p.cfg["nact"] = na; p.cfg["nproc"] = np;
		static const long long rate[] = {30000, 100000, 300000};
		if (r.chance(0.7)) { static const char *ks[] = {"flock-fail", "open-fail", "lseek-fail", "fstat-fail", "truncate-eio", "eintr", "short-write", "eintr-close", "eintr-open", "stat-fail"}; for (auto k : ks) if (r.chance(0.35)) p.cfg[S("f.") + k] = r.pick(rate); }
		if (r.chance(0.2)) p.cfg["f.stall"] = 10000;
		int nf = (int)r.range(1, 3); int f0 = (int)r.below(6);
		bool kill = np > 1 && r.chance(0.3);
		for (int a = 0; a < na; a++) {
			int n = (int)r.range(3, 22);
			for (int i = 0; i < n; i++) {
				int h = r.chance(0.7) ? 0 : 1; double x = (double)r.below(100);
				if (x < 45) p.add(a, "open", {h, r.chance(0.06) ? (long long)r.range(5, 9) : (f0 + (long long)r.below(nf)) % 6, r.chance(0.05) ? 3 : (long long)r.below(3), r.chance(0.6), r.chance(0.08), r.chance(0.3), r.chance(0.02) ? 7 : r.chance(0.4) ? 0 : (long long)r.below(4)});
				else if (x < 70) p.add(a, "close", {h});
				else if (x < 90) p.add(a, "use", {h});
				else if (x < 95) p.add(a, "renew", {h});
				else p.add(a, "pause", {r.range(1, 2000)});
			}
		}
		if (kill) p.add(90, "kill", {r.range(1, np - 1), (long long)r.below(300)});
		static const long long md[] = {0666, 0666, 0600, 0644, 0700, 0777, 0640, 0755}; p.cfg["mode"] = r.pick(md); static const long long mk[] = {022, 022, 022, 077, 027, 0, 002}; p.cfg["mask"] = r.pick(mk);
	}
	bool conflict(const Hd &a, bool ex) { return a.ex || ex; }
	void verify(Hd &h) { // exclusively opened: nobody else may have changed the bytes
		if (!h.held || !h.ex) return;
		S d; fs_get(path(h.file), d); if (d != h.seen) violate("sharing", "a file opened without sharing was changed by somebody else (%zu bytes, now %zu)", h.seen.size(), d.size());
	}
	void shut(Hd &h) { verify(h); h.held = false; }
	u64 counted(int proc) { u64 n = 0; for (size_t a = 0; a < hs.size(); a++) if (aproc[a] == proc) for (auto &h : hs[a]) if (h.maybe) n++; return n; }
	void act(int a, const Op &o) {
		if (o.name == "pause") { sleep_us((u64)o.arg(0)); return; }
		Hd &h = hs[a][(size_t)o.arg(0) & 1]; if (!h.f) h.f = g_file_new();
		u64 h0 = hard_faults(), a0 = any_faults();
		if (o.name == "close") { shut(h); g_file_close(h.f); h.maybe = false; if (g_file_isopen(h.f)) violate("open-state", "the object says it is open after closing"); }
		else if (o.name == "renew") { shut(h); g_file_del(h.f); h.maybe = false; h.f = g_file_new(); if (g_file_isopen(h.f)) violate("open-state", "a new object says it is open"); }
		else if (o.name == "use") {
			verify(h); size_t k = 0; char *b = (char *)halloc(8, 9); memcpy(b, "12345678", 8);
			bool was = h.held; u64 pos = was ? g_file_pos(h.f) : 0;
			int r = g_file_write(h.f, (const uint8_t *)b, 5, &k);
			if (r && (!was || h.acc == O_RDONLY)) violate("access", "writing works on an object %s", was ? "opened for reading only" : "that is closed");
			if (!r && was && h.acc != O_RDONLY && hard_faults() == h0) violate("access", "writing fails on an object opened for writing");
			if (was && h.ex && h.acc != O_RDONLY && k <= 5) { S &s = h.seen; if (s.size() < pos + k) s.resize((size_t)pos + k); s.replace((size_t)pos, k, b, k); }
			k = 0; u64 h1 = hard_faults(); int q = g_file_read(h.f, (uint8_t *)b, 8, &k);
			if (q && (!was || h.acc == O_WRONLY)) violate("access", "reading works on an object %s", was ? "opened for writing only" : "that is closed");
			if (!q && was && h.acc != O_WRONLY && hard_faults() == h1 && h.file != 9) violate("access", "reading fails on an object opened for reading");
			hfree(b); verify(h);
		} else if (o.name == "open") {
			int fi = (int)o.arg(1), acc = (int)o.arg(2) & 3, share = (int)o.arg(6); bool creat = o.arg(3), excl = o.arg(4) && creat, tr = o.arg(5) && acc != O_RDONLY, ex = share != 0;
			int fl = acc | (creat ? O_CREAT : 0) | (excl ? O_EXCL : 0) | (tr ? O_TRUNC : 0);
			shut(h); S pt = path(fi); bool was = fs_exists(pt);
			if (h.maybe) { h.prev = h.file; h.prevex = h.ex; }
			h.maybe = true; h.file = fi; h.ex = ex; epoch[fi]++; u64 e0 = epoch[fi]; bool clash = false;
			int pr = aproc[a];
			for (auto &v : hs) for (auto &x : v) if (&x != &h && x.maybe && ((x.file == fi && conflict(x, ex)) || (x.prev == fi && (x.prevex || ex)))) clash = true;
			Name nm(pt); int r = g_file_open(h.f, nm, fl, share, (int)P->get("mode", 0666)); ev("open file %d flags %o share %d -> %d", fi, fl, share, r); h.prev = -1;
			bool ok = acc != 3 && share <= 3 && fi < 6 && !(fi == 5 && acc != O_RDONLY) && !(excl && fi != 3) && (creat || fi != 3);
			bool race = fi == 3;   // appears during the run
			if (r) {
				if (!ok && !(race && acc != 3 && share <= 3)) { if (fi != 9) violate("open-unexpected", "opening '%s' (flags %o, share %d) succeeded", pt.c_str(), fl, share); }
				if (excl && was) violate("open-unexpected", "exclusive creation of an existing file succeeded");
				if (!g_file_isopen(h.f)) violate("open-state", "the object says it is closed after a successful opening");
				struct stat st; if (fi == 3 && fs_stat(pt, st, true) && (st.st_mode & 07777) != ((mode_t)P->get("mode", 0666) & ~(mode_t)P->get("mask", 022))) violate("mode", "a file created with the permissions %o under the mask %o has %o", (unsigned)P->get("mode", 0666), (unsigned)P->get("mask", 022), (unsigned)(st.st_mode & 07777));
				for (auto &v : hs) for (auto &x : v) if (&x != &h && x.held && x.file == fi && conflict(x, ex)) violate("sharing", "two openings of '%s' that exclude each other succeeded (one %s, the other %s)", pt.c_str(), ex ? "without sharing" : "sharing", x.ex ? "without sharing" : "sharing");
				h.held = true; h.acc = acc; h.seen.clear(); if (ex) { fs_get(pt, h.seen); if (tr && !h.seen.empty()) violate("truncate", "opening with truncation left %zu bytes", h.seen.size()); }
				probe(ex ? "opened-exclusive" : "opened-shared");
			} else {
				h.maybe = false;
				if (g_file_isopen(h.f)) violate("open-state", "the object says it is open after a failed opening");
				u64 n = fd_count(pr), m = counted(pr); if (n > m) violate("leak", "after a failed opening %llu descriptors are open in the process, at most %llu objects are", (unsigned long long)n, (unsigned long long)m);
				bool other = clash || epoch[fi] != e0;
				if (ok && !other && any_faults() == a0 && !(race && (excl || !creat))) violate("open-refused", "opening '%s' (flags %o, share %d) failed without cause", pt.c_str(), fl, share);
				if (other) probe("refused-by-sharing");
			}
		}
	}
	void run(Plan &p) override {
		P = &p; int na = (int)p.get("nact", 1), np = (int)p.get("nproc", 1);
		hs.assign(na, std::vector<Hd>(2)); epoch.assign(10, 0);
		for (int i = 0; i < np; i++) { pid.push_back(i ? new_proc() : 0); set_proc_user(pid[(size_t)i], 1000, (mode_t)p.get("mask", 022) & 077); }
		fs_mkdirs("/work/sub"); for (int i : {0, 1, 2, 4}) fs_put(path(i), S(50 + (size_t)i, (char)('a' + i))); fs_put(path(5), "read only", 0444);
		g_faults.on = true;
		for (int a = 0; a < na; a++) aproc.push_back(pid[a % np]);
		for (int a = 0; a < na; a++) spawn(aproc[a], [this, a] { for (auto &o : P->ops) if (o.actor == a) act(a, o); });
		for (auto &o : p.ops) if (o.actor == 90 && o.arg(0) < np) { long long n = o.arg(1); int v = pid[(size_t)o.arg(0)]; spawn(new_proc(), [this, n, v] { for (long long i = 0; i < n; i++) point(1);
			for (size_t a = 0; a < hs.size(); a++) if (aproc[a] == v) for (auto &h : hs[a]) { h.held = false; if (h.file >= 0) epoch[h.file]++; }
			kill_proc(v); for (size_t a = 0; a < hs.size(); a++) if (aproc[a] == v) for (auto &h : hs[a]) { h.maybe = false; h.f = nullptr; } probe("process-died"); }); }
		GoResult g = go(); g_faults.on = false;
		if (g_viol.set) return;
		if (g == GO_STUCK || g == GO_LIMIT) { violate("no-progress", "opening or closing does not return"); return; }
		for (int a = 0; a < na; a++) if (proc_alive(aproc[a])) spawn(aproc[a], [this, a] { for (auto &h : hs[a]) if (h.f) { shut(h); h.maybe = false; g_file_del(h.f); } });
		go(); if (g_viol.set) return;
		for (int q : pid) if (proc_alive(q) && proc_umask(q) != (mode_t)p.get("mask", 022)) { violate("mode", "the file creation mask of the process was changed"); return; }
		for (int q : pid) if (proc_alive(q) && fd_count(q)) { violate("leak", "%llu descriptor(s) left open", (unsigned long long)fd_count(q)); return; }
		if (fs_locks()) { violate("leak", "%llu lock(s) left", (unsigned long long)fs_locks()); return; }
		spawn(0, [this] { for (int i = 0; i < 5; i++) { if (!fs_exists(path(i))) continue; void *f = g_file_new(); Name nm(path(i)); if (!g_file_open(f, nm, O_RDWR, 3, 0)) violate("not-available", "a closed file cannot be opened again"); g_file_del(f); } });
		go();
	}
};
#define MK(T, PROP) [] () -> Harness * { return new T(PROP); }
AddReg a1("C13", "byte-array", MK(FileH, "C13"));
AddReg a2("C14", "crash", MK(FileH, "C14"));
AddReg a3("C17", "sharing", [] () -> Harness * { return new OpenH; });
}
