// Sparse byte array (absent pages read as zeros), so that simulated files may be larger than memory.
#pragma once
#include <string>
#include <map>
#include <cstring>
#include <cstdint>
#include <algorithm>
namespace sim {
struct Blob {
	static const uint64_t PG = 16384;
	uint64_t n = 0; std::map<uint64_t, std::string> pg;
	Blob() {}
	Blob(const std::string &s) { write(0, s.data(), s.size()); }
	static bool zero(const char *d, size_t l) { return !l || (!d[0] && !memcmp(d, d + 1, l - 1)); }
	uint64_t size() const { return n; }
	void clear() { n = 0; pg.clear(); }
	void write(uint64_t off, const char *d, size_t l) {
		if (off + l > n) n = off + l;
		while (l) { uint64_t k = off / PG, o = off % PG; size_t c = (size_t)std::min<uint64_t>(l, PG - o); auto q = pg.find(k); if (q == pg.end() && zero(d, c)) { off += c; d += c; l -= c; continue; } std::string &p = q == pg.end() ? pg[k] : q->second; if (p.size() < o + c) p.resize(o + c); memcpy(&p[o], d, c); off += c; d += c; l -= c; }
	}
	void resize(uint64_t m) {
		if (m < n) { pg.erase(pg.lower_bound((m + PG - 1) / PG), pg.end()); auto it = pg.find(m / PG); if (it != pg.end() && it->second.size() > m % PG) it->second.resize(m % PG); }
		n = m;
	}
	void read(uint64_t off, char *d, size_t l) const {
		while (l) { uint64_t k = off / PG, o = off % PG; size_t c = (size_t)std::min<uint64_t>(l, PG - o); auto it = pg.find(k); size_t h = 0;
			if (it != pg.end() && it->second.size() > o) { h = std::min<size_t>(c, it->second.size() - o); memcpy(d, it->second.data() + o, h); }
			memset(d + h, 0, c - h); off += c; d += c; l -= c; }
	}
	std::string str(uint64_t off, size_t l) const { std::string s(l, 0); if (l) read(off, &s[0], l); return s; }
	std::string str() const { return str(0, (size_t)n); }
	char at(uint64_t i) const { auto it = pg.find(i / PG); return it != pg.end() && it->second.size() > i % PG ? it->second[i % PG] : 0; }
	// offset of the first difference, or -1
	int64_t diff(const Blob &o) const {
		if (n != o.n) return (int64_t)std::min(n, o.n);
		auto a = pg.begin(); auto b = o.pg.begin();
		static const std::string none;
		while (a != pg.end() || b != o.pg.end()) {
			uint64_t k = a == pg.end() ? b->first : b == o.pg.end() ? a->first : std::min(a->first, b->first);
			const std::string &x = a != pg.end() && a->first == k ? a->second : none, &y = b != o.pg.end() && b->first == k ? b->second : none;
			if (&x != &none) ++a; if (&y != &none) ++b;
			size_t m = std::min(x.size(), y.size());
			if (m && memcmp(x.data(), y.data(), m)) { size_t i = 0; while (x[i] == y[i]) i++; return (int64_t)(k * PG + i); }
			const std::string &z = x.size() > y.size() ? x : y;
			for (size_t i = m; i < z.size(); i++) if (z[i]) return (int64_t)(k * PG + i);
		}
		return -1;
	}
};
}
