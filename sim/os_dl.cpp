// Simulated dynamic loader.
#include "fs.h"
#include <cstring>
using namespace sim;
namespace sim { DlState g_dl; }
namespace {
char g_err[64]; bool g_have;
void rst() { g_dl = DlState(); g_have = false; }
struct Init { Init() { add_reset(rst); } } init_;
int bad(const char *m) { strcpy(g_err, m); g_have = true; return -1; }
std::string pstr(const char *s) { std::string r; for (;; s++) { check_access(s, 1, false, "a name given to the loader"); if (!*s) return r; r += *s; } }
}
extern "C" {
void *sim_dlopen(const char *f, int) {
	point(1); std::string n = f ? pstr(f) : ""; if (n.empty()) n = DL_MAIN; auto it = g_dl.libs.find(n);
	if (it == g_dl.libs.end()) { ev("dlopen %s: none", n.c_str()); bad("no such library"); return nullptr; }
	if (fault("dlopen-fail")) { bad("refused"); return nullptr; }
	for (auto &o : g_dl.open) if (o.second.first == n) { o.second.second++; g_dl.opens++; ev("dlopen %s again", n.c_str()); return (void *)o.first; }
	u64 h = (u64)halloc(16, 7); g_dl.open[h] = {n, 1}; g_dl.opens++; ev("dlopen %s", n.c_str()); return (void *)h;
}
void *sim_dlsym(void *h, const char *s) {
	point(1); std::string n = pstr(s); auto it = g_dl.open.find((u64)h);
	if (!h || h == (void *)-1L) { auto &m = g_dl.libs[DL_MAIN]; auto f = m.find(n); ev("dlsym %s anywhere", n.c_str()); if (f == m.end()) { bad("no such symbol"); return nullptr; } return f->second; }
	if (it == g_dl.open.end()) { violate("dead-handle", "looking for '%s' in a library that is not open", n.c_str()); return nullptr; }
	if (fault("dlsym-fail")) { bad("refused"); return nullptr; }
	auto &l = g_dl.libs[it->second.first]; auto f = l.find(n);
	if (f == l.end()) { ev("dlsym %s: none", n.c_str()); bad("no such symbol"); return nullptr; }
	ev("dlsym %s", n.c_str()); return f->second;
}
int sim_dlclose(void *h) {
	point(1); auto it = g_dl.open.find((u64)h);
	if (it == g_dl.open.end()) { violate("double-close", "closing a library that is not open"); return -1; }
	g_dl.closes++; ev("dlclose %s", it->second.first.c_str());
	if (!--it->second.second) { hfree(h); g_dl.open.erase(it); }
	return 0;
}
char *sim_dlerror(void) { if (!g_have) return nullptr; g_have = false; return g_err; }
}
