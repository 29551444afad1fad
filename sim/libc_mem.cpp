// Simulated allocator and bounds-checked memory/string functions for the code under test.
#include "core.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <cstdarg>
#include <new>
using namespace sim;
namespace sim { void access(const void *p, size_t n, bool w); int g_alloc_tag = 1; u64 g_alloc_fail_hits; }

static bool alloc_fails(size_t) { if (fault("alloc-fail")) return true; return false; }

static size_t cstrlen(const char *s, const char *what) {
	if (in_heap(s) || ((uintptr_t)s >= 0x200000000000ULL && (uintptr_t)s < 0x280000000000ULL) || (uintptr_t)s < 4096) {
		size_t n = 0;
		for (;; n++) { check_access(s + n, 1, false, what); if (!s[n]) return n; }
	}
	return strlen(s);
}
// split large copies so that others can run in the middle
static void copy_points(const void *p, size_t n, bool w) { access(p, n, w); }

extern "C" {
void *sim_malloc(size_t n) { point(1); if (alloc_fails(n)) { set_errno(ENOMEM); return nullptr; } void *p = halloc(n, g_alloc_tag, 0); if (!p) set_errno(ENOMEM); return p; }
void *sim_calloc(size_t a, size_t b) { point(1); if (b && a > (size_t)-1 / b) { set_errno(ENOMEM); return nullptr; } if (alloc_fails(a * b)) { set_errno(ENOMEM); return nullptr; } void *p = halloc(a * b, g_alloc_tag, 0); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { point(1); if (!p) return; if (in_heap(p)) hfree(p, 0); else free(p); }
void *sim_realloc(void *p, size_t n) {
	point(1);
	if (!p) { if (alloc_fails(n)) { set_errno(ENOMEM); return nullptr; } return halloc(n, g_alloc_tag, 0); }
	if (!in_heap(p)) return realloc(p, n);
	if (n == 0) { hfree(p, 0); return nullptr; }
	if (alloc_fails(n)) { set_errno(ENOMEM); return nullptr; }
	if (!addressable(p, 1) && hsize(p)) { violate("use-after-free", "realloc of freed memory"); }
	void *q = halloc(n, g_alloc_tag, 0);
	if (!q) { set_errno(ENOMEM); return nullptr; }
	size_t o = hsize(p);
	memcpy(q, p, o < n ? o : n);
	hfree(p, 0);
	return q;
}
int sim_posix_memalign(void **r, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
static void *do_new(size_t n, int k) { point(1); void *p = fault("new-fail") ? nullptr : halloc(n, g_alloc_tag, k); if (!p) throw std::bad_alloc(); return p; }
static void *do_new0(size_t n, int k) { point(1); return fault("new-fail") ? nullptr : halloc(n, g_alloc_tag, k); }
static void do_delete(void *p, int k) { point(1); if (!p) return; if (in_heap(p)) hfree(p, k); else free(p); }
void *sim__Znwm(size_t n) { return do_new(n, 1); }
void *sim__Znam(size_t n) { return do_new(n, 2); }
void *sim__ZnwmRKSt9nothrow_t(size_t n, const void *) { return do_new0(n, 1); }
void *sim__ZnamRKSt9nothrow_t(size_t n, const void *) { return do_new0(n, 2); }
void sim__ZdlPv(void *p) { do_delete(p, 1); }
void sim__ZdaPv(void *p) { do_delete(p, 2); }
void sim__ZdlPvm(void *p, size_t) { do_delete(p, 1); }
void sim__ZdaPvm(void *p, size_t) { do_delete(p, 2); }
void sim__ZdlPvRKSt9nothrow_t(void *p, const void *) { do_delete(p, 1); }
void sim__ZdaPvRKSt9nothrow_t(void *p, const void *) { do_delete(p, 2); }

void *sim_memcpy(void *d, const void *s, size_t n) {
	copy_points(s, n, false); copy_points(d, n, true);
	if (n && d != s && (const char *)d < (const char *)s + n && (const char *)s < (const char *)d + n && (in_heap(d) || in_heap(s))) violate("memcpy-overlap", "memcpy of %zu bytes with overlapping areas", n);
	if (n > 16 && in_fiber()) { size_t h = n / 2; memmove(d, s, h); point(0); memmove((char *)d + h, (const char *)s + h, n - h); return d; }
	return memmove(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) { copy_points(s, n, false); copy_points(d, n, true); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) {
	copy_points(d, n, true);
	if (n > 16 && in_fiber()) { size_t h = n / 2; memset(d, c, h); point(0); memset((char *)d + h, c, n - h); return d; }
	return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n) { copy_points(a, n, false); copy_points(b, n, false); return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { const unsigned char *p = (const unsigned char *)a; for (size_t i = 0; i < n; i++) { check_access(p + i, 1, false, "memchr"); if (p[i] == (unsigned char)c) return (void *)(p + i); } return nullptr; }
size_t sim_strlen(const char *s) { return cstrlen(s, "strlen"); }
size_t sim_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m) { check_access(s + n, 1, false, "strnlen"); if (!s[n]) break; n++; } return n; }
char *sim_strcpy(char *d, const char *s) { size_t n = cstrlen(s, "strcpy") + 1; access(d, n, true); memmove(d, s, n); return d; }
char *sim_stpcpy(char *d, const char *s) { size_t n = cstrlen(s, "stpcpy") + 1; access(d, n, true); memmove(d, s, n); return d + n - 1; }
char *sim_strncpy(char *d, const char *s, size_t n) { access(d, n, true); size_t i = 0; for (; i < n; i++) { check_access(s + i, 1, false, "strncpy"); d[i] = s[i]; if (!s[i]) break; } for (; i < n; i++) d[i] = 0; return d; }
char *sim_strcat(char *d, const char *s) { size_t o = cstrlen(d, "strcat"), n = cstrlen(s, "strcat") + 1; access(d + o, n, true); memmove(d + o, s, n); return d; }
char *sim_strncat(char *d, const char *s, size_t m) { size_t o = cstrlen(d, "strncat"), n = sim_strnlen(s, m); access(d + o, n + 1, true); memmove(d + o, s, n); d[o + n] = 0; return d; }
int sim_strcmp(const char *a, const char *b) { cstrlen(a, "strcmp"); cstrlen(b, "strcmp"); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { return strncmp(a, b, n); }
char *sim_strchr(const char *a, int c) { cstrlen(a, "strchr"); return (char *)strchr(a, c); }
char *sim_strrchr(const char *a, int c) { cstrlen(a, "strrchr"); return (char *)strrchr(a, c); }
char *sim_strstr(const char *a, const char *b) { cstrlen(a, "strstr"); cstrlen(b, "strstr"); return (char *)strstr(a, b); }
char *sim_strdup(const char *s) { size_t n = cstrlen(s, "strdup") + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	char tmp[8192];
	int r = vsnprintf(tmp, sizeof tmp, f, ap);
	if (r < 0) return r;
	size_t l = (size_t)r < sizeof tmp - 1 ? (size_t)r : sizeof tmp - 1;
	if (n) { size_t w = l < n - 1 ? l : n - 1; access(d, w + 1, true); memcpy(d, tmp, w); d[w] = 0; }
	return r;
}
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *d, const char *f, va_list ap) { return sim_vsnprintf(d, (size_t)1 << 40, f, ap); }
int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int *sim___errno_location(void) { return errno_ptr(); }
void sim_abort(void) { violate("abort", "the code under test called abort()"); abort(); }
void sim_exit(int c) { violate("exit", "the code under test called exit(%d)", c); exit(4); }
void sim__exit(int c) { violate("exit", "the code under test called _exit(%d)", c); exit(4); }
int sim___cxa_guard_acquire(char *g) { while (g[1] && !g[0]) { if (!in_fiber()) break; sleep_us(10); } if (g[0]) return 0; g[1] = 1; return 1; }
void sim___cxa_guard_release(char *g) { g[0] = 1; g[1] = 0; }
void sim___cxa_guard_abort(char *g) { g[1] = 0; }
}
