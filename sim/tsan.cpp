// Our own definitions of the memory-access instrumentation entry points: every load and store of the code under test
// becomes a preemption point and a bounds check.  No race-detector runtime is linked.
#include <cstdint>
#include <cstddef>
#include <cstring>
namespace sim { void access(const void *p, size_t n, bool w); void point(int cls); void check_access(const void *, size_t, bool, const char *); }
using sim::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { access(p, n, false); } \
void __tsan_write##n(void *p) { access(p, n, true); } \
void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
void __tsan_volatile_read##n(void *p) { access(p, n, false); } \
void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } \
void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); } \
void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); } \
void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64;
#define AT(T, N) \
T __tsan_atomic##N##_load(const volatile T *a, int) { access((void *)a, sizeof(T), false); return *a; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(a8, 8) AT(a16, 16) AT(a32, 32) AT(a64, 64)
void __tsan_atomic_thread_fence(int) { sim::point(0); }
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
}
