// Search and replace: operations of every instantiation.
#pragma once
#include <cstdint>
#include <cstddef>
#define THREW_FIND 1
struct FindApi {
	void *(*fnew)(); void (*fdel)(void *); int (*fpat)(void *, const void *, size_t, void *al); void (*fdata)(void *, const void *, size_t); const void *(*fnext)(void *, int mc); const void *(*fskip)(void *, size_t);
	void *(*rnew)(); void (*rdel)(void *); int (*rpat)(void *, const void *, size_t, void *al); void (*rset)(void *, size_t growth, size_t extra); int (*rdata)(void *, const void *, size_t, void *buf, size_t n); int (*rnext)(void *, int mc, const void **); int (*rrepl)(void *, const void *, size_t, size_t post); void *(*rget)(void *, int detach); size_t (*rsize)(void *);
	int (*all)(void **, size_t *, const void *, size_t, const void *, size_t, const void *, size_t, void *al, int mc, size_t lim, size_t growth, size_t extra, size_t *num);
	int (*fixed)(void *, size_t *, const void *, size_t, const void *, size_t, const void *, size_t, void *al, int mc, size_t lim, size_t *num);
	void (*drop)(void *al, void *);
};
extern "C" const FindApi *g_find_api(int kind, int wide);   // 0 plain, 1 allocator, 2 comparison, 3 both; char or int32_t
