#include <cstdlib>
#include <cstring>
#include <new>
#include "glue_find.h"
#include "sync/sync_tls.h"
#include "templates/fast_find_replace.h"
using namespace CubicleSoft;
namespace {
typedef Sync::TLS A;
template <class T> bool eqf(const T &a, const T &b) { T x = a, y = b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; return x == y; }
template <class T> struct EqT { typedef bool (*F)(const T &, const T &); };
#define COMMA ,
#define TRY(e) try { e; } catch (std::bad_alloc &) { return THREW_FIND; }
#define OPS(FIND, REPL, PAT, CMP, MC) \
	static void *fnew() { for (;;) try { return new FIND; } catch (std::bad_alloc &) {} } static void fdel(void *p) { delete (FIND *)p; } \
	static int fpat(void *p, const void *d, size_t n, void *al) { (void)al; TRY(((FIND *)p)->SetPattern((const T *)d, n PAT)) return 0; } \
	static void fdata(void *p, const void *d, size_t n) { ((FIND *)p)->SetData((const T *)d, n); } \
	static const void *fnext(void *p, int mc) { (void)mc; return ((FIND *)p)->FindNext(MC); } \
	static const void *fskip(void *p, size_t x) { return x ? ((FIND *)p)->SkipMatch(x) : ((FIND *)p)->SkipMatch(); } \
	static void *rnew() { for (;;) try { return new REPL; } catch (std::bad_alloc &) {} } static void rdel(void *p) { delete (REPL *)p; } \
	static int rpat(void *p, const void *d, size_t n, void *al) { (void)al; TRY(((REPL *)p)->SetPattern((const T *)d, n PAT)) return 0; } \
	static void rset(void *p, size_t g, size_t x) { ((REPL *)p)->SetGrowthSize(g); ((REPL *)p)->SetExtraAlloc(x); } \
	static int rdata(void *p, const void *d, size_t n, void *b, size_t bn) { TRY(if (b) ((REPL *)p)->SetData((const T *)d, n, (T *)b, bn); else ((REPL *)p)->SetData((const T *)d, n)) return 0; } \
	static int rnext(void *p, int mc, const void **r) { (void)mc; TRY(*r = ((REPL *)p)->FindNext(MC)) return 0; } \
	static int rrepl(void *p, const void *d, size_t n, size_t post) { TRY(if (post) ((REPL *)p)->Replace((const T *)d, n, post); else ((REPL *)p)->Replace((const T *)d, n)) return 0; } \
	static void *rget(void *p, int detach) { return detach ? ((REPL *)p)->DetachData() : ((REPL *)p)->GetData(); } static size_t rsize(void *p) { return ((REPL *)p)->GetDataSize(); }
template <class T> struct V0 {
	typedef FastFind<T> F; typedef FastReplace<T> R;
	OPS(F, R, , , mc != 0)
	static int all(void **r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *, int mc, size_t lim, size_t g, size_t x, size_t *num) { T *t = (T *)*r; TRY(*num = R::ReplaceAll(t, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, lim, g, x, mc != 0)) *r = t; return 0; }
	static int fixed(void *r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *, int mc, size_t lim, size_t *num) { TRY(*num = R::StaticReplaceAll((T *)r, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, lim, 1024, 1, mc != 0)) return 0; }
	static void drop(void *, void *d) { delete[] (char *)d; }
};
template <class T> struct V1 {
	typedef FastFindAlloc<T, A> F; typedef FastReplaceAlloc<T, A> R;
	OPS(F, R, COMMA (A *)al, , mc != 0)
	static int all(void **r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *al, int mc, size_t lim, size_t g, size_t x, size_t *num) { T *t = (T *)*r; *num = R::ReplaceAll(t, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, (A *)al, lim, g, x, mc != 0); *r = t; return 0; }
	static int fixed(void *r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *al, int mc, size_t lim, size_t *num) { *num = R::StaticReplaceAll((T *)r, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, (A *)al, lim, 1024, 1, mc != 0); return 0; }
	static void drop(void *al, void *d) { ((A *)al)->free(d); }
};
template <class T> struct V2 {
	typedef typename EqT<T>::F E; typedef FastFindCompare<T, E> F; typedef FastReplaceCompare<T, E> R;
	OPS(F, R, COMMA eqf<T>, , eqf<T>)
	static int all(void **r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *, int, size_t lim, size_t g, size_t x, size_t *num) { T *t = (T *)*r; TRY(*num = R::ReplaceAll(t, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, eqf<T>, lim, g, x)) *r = t; return 0; }
	static int fixed(void *r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *, int, size_t lim, size_t *num) { TRY(*num = R::StaticReplaceAll((T *)r, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, eqf<T>, lim)) return 0; }
	static void drop(void *, void *d) { delete[] (char *)d; }
};
template <class T> struct V3 {
	typedef typename EqT<T>::F E; typedef FastFindAllocCompare<T, A, E> F; typedef FastReplaceAllocCompare<T, A, E> R;
	OPS(F, R, COMMA (A *)al COMMA eqf<T>, , eqf<T>)
	static int all(void **r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *al, int, size_t lim, size_t g, size_t x, size_t *num) { T *t = (T *)*r; *num = R::ReplaceAll(t, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, (A *)al, eqf<T>, lim, g, x); *r = t; return 0; }
	static int fixed(void *r, size_t *n, const void *d, size_t dn, const void *p, size_t pn, const void *w, size_t wn, void *al, int, size_t lim, size_t *num) { *num = R::StaticReplaceAll((T *)r, *n, (const T *)d, dn, (const T *)p, pn, (const T *)w, wn, (A *)al, eqf<T>, lim); return 0; }
	static void drop(void *al, void *d) { ((A *)al)->free(d); }
};
#define TAB(X) { X::fnew, X::fdel, X::fpat, X::fdata, X::fnext, X::fskip, X::rnew, X::rdel, X::rpat, X::rset, X::rdata, X::rnext, X::rrepl, X::rget, X::rsize, X::all, X::fixed, X::drop }
}
extern "C" const FindApi *g_find_api(int kind, int wide) {
	static const FindApi t[2][4] = { { TAB(V0<char>), TAB(V1<char>), TAB(V2<char>), TAB(V3<char>) }, { TAB(V0<int32_t>), TAB(V1<int32_t>), TAB(V2<int32_t>), TAB(V3<int32_t>) } };
	return &t[wide][kind];
}
