#include <cstdlib>
#include <cstring>
#include <new>
#include "glue_cont.h"
#include "templates/detachable_queue.h"
#include "templates/detachable_list.h"
#include "templates/detachable_ordered_hash.h"
#include "templates/packed_ordered_hash.h"
#include "templates/cache.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;
namespace {
template <class C, class N> struct Q {
	static C *c(void *p) { return (C *)p; } static N *n(void *p) { return (N *)p; }
	static void *make() { try { return new C; } catch (std::bad_alloc &) { return THREW; } }
	static void *make1(uint64_t v) { try { return new C(V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void del(void *p) { delete c(p); }
	static void *pushv(void *p, uint64_t v) { try { return c(p)->Push(V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void *pushn(void *p, void *x) { return c(p)->Push(n(x)); }
	static void *unshiftv(void *p, uint64_t v) { try { return c(p)->Unshift(V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void *unshiftn(void *p, void *x) { return c(p)->Unshift(n(x)); }
	static int plusv(void *p, uint64_t v) { try { *c(p) += V(v); return 1; } catch (std::bad_alloc &) { return 0; } }
	static void plusn(void *p, void *x) { *c(p) += n(x); }
	static void *shift(void *p) { return c(p)->Shift(); }
	static void all(void *p, void *o) { c(p)->DetachAllAndAppend(*c(o)); }
	static void empty(void *p) { c(p)->Empty(); }
	static void *first(void *p) { return c(p)->First(); } static void *last(void *p) { return c(p)->Last(); } static size_t size(void *p) { return c(p)->GetSize(); }
	static void *next(void *x) { return n(x)->Next(); } static uint64_t value(void *x) { return n(x)->Value.id(); }
	static void *create(uint64_t v) { try { if (v % 3 == 0) { N *x = C::CreateNode(); try { x->Value = V(v); } catch (...) { delete x; throw; } return x; } return C::CreateNode(V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void delnode(void *x) { delete n(x); }
};
template <class C, class N> struct L : Q<C, N> {
	typedef Q<C, N> B;
	static void *pop(void *p) { return B::c(p)->Pop(); }
	static void *insbv(void *p, void *a, uint64_t v) { try { return B::c(p)->InsertBefore(B::n(a), V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void *insbn(void *p, void *a, void *x) { return B::c(p)->InsertBefore(B::n(a), B::n(x)); }
	static void *insav(void *p, void *a, uint64_t v) { try { return B::c(p)->InsertAfter(B::n(a), V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void *insan(void *p, void *a, void *x) { return B::c(p)->InsertAfter(B::n(a), B::n(x)); }
	static int detach(void *p, void *x) { return B::c(p)->Detach(B::n(x)); } static int remove(void *p, void *x) { return B::c(p)->Remove(B::n(x)); }
	static void *prev(void *x) { return B::n(x)->Prev(); }
};
template <class C> struct Cp {
	static void *copy(void *p) { try { return new C(*(C *)p); } catch (std::bad_alloc &) { return THREW; } }
	static int assign(void *p, void *o) { try { *(C *)p = *(C *)o; return 1; } catch (std::bad_alloc &) { return 0; } }
};
#define QT(X) X::make, X::make1, X::del
#define QT2(X) X::pushv, X::pushn, X::unshiftv, X::unshiftn, X::plusv, X::plusn, X::shift
#define QT3(X) X::first, X::last, X::size, X::next
typedef Q<Queue<V>, QueueNode<V> > Q0; typedef Q<QueueNoCopy<V>, QueueNode<V> > Q1; typedef L<List<V>, ListNode<V> > L0; typedef L<ListNoCopy<V>, ListNode<V> > L1;

template <class C> struct H {
	typedef OrderedHashNode<V> N; static C *c(void *p) { return (C *)p; } static N *n(void *p) { return (N *)p; }
	static void *make(int sip, size_t est, uint64_t k1, uint64_t k2) { try { if (sip) return new C(est, k1, k2); if (est == 23 && k1 == 5381) return new C; return new C(est, k1); } catch (std::bad_alloc &) { return THREW; } }
	static void del(void *p) { delete c(p); }
	static void *insv(void *p, int how, void *at, const Key *k, uint64_t v) { try { switch (how) {
		case 0: return k->str ? c(p)->Push(k->s, k->n, V(v)) : c(p)->Push(k->i, V(v)); case 1: return k->str ? c(p)->Unshift(k->s, k->n, V(v)) : c(p)->Unshift(k->i, V(v));
		case 2: return k->str ? c(p)->InsertBefore(n(at), k->s, k->n, V(v)) : c(p)->InsertBefore(n(at), k->i, V(v)); default: return k->str ? c(p)->InsertAfter(n(at), k->s, k->n, V(v)) : c(p)->InsertAfter(n(at), k->i, V(v)); } } catch (std::bad_alloc &) { return THREW; } }
	static void *insn(void *p, int how, void *at, void *x) { try { switch (how) { case 0: return c(p)->Push(n(x)); case 1: return c(p)->Unshift(n(x)); case 2: return c(p)->InsertBefore(n(at), n(x)); default: return c(p)->InsertAfter(n(at), n(x)); } } catch (std::bad_alloc &) { return THREW; } }
	static void *take(void *p, int last, int reset) { return last ? c(p)->Pop(reset != 0) : c(p)->Shift(reset != 0); }
	static int detach(void *p, void *x, int reset) { return c(p)->Detach(n(x), reset != 0); } static int remove(void *p, void *x) { return c(p)->Remove(n(x)); }
	static void empty(void *p, int d, int r) { if (d && !r) c(p)->Empty(); else c(p)->Empty(d != 0, r != 0); }
	static void *find(void *p, const Key *k) { return k->str ? c(p)->Find(k->s, k->n) : c(p)->Find(k->i); } static void *findn(void *p, void *x) { return c(p)->Find(n(x)); }
	static int resize(void *p, size_t s) { try { return c(p)->ResizeHash(s); } catch (std::bad_alloc &) { return -1; } } static size_t hashsize(void *p) { return c(p)->GetHashSize(); }
	static void *first(void *p) { return c(p)->FirstList(); } static void *last(void *p) { return c(p)->LastList(); } static size_t size(void *p) { return c(p)->GetListSize(); }
	static void *next(void *x) { return n(x)->NextList(); } static void *prev(void *x) { return n(x)->PrevList(); } static uint64_t value(void *x) { return n(x)->Value.id(); }
	static void key(void *x, Key *k) { k->s = n(x)->GetStrKey(); k->str = k->s != NULL; k->i = n(x)->GetIntKey(); k->n = k->str ? (size_t)k->i : 0; }
	static void *create(const Key *k, uint64_t v) { try { return k->str ? C::CreateNode(k->s, k->n, V(v)) : C::CreateNode(k->i, V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void delnode(void *x) { delete n(x); }
	static void *clone(void *x) { try { return new N(*n(x)); } catch (std::bad_alloc &) { return THREW; } } static int assignnode(void *x, void *y) { try { *n(x) = *n(y); return 1; } catch (std::bad_alloc &) { return 0; } }
	static int setkey(void *x, const Key *k, int own) { try { if (k->str) n(x)->SetStrKey(k->s, k->n, own != 0); else n(x)->SetIntKey(k->i, own != 0); return 1; } catch (std::bad_alloc &) { return 0; } }
};
#define HT(X) X::insv, X::insn, X::take, X::detach, X::remove, X::empty, X::find, X::findn, X::resize, X::hashsize, X::first, X::last, X::size, X::next, X::prev, X::value, X::key, X::create, X::delnode, X::setkey, X::clone, X::assignnode
typedef H<OrderedHash<V> > H0; typedef H<OrderedHashNoCopy<V> > H1;

template <class C> struct P {
	typedef PackedOrderedHashNode<V> N; static C *c(void *p) { return (C *)p; } static N *n(void *p) { return (N *)p; }
	static void *make(int sip, size_t est, uint64_t k1, uint64_t k2) { try { if (sip) return new C(est, k1, k2); if (est == 8 && k1 == 5381) return new C; return new C(est, k1); } catch (std::bad_alloc &) { return THREW; } }
	static void del(void *p) { delete c(p); }
	static void *setv(void *p, const Key *k, uint64_t v) { try { return k->str ? c(p)->Set(k->s, k->n, V(v)) : c(p)->Set(k->i, V(v)); } catch (std::bad_alloc &) { return THREW; } }
	static void *set(void *p, const Key *k) { try { return k->str ? c(p)->Set(k->s, k->n) : c(p)->Set(k->i); } catch (std::bad_alloc &) { return THREW; } }
	static int unset(void *p, const Key *k) { return k->str ? c(p)->Unset(k->s, k->n) : c(p)->Unset(k->i); } static int unsetn(void *p, void *x) { return c(p)->Unset(n(x)); }
	static void *get(void *p, size_t i) { return c(p)->Get(i); } static size_t pos(void *p, void *x) { return c(p)->GetPos(n(x)); }
	static void *find(void *p, const Key *k, size_t *o) { if (!o) return k->str ? c(p)->Find(k->s, k->n) : c(p)->Find(k->i); return k->str ? c(p)->Find(k->s, k->n, *o) : c(p)->Find(k->i, *o); }
	static void *next(void *p, size_t *i) { return c(p)->Next(*i); } static void *prev(void *p, size_t *i) { return c(p)->Prev(*i); }
	static int should(void *p) { return c(p)->ShouldOptimize(); } static int optimize(void *p) { return c(p)->Optimize(); }
	static int autoresize(void *p) { try { return c(p)->AutoResizeHash(); } catch (std::bad_alloc &) { return -1; } } static int resize(void *p, size_t s) { try { return c(p)->ResizeHash(s); } catch (std::bad_alloc &) { return -1; } }
	static size_t hashsize(void *p) { return c(p)->GetHashSize(); } static size_t nextpos(void *p) { return c(p)->GetNextPos(); } static size_t size(void *p) { return c(p)->GetSize(); }
	static uint64_t value(void *x) { return n(x)->Value.id(); }
	static void key(void *x, Key *k) { k->s = n(x)->GetStrKey(); k->str = k->s != NULL; k->i = n(x)->GetIntKey(); k->n = k->str ? n(x)->GetStrLen() : 0; }
};
#define PT(X) X::setv, X::set, X::unset, X::unsetn, X::get, X::pos, X::find, X::next, X::prev, X::should, X::optimize, X::autoresize, X::resize, X::hashsize, X::nextpos, X::size, X::value, X::key
typedef P<PackedOrderedHash<V> > P0; typedef P<PackedOrderedHashNoCopy<V> > P1;
typedef Cache<V, V> C0; typedef CacheNoCopy<V, V> C1; typedef StaticVector<V> SV; typedef Static2DArray<V> SA;
}
extern "C" {
const ListApi *g_list_api(int k) {
	static const ListApi t[] = {
		{ QT(Q0), Cp<Queue<V> >::copy, Cp<Queue<V> >::assign, QT2(Q0), 0, 0, 0, 0, 0, 0, 0, Q0::all, Q0::empty, QT3(Q0), 0, Q0::value, Q0::create, Q0::delnode },
		{ QT(Q1), 0, 0, QT2(Q1), 0, 0, 0, 0, 0, 0, 0, Q1::all, Q1::empty, QT3(Q1), 0, Q1::value, Q1::create, Q1::delnode },
		{ QT(L0), Cp<List<V> >::copy, Cp<List<V> >::assign, QT2(L0), L0::pop, L0::insbv, L0::insbn, L0::insav, L0::insan, L0::detach, L0::remove, L0::all, L0::empty, QT3(L0), L0::prev, L0::value, L0::create, L0::delnode },
		{ QT(L1), 0, 0, QT2(L1), L1::pop, L1::insbv, L1::insbn, L1::insav, L1::insan, L1::detach, L1::remove, L1::all, L1::empty, QT3(L1), L1::prev, L1::value, L1::create, L1::delnode } };
	return t + k;
}
const HashApi *g_hash_api(int k) { static const HashApi t[] = { { H0::make, H0::del, Cp<OrderedHash<V> >::copy, Cp<OrderedHash<V> >::assign, HT(H0) }, { H1::make, H1::del, 0, 0, HT(H1) } }; return t + k; }
const PackApi *g_pack_api(int k) { static const PackApi t[] = { { P0::make, P0::del, Cp<PackedOrderedHash<V> >::copy, Cp<PackedOrderedHash<V> >::assign, PT(P0) }, { P1::make, P1::del, 0, 0, PT(P1) } }; return t + k; }
#define CC(e) (nc ? ((C1 *)p)->e : ((C0 *)p)->e)
void *g_cache_new(int nc, size_t n) { try { return nc ? (void *)new C1(n) : (void *)new C0(n); } catch (std::bad_alloc &) { return THREW; } }
void g_cache_del(int nc, void *p) { if (nc) delete (C1 *)p; else delete (C0 *)p; }
void *g_cache_copy(void *p) { try { return new C0(*(C0 *)p); } catch (std::bad_alloc &) { return THREW; } }
int g_cache_assign(void *p, void *o) { try { *(C0 *)p = *(C0 *)o; return 1; } catch (std::bad_alloc &) { return 0; } }
void g_cache_empty(int nc, void *p) { CC(Empty()); }
int g_cache_insert(int nc, void *p, size_t h, uint64_t k, uint64_t v) { try { CC(Insert(h, V(k), V(v))); return 1; } catch (std::bad_alloc &) { return 0; } }
int g_cache_remove(int nc, void *p, size_t h, uint64_t k) { return CC(Remove(h, V(k))); }
int g_cache_exists(int nc, void *p, size_t h, uint64_t k) { return CC(Exists(h, V(k))); }
int g_cache_find(int nc, void *p, uint64_t *r, size_t h, uint64_t k) { V v(*r); int f; try { f = CC(Find(v, h, V(k))); } catch (std::bad_alloc &) { f = -1; } *r = v.id(); return f; }
size_t g_cache_size(int nc, void *p) { return CC(GetSize()); }
void *g_vec_new(size_t n) { try { return new SV(n); } catch (std::bad_alloc &) { return THREW; } }
void g_vec_del(void *p) { delete (SV *)p; }
void *g_vec_copy(void *p) { try { return new SV(*(SV *)p); } catch (std::bad_alloc &) { return THREW; } }
int g_vec_assign(void *p, void *o) { try { *(SV *)p = *(SV *)o; return 1; } catch (std::bad_alloc &) { return 0; } }
size_t g_vec_size(void *p) { return ((SV *)p)->GetSize(); }
int g_vec_set(void *p, size_t i, uint64_t v) { try { (*(SV *)p)[i] = V(v); return 1; } catch (std::bad_alloc &) { return 0; } }
uint64_t g_vec_get(void *p, size_t i) { return (*(SV *)p)[i].id(); }
uint64_t g_vec_raw(void *p, size_t i) { return ((SV *)p)->RawData()[i].id(); }
int g_vec_eq(void *p, void *o) { bool e = *(SV *)p == *(SV *)o, n = *(SV *)p != *(SV *)o; return e == n ? -1 : e; }
void *g_arr_new(size_t w, size_t h) { try { return new SA(w, h); } catch (std::bad_alloc &) { return THREW; } }
void g_arr_del(void *p) { delete (SA *)p; }
void *g_arr_copy(void *p) { try { return new SA(*(SA *)p); } catch (std::bad_alloc &) { return THREW; } }
int g_arr_assign(void *p, void *o) { try { *(SA *)p = *(SA *)o; return 1; } catch (std::bad_alloc &) { return 0; } }
size_t g_arr_w(void *p) { return ((SA *)p)->GetWidth(); }
size_t g_arr_h(void *p) { return ((SA *)p)->GetHeight(); }
int g_arr_set(void *p, size_t x, size_t y, uint64_t v) { try { (*(SA *)p)[y][x] = V(v); return 1; } catch (std::bad_alloc &) { return 0; } }
uint64_t g_arr_get(void *p, size_t x, size_t y) { return ((SA *)p)->RawData()[y][x].id(); }
int g_arr_eq(void *p, void *o) { bool e = *(SA *)p == *(SA *)o, n = *(SA *)p != *(SA *)o; return e == n ? -1 : e; }
}
