// Containers: the value type stored in them and tables of the operations of each instantiation.
#pragma once
#include <cstdint>
#include <cstddef>
class V {                                    // owns a checked heap block; usable wherever a value may be moved byte by byte
public:
	V(); explicit V(uint64_t id); V(const V &); V &operator=(const V &); ~V();
	bool operator==(const V &o) const; uint64_t id() const;
private:
	uint64_t *p;
};
#define THREW ((void *)1)                    // the operation ended with std::bad_alloc
struct ListApi {                             // queue and list, with and without copying; null where there is no such operation
	void *(*make)(); void *(*make1)(uint64_t); void (*del)(void *); void *(*copy)(void *); int (*assign)(void *, void *);
	void *(*pushv)(void *, uint64_t); void *(*pushn)(void *, void *); void *(*unshiftv)(void *, uint64_t); void *(*unshiftn)(void *, void *); int (*plusv)(void *, uint64_t); void (*plusn)(void *, void *);
	void *(*shift)(void *); void *(*pop)(void *); void *(*insbv)(void *, void *, uint64_t); void *(*insbn)(void *, void *, void *); void *(*insav)(void *, void *, uint64_t); void *(*insan)(void *, void *, void *);
	int (*detach)(void *, void *); int (*remove)(void *, void *); void (*all)(void *, void *); void (*empty)(void *);
	void *(*first)(void *); void *(*last)(void *); size_t (*size)(void *); void *(*next)(void *); void *(*prev)(void *); uint64_t (*value)(void *); void *(*create)(uint64_t); void (*delnode)(void *);
};
struct Key { bool str; int64_t i; const char *s; size_t n; };
struct HashApi {
	void *(*make)(int sip, size_t est, uint64_t k1, uint64_t k2); void (*del)(void *); void *(*copy)(void *); int (*assign)(void *, void *);
	void *(*insv)(void *, int how, void *at, const Key *, uint64_t); void *(*insn)(void *, int how, void *at, void *node);   // how: 0 push, 1 unshift, 2 before, 3 after
	void *(*take)(void *, int last, int reset); int (*detach)(void *, void *, int reset); int (*remove)(void *, void *); void (*empty)(void *, int del, int reset);
	void *(*find)(void *, const Key *); void *(*findn)(void *, void *); int (*resize)(void *, size_t); size_t (*hashsize)(void *);
	void *(*first)(void *); void *(*last)(void *); size_t (*size)(void *); void *(*next)(void *); void *(*prev)(void *); uint64_t (*value)(void *); void (*key)(void *, Key *);
	void *(*create)(const Key *, uint64_t); void (*delnode)(void *); int (*setkey)(void *, const Key *, int own); void *(*clone)(void *); int (*assignnode)(void *, void *);
};
struct PackApi {
	void *(*make)(int sip, size_t est, uint64_t k1, uint64_t k2); void (*del)(void *); void *(*copy)(void *); int (*assign)(void *, void *);
	void *(*setv)(void *, const Key *, uint64_t); void *(*set)(void *, const Key *); int (*unset)(void *, const Key *); int (*unsetn)(void *, void *);
	void *(*get)(void *, size_t); size_t (*pos)(void *, void *); void *(*find)(void *, const Key *, size_t *); void *(*next)(void *, size_t *); void *(*prev)(void *, size_t *);
	int (*should)(void *); int (*optimize)(void *); int (*autoresize)(void *); int (*resize)(void *, size_t); size_t (*hashsize)(void *); size_t (*nextpos)(void *); size_t (*size)(void *); uint64_t (*value)(void *); void (*key)(void *, Key *);
};
extern "C" {
const ListApi *g_list_api(int kind);         // 0 Queue, 1 QueueNoCopy, 2 List, 3 ListNoCopy
const HashApi *g_hash_api(int nocopy);
const PackApi *g_pack_api(int nocopy);
void *g_cache_new(int nocopy, size_t n); void g_cache_del(int, void *); void *g_cache_copy(void *); int g_cache_assign(void *, void *); void g_cache_empty(int, void *); int g_cache_insert(int, void *, size_t, uint64_t, uint64_t); int g_cache_remove(int, void *, size_t, uint64_t); int g_cache_exists(int, void *, size_t, uint64_t); int g_cache_find(int, void *, uint64_t *, size_t, uint64_t); size_t g_cache_size(int, void *);
void *g_vec_new(size_t); void g_vec_del(void *); void *g_vec_copy(void *); int g_vec_assign(void *, void *); size_t g_vec_size(void *); int g_vec_set(void *, size_t, uint64_t); uint64_t g_vec_get(void *, size_t); int g_vec_eq(void *, void *); uint64_t g_vec_raw(void *, size_t);
void *g_arr_new(size_t, size_t); void g_arr_del(void *); void *g_arr_copy(void *); int g_arr_assign(void *, void *); size_t g_arr_w(void *); size_t g_arr_h(void *); int g_arr_set(void *, size_t, size_t, uint64_t); uint64_t g_arr_get(void *, size_t, size_t); int g_arr_eq(void *, void *);
}
