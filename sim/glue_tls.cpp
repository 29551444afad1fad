#include "glue.h"
#include "sync/sync_tls.h"
#include <cstdlib>
using namespace CubicleSoft::Sync;
#define T ((TLS *)p)
#define M ((TLS::MixedVar *)p)
extern "C" {
void *g_tls_new() { return new TLS; }
void g_tls_del(void *p) { delete T; }
int g_tls_init(void *p, size_t b) { return b == 15 ? T->ThreadInit() : T->ThreadInit(b); }
int g_tls_end(void *p) { return T->ThreadEnd(); }
void *g_tls_malloc(void *p, size_t n) { return T->malloc(n); }
void *g_tls_realloc(void *p, void *d, size_t n, int c) { return c ? T->realloc(d, n) : T->realloc(d, n, false); }
void *g_tls_dup(void *p, void *d, int c) { return c ? T->dup_malloc(d) : T->dup_malloc(d, false); }
void g_tls_free(void *p, void *d, int c) { if (c) T->free(d); else T->free(d, false); }
int g_tls_bucket(void *p, size_t n, size_t *a, size_t *b) { return T->GetBucketInfo(n, *a, *b); }
void g_tls_auto(void *p, void *d, void (*fn)(void *), void *arg) { TLS::AutoFree f(T, d); fn(arg); }
void g_sys_free(void *p) { ::free(p); }
void *g_mv_new(void *p) { return new TLS::MixedVar(T); }
void *g_mv_new_set(void *p) { TLS::MixedVar *m = new TLS::MixedVar; m->SetTLS(T); return m; }
void g_mv_settls(void *p, void *t) { M->SetTLS((TLS *)t); }
void g_mv_assign_fresh(void *p) { *M = TLS::MixedVar(); }
void *g_mv_tls(void *p) { return M->GetTLS(); }
void g_mv_del(void *p) { delete M; }
void *g_mv_copy(void *p) { return new TLS::MixedVar(*M); }
void g_mv_assign(void *p, void *o) { *M = *(TLS::MixedVar *)o; }
void g_mv_set(void *p, const char *s, size_t n) { M->SetData(s, n); }
void g_mv_append(void *p, const char *s, size_t n) { M->AppendData(s, n); }
void g_mv_prepend(void *p, const char *s, size_t n) { M->PrependData(s, n); }
void g_mv_appendint(void *p, int64_t v) { M->AppendInt(v); }
void g_mv_prependint(void *p, int64_t v) { M->PrependInt(v); }
void g_mv_char(void *p, char c) { M->AppendChar(c); }
void g_mv_missing(void *p, char c) { M->AppendMissingChar(c); }
int g_mv_trail(void *p, char c) { return M->RemoveTrailingChar(c); }
size_t g_mv_replace(void *p, const char *a, size_t an, const char *b, size_t bn) { return M->ReplaceData(a, an, b, bn); }
void g_mv_size(void *p, size_t n) { M->SetSize(n); }
const char *g_mv_str(void *p) { return M->GetStr(); }
size_t g_mv_len(void *p) { return M->GetSize(); }
void g_mv_setint(void *p, int64_t v) { M->SetInt(v); }
int64_t g_mv_int(void *p) { return M->GetInt(); }
void g_mv_num(void *p, int how, uint64_t v, size_t r) {
	switch (how) { case 0: r == 10 ? M->AppendInt((int64_t)v) : M->AppendInt((int64_t)v, r); break; case 1: r == 10 ? M->AppendUInt(v) : M->AppendUInt(v, r); break; case 2: r == 10 ? M->PrependInt((int64_t)v) : M->PrependInt((int64_t)v, r); break; default: r == 10 ? M->PrependUInt(v) : M->PrependUInt(v, r); }
}
void g_mv_dbl(void *p, int how, double v, size_t prec) { if (how) prec == 16 ? M->PrependDouble(v) : M->PrependDouble(v, prec); else prec == 16 ? M->AppendDouble(v) : M->AppendDouble(v, prec); }
void g_mv_text(void *p, int how, const char *s) { if (how == 0) M->SetStr(s); else if (how == 1) M->AppendStr(s); else M->PrependStr(s); }
size_t g_mv_replaces(void *p, const char *a, const char *b) { return M->ReplaceStr(a, b); }
void g_mv_scalar(void *p, int how, uint64_t v, double d) { switch (how) { case 1: M->SetBool(v != 0); break; case 2: M->SetInt((int64_t)v); break; case 3: M->SetUInt(v); break; default: M->SetDouble(d); } }
int g_mv_mode(void *p) { int n = M->IsNone() + M->IsBool() + M->IsInt() + M->IsUInt() + M->IsDouble() + M->IsStr(); if (n != 1) return -1; return M->IsNone() ? 0 : M->IsBool() ? 1 : M->IsInt() ? 2 : M->IsUInt() ? 3 : M->IsDouble() ? 4 : 5; }
double g_mv_double(void *p) { return M->GetDouble(); }
uint64_t g_mv_uint(void *p) { return M->GetUInt(); }
int g_mv_bool(void *p) { return M->GetBool(); }
int g_mv_isstr(void *p) { return M->IsStr(); }
}
