#include <cstring>
#include "glue.h"
#include "security/security_csprng.h"
#include "json/json_serializer.h"
#include "templates/shared_lib.h"
#include "utf8/utf8_appinfo.h"
#include "environment/environment_appinfo.h"
using namespace CubicleSoft;
#define R ((Security::CSPRNG *)p)
#define J ((JSON::Serializer *)p)
#define F (*(SharedLib::FunctionUtil *)f)
extern "C" {
void *g_rng_new(int safe) { return new Security::CSPRNG(safe != 0); }
void g_rng_del(void *p) { delete R; }
int g_rng_bytes(void *p, uint8_t *b, size_t n) { return R->GetBytes(b, n); }
int g_rng_int(void *p, uint64_t *r, uint64_t a, uint64_t b) { return R->GetInteger(*r, a, b); }

void *g_json_new(int esc, const char *ks, const char *vs, size_t depth) { if (!esc && depth == 512 && !strcmp(ks, ": ") && !strcmp(vs, ", ")) return new JSON::Serializer; return new JSON::Serializer(esc != 0, ks, vs, depth); }
void g_json_set(void *p, int what, int esc, const char *t) { if (what == 0) J->SetEscapeSlashes(esc != 0); else if (what == 1) J->SetKeySplitter(t); else J->SetValSplitter(t); }
uint8_t *g_json_getbuf(void *p) { return J->GetBuffer(); }
size_t g_json_getsize(void *p) { return J->GetBufferSize(); }
void g_json_del(void *p) { delete J; }
void g_json_reset(void *p) { J->Reset(); }
void g_json_buffer(void *p, uint8_t *b, size_t n) { J->SetBuffer(b, n); }
size_t g_json_pos(void *p) { return J->GetCurrPos(); }
void g_json_drain(void *p) { J->ResetPos(); }
int g_json_mode(void *p) { return (int)J->GetCurrMode(); }
int g_json_keyreq(void *p) { return J->IsKeyRequired(); }
int g_json_start(void *p, int what, const char *key) { return what == 0 ? (key ? J->StartObject(key) : J->StartObject()) : what == 1 ? (key ? J->StartArray(key) : J->StartArray()) : (key ? J->StartStr(key) : J->StartStr()); }
int g_json_end(void *p, int what) { return what == 0 ? J->EndObject() : what == 1 ? J->EndArray() : J->EndStr(); }
int g_json_null(void *p, const char *key) { return key ? J->AppendNull(key) : J->AppendNull(); }
int g_json_bool(void *p, const char *key, int v) { return key ? J->AppendBool(key, v != 0) : J->AppendBool(v != 0); }
int g_json_int(void *p, const char *key, int64_t v) { return key ? J->AppendInt(key, v) : J->AppendInt(v); }
int g_json_uint(void *p, const char *key, uint64_t v) { return key ? J->AppendUInt(key, v) : J->AppendUInt(v); }
int g_json_double(void *p, const char *key, double v, size_t prec) { return key ? (prec == 100 ? J->AppendDouble(key, v) : J->AppendDouble(key, v, prec)) : prec == 16 ? J->AppendDouble(v) : J->AppendDouble(v, prec); }
int g_json_str(void *p, const char *key, const char *v) { return key ? J->AppendStr(key, v) : J->AppendStr(v); }
int g_json_strn(void *p, const char *key, const char *v, size_t n) { return key ? J->AppendStr(key, v, n) : J->AppendStr(v, n); }
int g_json_raw(void *p, const char *v, size_t n) { return n % 2 ? J->Append(v) : J->Append(v, n); }
int g_json_finish(void *p) { return J->Finish(); }
size_t g_json_size(void *p, const char *v, int ks) { return J->CalculateStrSize(v, ks != 0); }
size_t g_json_sizen(void *p, const char *v, size_t n, int ks) { return J->CalculateStrSize(v, n, ks != 0); }

void *g_mod_new(const char *f) { return new SharedLib::ModuleUtil(f); }
void g_mod_del(void *m) { delete (SharedLib::ModuleUtil *)m; }
void *g_mod_load(void *m) { return ((SharedLib::ModuleUtil *)m)->Load(); }
void *g_fun_new(void *m, const char *n) { return new SharedLib::FunctionUtil(*(SharedLib::ModuleUtil *)m, n); }
void g_fun_del(void *f) { delete (SharedLib::FunctionUtil *)f; }
void *g_fun_ptr(void *f) { return F.GetFuncPtr(); }
void *g_fun_load(void *f) { return F.LoadFuncPtr(); }
int g_call_i(void *f, int *r, int a) { return SharedLib::Call(F, *r, a); }
int g_call_d(void *f, double *r, double a, double b) { return SharedLib::Call(F, *r, a, b); }
int g_call_s(void *f, const char **r, const char *s, size_t n) { return SharedLib::Call(F, *r, s, n); }
int g_call_m(void *f, uint64_t *r, uint64_t a, uint64_t b, uint64_t c, int d, double e, uint64_t g, uint64_t h, char i) { return SharedLib::Call(F, *r, a, b, c, d, e, g, h, i); }
int g_call_v(void *f, int a, uint64_t b) { return SharedLib::CallVoid(F, a, b); }
int g_call_v0(void *f) { return SharedLib::CallVoid(F); }
int g_once_i(const char *l, const char *n, int *r, int a) { return SharedLib::CallOnce(l, n, *r, a); }
int g_once_v(const char *l, const char *n, int a, uint64_t b) { return SharedLib::CallOnceVoid(l, n, a, b); }

int g_app_exe(char *b, size_t *n, const char *a0) { return a0 ? UTF8::AppInfo::GetExecutableFilename(b, *n, a0) : UTF8::AppInfo::GetExecutableFilename(b, *n); }
int g_app_path(char *b, size_t *n, const char *a0) { return a0 ? UTF8::AppInfo::GetExecutablePath(b, *n, a0) : UTF8::AppInfo::GetExecutablePath(b, *n); }
int g_app_system(char *b, size_t *n, const char *d) { return d ? UTF8::AppInfo::GetSystemAppStorageDir(b, *n, d) : UTF8::AppInfo::GetSystemAppStorageDir(b, *n); }
int g_app_user(char *b, size_t *n, const char *d) { return d ? UTF8::AppInfo::GetCurrentUserAppStorageDir(b, *n, d) : UTF8::AppInfo::GetCurrentUserAppStorageDir(b, *n); }
int g_app_temp(char *b, size_t *n) { return UTF8::AppInfo::GetTempStorageDir(b, *n); }
uint64_t g_app_pid() { return (uint64_t)Environment::AppInfo::GetCurrentProcessID(); }
uint64_t g_app_tid() { return (uint64_t)Environment::AppInfo::GetCurrentThreadID(); }
uint64_t g_app_time() { return Environment::AppInfo::GetUnixMicrosecondTime(); }
}
