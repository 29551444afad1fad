// C interface to the code under test.  The glue_*.cpp files are compiled together with the repository's sources
// (instrumented, system calls redirected); everything else in the simulator only sees this interface.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void *g_mutex_new(); void g_mutex_del(void *); int g_mutex_create(void *, const char *); int g_mutex_lock(void *, uint32_t); int g_mutex_unlock(void *, int all);
void g_mutex_auto(void *, void (*fn)(void *), void *arg);
void *g_sem_new(); void g_sem_del(void *); int g_sem_create(void *, const char *, int); int g_sem_lock(void *, uint32_t); int g_sem_unlock(void *, int *prev);
void g_sem_auto(void *, void (*fn)(void *), void *arg);
void *g_event_new(); void g_event_del(void *); int g_event_create(void *, const char *, int manual, int prefire); int g_event_wait(void *, uint32_t); int g_event_fire(void *); int g_event_reset(void *);
void *g_rw_new(); void g_rw_del(void *); int g_rw_create(void *, const char *); int g_rw_rlock(void *, uint32_t); int g_rw_wlock(void *, uint32_t); int g_rw_runlock(void *); int g_rw_wunlock(void *);
void g_rw_autor(void *, void (*fn)(void *), void *arg); void g_rw_autow(void *, void (*fn)(void *), void *arg);
void *g_shm_new(); void g_shm_del(void *); int g_shm_create(void *, const char *, size_t); int g_shm_first(void *); size_t g_shm_size(void *); char *g_shm_data(void *);
void *g_tls_new(); void g_tls_del(void *); int g_tls_init(void *, size_t bits); int g_tls_end(void *); void *g_tls_malloc(void *, size_t); void *g_tls_realloc(void *, void *, size_t, int cache); void *g_tls_dup(void *, void *, int cache); void g_tls_free(void *, void *, int cache); int g_tls_bucket(void *, size_t, size_t *, size_t *);
void g_tls_auto(void *, void *, void (*fn)(void *), void *arg);
void g_sys_free(void *);
void *g_mv_new(void *tls); void *g_mv_new_set(void *); void *g_mv_tls(void *); void g_mv_settls(void *, void *); void g_mv_assign_fresh(void *); void g_mv_del(void *); void *g_mv_copy(void *); void g_mv_assign(void *, void *); void g_mv_set(void *, const char *, size_t); void g_mv_append(void *, const char *, size_t); void g_mv_prepend(void *, const char *, size_t); void g_mv_appendint(void *, int64_t); void g_mv_prependint(void *, int64_t); void g_mv_char(void *, char); void g_mv_missing(void *, char); int g_mv_trail(void *, char); size_t g_mv_replace(void *, const char *, size_t, const char *, size_t); void g_mv_size(void *, size_t); const char *g_mv_str(void *); size_t g_mv_len(void *); void g_mv_setint(void *, int64_t); int64_t g_mv_int(void *); int g_mv_isstr(void *);
void g_mv_num(void *, int how, uint64_t v, size_t radix); void g_mv_dbl(void *, int how, double v, size_t prec); void g_mv_text(void *, int how, const char *s); size_t g_mv_replaces(void *, const char *a, const char *b); void g_mv_scalar(void *, int how, uint64_t v, double d); int g_mv_mode(void *); double g_mv_double(void *); uint64_t g_mv_uint(void *); int g_mv_bool(void *);
// files and directories; flags and modes as for open(2); share: 0 both, 1 read, 2 write, 3 none; seek: 0 start, 1 end, 2 forward, 3 backward
void *g_file_new(); void g_file_del(void *); int g_file_isopen(void *); int g_file_open(void *, const char *, int flags, int share, int mode); int g_file_seek(void *, int, uint64_t); int g_file_read(void *, uint8_t *, size_t, size_t *); int g_file_write(void *, const uint8_t *, size_t, size_t *); int g_file_writes(void *, const char *, size_t *); int g_file_flush(void *); uint64_t g_file_pos(void *); uint64_t g_file_max(void *); int g_file_update(void *); int g_file_close(void *);
char *g_file_line(void *, size_t hint, void *mgr, void *(*re)(void *, void *, size_t)); char *g_file_line0(void *); void g_del_chars(char *);
int g_file_load(const char *, char **, size_t *, void *mgr, void *(*ma)(void *, size_t), void (*fr)(void *, void *));
int g_fs_copy(const char *, const char *); int g_fs_move(const char *, const char *); int g_fs_delete(const char *); int g_fs_exists(const char *); int g_fs_stat(void *st, const char *, int link); int g_fs_realpath(char *, size_t, const char *); int g_fs_chmod(const char *, int); int g_fs_chown(const char *, const char *); int g_fs_chgrp(const char *, const char *); int g_fs_symlink(const char *, const char *); int g_fs_readlink(char *, size_t, const char *); int g_fs_times(const char *, uint64_t *, uint64_t *, uint64_t *); int g_fs_absolute(char *, size_t, const char *base, const char *, int slash); int g_fs_platform(char *, size_t, const char *); int g_fs_valid(const char *);
void *g_dir_new(); void g_dir_del(void *); int g_dir_open(void *, const char *); int g_dir_read(void *, char *, size_t); int g_dir_close(void *); int g_dir_getcwd(char *, size_t); int g_dir_mkdir(const char *, int, int); int g_dir_rmdir(const char *, int);
// random numbers, JSON, shared libraries, application information
void *g_rng_new(int safe);
void g_rng_del(void *p);
int g_rng_bytes(void *p, uint8_t *b, size_t n);
int g_rng_int(void *p, uint64_t *r, uint64_t a, uint64_t b);
void *g_json_new(int esc, const char *ks, const char *vs, size_t depth);
void g_json_del(void *p);
void g_json_reset(void *p);
void g_json_set(void *p, int what, int esc, const char *t);
uint8_t *g_json_getbuf(void *p);
size_t g_json_getsize(void *p);
void g_json_buffer(void *p, uint8_t *b, size_t n);
size_t g_json_pos(void *p);
void g_json_drain(void *p);
int g_json_mode(void *p);
int g_json_keyreq(void *p);
int g_json_start(void *p, int what, const char *key);
int g_json_end(void *p, int what);
int g_json_null(void *p, const char *key);
int g_json_bool(void *p, const char *key, int v);
int g_json_int(void *p, const char *key, int64_t v);
int g_json_uint(void *p, const char *key, uint64_t v);
int g_json_double(void *p, const char *key, double v, size_t prec);
int g_json_str(void *p, const char *key, const char *v);
int g_json_strn(void *p, const char *key, const char *v, size_t n);
int g_json_raw(void *p, const char *v, size_t n);
int g_json_finish(void *p);
size_t g_json_size(void *p, const char *v, int ks);
size_t g_json_sizen(void *p, const char *v, size_t n, int ks);
void *g_mod_new(const char *f);
void g_mod_del(void *m);
void *g_mod_load(void *m);
void *g_fun_new(void *m, const char *n);
void g_fun_del(void *f);
void *g_fun_ptr(void *f);
void *g_fun_load(void *f);
int g_call_i(void *f, int *r, int a);
int g_call_d(void *f, double *r, double a, double b);
int g_call_s(void *f, const char **r, const char *s, size_t n);
int g_call_m(void *f, uint64_t *r, uint64_t a, uint64_t b, uint64_t c, int d, double e, uint64_t g, uint64_t h, char i);
int g_call_v(void *f, int a, uint64_t b);
int g_call_v0(void *f);
int g_once_i(const char *l, const char *n, int *r, int a);
int g_once_v(const char *l, const char *n, int a, uint64_t b);
int g_app_exe(char *b, size_t *n, const char *a0);
int g_app_path(char *b, size_t *n, const char *a0);
int g_app_system(char *b, size_t *n, const char *d);
int g_app_user(char *b, size_t *n, const char *d);
int g_app_temp(char *b, size_t *n);
uint64_t g_app_pid();
uint64_t g_app_tid();
uint64_t g_app_time();
}
