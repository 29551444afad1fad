#include <new>
#include "glue.h"
#include "utf8/utf8_file_dir.h"
using namespace CubicleSoft::UTF8;
#define F ((File *)p)
#define D ((Dir *)p)
static File::ShareType sh(int s) { return s == 0 ? File::ShareBoth : s == 1 ? File::ShareRead : s == 2 ? File::ShareWrite : s == 3 ? File::ShareNone : (File::ShareType)s; }
extern "C" {
void *g_file_new() { for (;;) try { return new File; } catch (std::bad_alloc &) { } }      // what is tested is not whether the harness gets its memory
void g_file_del(void *p) { delete F; }
int g_file_isopen(void *p) { return F->IsOpen(); }
int g_file_open(void *p, const char *n, int fl, int s, int mode) { return F->Open(n, fl, sh(s), mode); }
int g_file_seek(void *p, int t, uint64_t o) { return F->Seek(t == 0 ? File::SeekStart : t == 1 ? File::SeekEnd : t == 2 ? File::SeekForward : File::SeekBackward, o); }
int g_file_read(void *p, uint8_t *d, size_t n, size_t *k) { return F->Read(d, n, *k); }
int g_file_write(void *p, const uint8_t *d, size_t n, size_t *k) { return F->Write(d, n, *k); }
int g_file_writes(void *p, const char *d, size_t *k) { return F->Write(d, *k); }
int g_file_flush(void *p) { return F->Flush(); }
uint64_t g_file_pos(void *p) { return F->GetCurrPos(); }
uint64_t g_file_max(void *p) { return F->GetMaxPos(); }
int g_file_update(void *p) { return F->UpdateMaxPos(); }
int g_file_close(void *p) { return F->Close(); }
char *g_file_line(void *p, size_t h, void *m, void *(*re)(void *, void *, size_t)) { try { return F->LineInput(h, m, re); } catch (std::bad_alloc &) { return NULL; } }
char *g_file_line0(void *p) { try { return F->LineInput(); } catch (std::bad_alloc &) { return NULL; } }
void g_del_chars(char *c) { delete[] c; }
int g_file_load(const char *n, char **r, size_t *k, void *m, void *(*ma)(void *, size_t), void (*fr)(void *, void *)) { try { return File::LoadEntireFile(n, *r, *k, m, ma, fr); } catch (std::bad_alloc &) { return 0; } }
int g_fs_copy(const char *a, const char *b) { return File::Copy(a, b); }
int g_fs_move(const char *a, const char *b) { return File::Move(a, b); }
int g_fs_delete(const char *a) { return File::Delete(a); }
int g_fs_exists(const char *a) { return File::Exists(a); }
int g_fs_stat(void *st, const char *a, int l) { return File::Stat(*(File::FileStat *)st, a, l != 0); }
int g_fs_realpath(char *r, size_t n, const char *a) { return File::Realpath(r, n, a); }
int g_fs_chmod(const char *a, int m) { return File::Chmod(a, m); }
int g_fs_chown(const char *a, const char *o) { return File::Chown(a, o); }
int g_fs_chgrp(const char *a, const char *o) { return File::Chgrp(a, o); }
int g_fs_symlink(const char *a, const char *b) { return File::Symlink(a, b); }
int g_fs_readlink(char *r, size_t n, const char *a) { return File::Readlink(r, n, a); }
int g_fs_times(const char *a, uint64_t *c, uint64_t *x, uint64_t *u) { return File::SetFileTimes(a, c, x, u); }
int g_fs_absolute(char *r, size_t n, const char *b, const char *f, int s) { return File::GetAbsoluteFilename(r, n, b, f, s != 0); }
int g_fs_platform(char *r, size_t n, const char *f) { return File::GetPlatformFilename(r, n, f); }
int g_fs_valid(const char *f) { return File::IsValidFilenameFormat(f); }
void *g_dir_new() { return new Dir; }
void g_dir_del(void *p) { delete D; }
int g_dir_open(void *p, const char *n) { return D->Open(n); }
int g_dir_read(void *p, char *b, size_t n) { return D->Read(b, n); }
int g_dir_close(void *p) { return D->Close(); }
int g_dir_getcwd(char *b, size_t n) { return Dir::Getcwd(b, n); }
int g_dir_mkdir(const char *n, int m, int r) { return Dir::Mkdir(n, m, r != 0); }
int g_dir_rmdir(const char *n, int r) { return Dir::Rmdir(n, r != 0); }
}
