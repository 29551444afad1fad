// The members of the system interface that the code under test does not use today but that an equivalent version of it might:
// the *at calls, descriptor duplication, vectored I/O and a few allocating string functions.  They are expressed through the
// calls the simulator already has, so nothing of this reaches the real file system.
#include "fs.h"
#include "os.h"
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <new>
using namespace sim;
typedef std::string S;
namespace sim { bool fs_dirpath(u64 ofd, S &out); void fs_dup(u64 ofd); }
extern "C" {
int sim_open(const char *p, int fl, ...); int sim_stat(const char *, struct stat *); int sim_lstat(const char *, struct stat *); int sim_fstat(int, struct stat *);
int sim_unlink(const char *); int sim_rmdir(const char *); int sim_mkdir(const char *, mode_t); int sim_rename(const char *, const char *); int sim_symlink(const char *, const char *);
int sim_link(const char *, const char *); ssize_t sim_readlink(const char *, char *, size_t); int sim_access(const char *, int); int sim_chmod(const char *, mode_t);
int sim_chown(const char *, uid_t, gid_t); int sim_lchown(const char *, uid_t, gid_t); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t);
ssize_t sim_pread(int, void *, size_t, off_t); ssize_t sim_pwrite(int, const void *, size_t, off_t); void *sim_malloc(size_t); void *sim_realloc(void *, size_t); int sim_flock(int, int);

// The name relative to the descriptor's directory, as a name of its own; false with the error set when there is no such directory.
static bool at(int dfd, const char *p, S &out) {
	size_t n = 0; for (;; n++) { check_access(p + n, 1, false, "path"); if (!p[n]) break; }
	out.assign(p, n);
	if (dfd == AT_FDCWD || (n && p[0] == '/')) return true;
	FdEnt *e = fd_get(dfd); if (!e) return false;
	S d; if ((e->kind != FD_DIR && e->kind != FD_FILE) || !fs_dirpath(e->ref, d)) { set_errno(ENOTDIR); return false; }
	if (n) out = d + "/" + out;
	return true;
}
int sim_openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = (mode_t)va_arg(ap, unsigned); va_end(ap); } S s; if (!at(d, p, s)) return -1; return sim_open(s.c_str(), fl, m); }
int sim_openat64(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = (mode_t)va_arg(ap, unsigned); va_end(ap); } S s; if (!at(d, p, s)) return -1; return sim_open(s.c_str(), fl, m); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { if ((fl & AT_EMPTY_PATH) && !*p) return sim_fstat(d, st); S s; if (!at(d, p, s)) return -1; return (fl & AT_SYMLINK_NOFOLLOW) ? sim_lstat(s.c_str(), st) : sim_stat(s.c_str(), st); }
int sim_fstatat64(int d, const char *p, struct stat *st, int fl) { return sim_fstatat(d, p, st, fl); }
int sim_unlinkat(int d, const char *p, int fl) { S s; if (!at(d, p, s)) return -1; return (fl & AT_REMOVEDIR) ? sim_rmdir(s.c_str()) : sim_unlink(s.c_str()); }
int sim_mkdirat(int d, const char *p, mode_t m) { S s; if (!at(d, p, s)) return -1; return sim_mkdir(s.c_str(), m); }
int sim_renameat(int d1, const char *p1, int d2, const char *p2) { S a, b; if (!at(d1, p1, a) || !at(d2, p2, b)) return -1; return sim_rename(a.c_str(), b.c_str()); }
int sim_symlinkat(const char *t, int d, const char *p) { S s; if (!at(d, p, s)) return -1; return sim_symlink(t, s.c_str()); }
int sim_linkat(int d1, const char *p1, int d2, const char *p2, int) { S a, b; if (!at(d1, p1, a) || !at(d2, p2, b)) return -1; return sim_link(a.c_str(), b.c_str()); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { S s; if (!at(d, p, s)) return -1; return sim_readlink(s.c_str(), b, n); }
int sim_faccessat(int d, const char *p, int m, int) { S s; if (!at(d, p, s)) return -1; return sim_access(s.c_str(), m); }
int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
int sim_eaccess(const char *p, int m) { return sim_access(p, m); }
int sim_fchmodat(int d, const char *p, mode_t m, int) { S s; if (!at(d, p, s)) return -1; return sim_chmod(s.c_str(), m); }
int sim_fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { S s; if (!at(d, p, s)) return -1; return (fl & AT_SYMLINK_NOFOLLOW) ? sim_lchown(s.c_str(), u, g) : sim_chown(s.c_str(), u, g); }
int sim_dup(int fd) { enter("dup"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind != FD_FILE && e->kind != FD_RANDOM) { set_errno(EMFILE); return -1; } FdEnt c = *e; fs_dup(c.ref); return fd_alloc(cur_proc(), c.kind, c.ref, c.flags); }
static int fcntl_impl(int fd, int cmd, long arg) {
	enter("fcntl"); FdEnt *e = fd_get(fd); if (!e) return -1;
	switch (cmd) {
	case F_DUPFD: case F_DUPFD_CLOEXEC: return sim_dup(fd);
	case F_GETFD: return (e->flags & O_CLOEXEC) ? FD_CLOEXEC : 0;
	case F_SETFD: if (arg & FD_CLOEXEC) e->flags |= O_CLOEXEC; else e->flags &= ~O_CLOEXEC; return 0;
	case F_GETFL: return e->flags & ~O_CLOEXEC;
	case F_SETFL: return 0;
	default: set_errno(EINVAL); return -1;
	}
}
int sim_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
// one system call for all parts: stops after the first part that is not complete
ssize_t sim_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_fadvise64(int, off_t, off_t, int) { return 0; }
ssize_t sim_sendfile(int, int, off_t *, size_t) { set_errno(EINVAL); return -1; }
ssize_t sim_sendfile64(int, int, off_t *, size_t) { set_errno(EINVAL); return -1; }
ssize_t sim_copy_file_range(int, off_t *, int, off_t *, size_t, unsigned) { set_errno(EXDEV); return -1; }

char *sim_strndup(const char *s, size_t m) { size_t n = 0; while (n < m) { check_access(s + n, 1, false, "strndup"); if (!s[n]) break; n++; } char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { set_errno(ENOMEM); return nullptr; } return sim_realloc(p, a * b); }
int sim_vasprintf(char **out, const char *f, va_list ap) { char tmp[8192]; int r = vsnprintf(tmp, sizeof tmp, f, ap); if (r < 0 || (size_t)r >= sizeof tmp) return -1; char *p = (char *)sim_malloc((size_t)r + 1); if (!p) return -1; memcpy(p, tmp, (size_t)r + 1); *out = p; return r; }
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(out, f, ap); va_end(ap); return r; }
void *sim_mempcpy(void *d, const void *s, size_t n) { check_access(s, n, false, "mempcpy"); check_access(d, n, true, "mempcpy"); return (char *)memmove(d, s, n) + n; }
void *sim_memrchr(const void *a, int c, size_t n) { check_access(a, n, false, "memrchr"); return (void *)memrchr(a, c, n); }
void *sim_memmem(const void *a, size_t n, const void *b, size_t m) { check_access(a, n, false, "memmem"); check_access(b, m, false, "memmem"); return (void *)memmem(a, n, b, m); }
}

// Code of the standard library that is not instrumented may release what the code under test allocated.
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p && in_heap(p)) hfree(p); else free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
