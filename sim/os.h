// Shared state of the simulated operating system.
#pragma once
#include "core.h"
#include <memory>
#include <sys/types.h>
namespace sim {
enum FdKind { FD_NONE, FD_SHM, FD_FILE, FD_DIR, FD_RANDOM };
struct ShmObj { u64 id; int memfd; size_t size; bool linked; };
struct FdEnt { FdKind kind = FD_NONE; u64 ref = 0; /* shm obj id, or open file description */ int flags = 0; };
std::vector<FdEnt> &fds(int proc);
int fd_alloc(int proc, FdKind k, u64 ref, int flags);
FdEnt *fd_get(int fd);          // in the current process; sets EBADF
u64 fd_count(int proc);
bool shm_close(u64 ref);
// statistics used by leak oracles
u64 live_mappings(int proc);
u64 shm_linked();
// user and file creation mask of a process
mode_t proc_umask(int proc);
void set_proc_user(int proc, unsigned uid, mode_t mask);
bool shm_chmod(u64 ref, mode_t m);
// entry of every simulated call: preemption point plus optional stall
void enter(const char *name);
// file-system part
int fs_close_ofd(u64 ofd);
ssize_t fs_read(u64 ofd, void *buf, size_t n);
ssize_t fs_write(u64 ofd, const void *buf, size_t n);
int fs_ftruncate(u64 ofd, i64 len);
bool clock_fault_seen();
extern u64 g_clock_fail_count, g_clock_tick;
u64 phys_key(const void *p, bool pshared);
}
