#include <set>
// Simulated threads API, clock, shared memory.
#include "os.h"
#include <pthread.h>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;
namespace sim { void access(const void *p, size_t n, bool w); }

namespace sim {
static std::map<int, std::vector<FdEnt>> g_fds;
std::vector<FdEnt> &fds(int p) { return g_fds[p]; }
int fd_alloc(int proc, FdKind k, u64 ref, int flags) {
	auto &v = g_fds[proc];
	if (v.size() < 3) v.resize(3);
	for (size_t i = g_plan && g_plan->get("fd0", 0) ? 0 : 3; i < v.size(); i++) if (v[i].kind == FD_NONE) { v[i].kind = k; v[i].ref = ref; v[i].flags = flags; return (int)i; }
	FdEnt e; e.kind = k; e.ref = ref; e.flags = flags;
	v.push_back(e);
	return (int)v.size() - 1;
}
FdEnt *fd_get(int fd) {
	auto &v = g_fds[cur_proc()];
	if (fd < 0 || fd >= (int)v.size() || v[fd].kind == FD_NONE) { set_errno(EBADF); return nullptr; }
	return &v[fd];
}
u64 fd_count(int proc) { u64 n = 0; for (auto &e : g_fds[proc]) if (e.kind != FD_NONE) n++; return n; }

void enter(const char *name) {
	(void)name;
	point(1);
	u64 v;
	if (g_faults.on && fault("stall", 6, &v)) {
		static const u64 d[] = {300, 2500, 7000, 30000, 120000, 700000};
		sleep_us(d[v - 1]);
	}
	if (g_faults.on && fault("clock-jump", 6, &v)) {
		static const i64 d[] = {-3600000000LL, -700000, -20000, 20000, 700000, 3600000000LL};
		rt_jump(d[v - 1]);
	}
}

// ------------------------------------------------------------------ shared memory objects
struct Shm { u64 id; int memfd; size_t size; bool linked; int opens; int maps; mode_t mode; unsigned uid; };
static std::map<u64, Shm> g_shm;
static std::map<std::string, u64> g_shmnames;
static u64 g_nextshm;
static std::vector<int> g_memfds;    // pool
static std::map<int, uintptr_t> g_nextmap;
u64 g_clock_fail_count, g_clock_tick = 1;   // tick: the realtime clock advances in steps of this many microseconds
static bool g_dead_robust;

static int take_memfd() {
	if (!g_memfds.empty()) { int f = g_memfds.back(); g_memfds.pop_back(); return f; }
	int f = memfd_create("simshm", 0);
	if (f < 0) { perror("memfd_create"); exit(3); }
	return f;
}
static void maybe_drop(u64 id) {
	auto it = g_shm.find(id);
	if (it == g_shm.end()) return;
	if (!it->second.linked && it->second.opens == 0 && it->second.maps == 0) {
		if (ftruncate(it->second.memfd, 0)) {}
		g_memfds.push_back(it->second.memfd);
		g_shm.erase(it);
	}
}
bool shm_close(u64 id) { auto it = g_shm.find(id); if (it != g_shm.end()) { it->second.opens--; maybe_drop(id); } return true; }
size_t shm_size(u64 id) { auto it = g_shm.find(id); return it == g_shm.end() ? 0 : it->second.size; }
u64 live_mappings(int proc) { u64 n = 0; for (auto &r : g_regions) if (r.proc == proc) n++; return n; }
u64 shm_linked() { return g_shmnames.size(); }

static void drop_region(size_t i) {
	Region r = g_regions[i];
	munmap((void *)r.base, r.pages);
	g_regions.erase(g_regions.begin() + i);
	if (r.objid) { g_shm[r.objid].maps--; maybe_drop(r.objid); }
}

// ------------------------------------------------------------------ waiters on condition variables
struct CondW { u64 key; int fiber; bool sig; };
static std::vector<CondW> g_cw;
struct Held { u64 key; int fiber, proc; void *addr; bool robust; };
static std::map<u64, std::map<int, std::pair<u64, const void *>>> g_keys; // key id -> fiber -> value
static u64 g_nextkey;
static std::map<int, mode_t> g_umask; static std::map<int, unsigned> g_uid;

static std::set<void *> g_anon;
static void sync_reset() { g_anon.clear();
	while (!g_regions.empty()) { Region r = g_regions.back(); munmap((void *)r.base, r.pages); g_regions.pop_back(); }
	for (auto &s : g_shm) { if (ftruncate(s.second.memfd, 0)) {} g_memfds.push_back(s.second.memfd); }
	g_shm.clear(); g_shmnames.clear(); g_nextshm = 1; g_nextmap.clear();
	g_fds.clear(); g_cw.clear(); g_keys.clear(); g_nextkey = 1; g_clock_fail_count = 0; g_clock_tick = 1; g_dead_robust = false; g_umask.clear(); g_uid.clear();
}
static void sync_death(int p) {
	for (size_t i = g_regions.size(); i-- > 0;) if (g_regions[i].proc == p) drop_region(i);
	auto &v = g_fds[p];
	for (auto &e : v) {
		if (e.kind == FD_SHM) shm_close(e.ref);
		else if (e.kind == FD_FILE || e.kind == FD_DIR || e.kind == FD_RANDOM) fs_close_ofd(e.ref);
		e.kind = FD_NONE;
	}
	g_cw.erase(std::remove_if(g_cw.begin(), g_cw.end(), [](const CondW &w) { return !fiber_alive(w.fiber); }), g_cw.end());
}
static struct Init { Init() { add_reset(sync_reset); add_proc_death(sync_death); } } init_;

mode_t proc_umask(int p) { auto it = g_umask.find(p); return it == g_umask.end() ? 022 : it->second; }
void set_proc_user(int p, unsigned uid, mode_t mask) { g_uid[p] = uid; g_umask[p] = mask; }
bool shm_chmod(u64 ref, mode_t m) { auto it = g_shm.find(ref); if (it == g_shm.end()) return false; auto u = g_uid.find(cur_proc()); if (it->second.uid != (u == g_uid.end() ? 1000 : u->second)) return false; it->second.mode = m & 0777; return true; }
u64 phys_key(const void *p, bool pshared) {
	if (pshared) if (const Region *r = find_region(p)) return (1ULL << 63) | (r->objid << 40) | (r->objoff + ((uintptr_t)p - r->base));
	return (uintptr_t)p;
}
static bool obj_ok(const void *p, size_t n, const char *what) {
	if (!addressable(p, n)) { check_access(p, n, true, what); return false; }
	return true;
}
}

// ------------------------------------------------------------------ pthread objects kept in their own memory
namespace {
const uint32_t MM = 0x58544d53, MD = 0x44584d58, CM = 0x444e4353, CD = 0x44444343;
struct M { uint32_t magic, flags, locked, owner, count, oproc; };     // 24 <= 40 bytes
struct C { uint32_t magic, flags; };
enum { PSH = 1, T_REC = 2, T_ERR = 4, ROBUST = 8, CLK_MONO = 16 };
M getm(const void *p) { M m; memcpy(&m, p, sizeof m); return m; }
void putm(void *p, const M &m) { memcpy(p, &m, sizeof m); }
uint32_t me() { return (uint32_t)(cur() + 2); }
static_assert(sizeof(M) <= sizeof(pthread_mutex_t), "");

int mlock(void *p, bool try_, bool timed, u64 dl, int clk) {
	for (;;) {
		if (!obj_ok(p, sizeof(pthread_mutex_t), "mutex")) return EINVAL;
		M m = getm(p);
		if (m.magic == MD) { violate("destroyed-mutex", "lock of a destroyed mutex"); return EINVAL; }
		if (m.magic != MM && m.magic != 0) {
			// Not something pthread_mutex_init() produced: memory that was never initialised.
			violate("uninitialised-mutex", "lock of memory that is not an initialised mutex"); return EINVAL;
		}
		if (!m.locked) {
			m.locked = 1; m.owner = me(); m.count = 1; m.oproc = (uint32_t)cur_proc();
			putm(p, m);
			return 0;
		}
		if (m.owner == me() && (m.flags & T_REC)) { m.count++; putm(p, m); return 0; }
		if (m.owner == me() && (m.flags & T_ERR)) return try_ ? EBUSY : EDEADLK;
		if ((m.flags & ROBUST) && !proc_alive((int)m.oproc)) { m.owner = me(); m.count = 1; m.oproc = (uint32_t)cur_proc(); putm(p, m); return EOWNERDEAD; }
		if (try_) return EBUSY;
		if (!in_fiber()) { fprintf(stderr, "sim: mutex blocks in kernel context\n"); exit(3); }
		if (timed && (clk == 1 ? real_now_us() : now_us()) >= dl) return ETIMEDOUT;
		probe("mutex-contended");
		block_on(phys_key(p, m.flags & PSH), timed, dl, clk);
	}
}
int munlock(void *p) {
	if (!obj_ok(p, sizeof(pthread_mutex_t), "mutex")) return EINVAL;
	M m = getm(p);
	if (m.magic == MD) { violate("destroyed-mutex", "unlock of a destroyed mutex"); return EINVAL; }
	if (m.magic != MM && m.magic != 0) { violate("uninitialised-mutex", "unlock of memory that is not an initialised mutex"); return EINVAL; }
	if ((m.flags & (T_REC | T_ERR)) && m.owner != me()) return EPERM;
	if ((m.flags & T_REC) && m.count > 1) { m.count--; putm(p, m); return 0; }
	m.locked = 0; m.owner = 0; m.count = 0;
	putm(p, m);
	wake_key(phys_key(p, m.flags & PSH));
	return 0;
}
u64 ts_us(const struct timespec *t) { if (t->tv_sec < 0) return 0; return (u64)t->tv_sec * 1000000ULL + ((u64)t->tv_nsec + 999) / 1000; }
}

extern "C" {
int sim_pthread_mutexattr_init(void *a) { uint32_t z = 0; memcpy(a, &z, 4); return 0; }
int sim_pthread_mutexattr_destroy(void *) { return 0; }
static int attr_bit(void *a, uint32_t set, uint32_t clr) { uint32_t z; memcpy(&z, a, 4); z = (z & ~clr) | set; memcpy(a, &z, 4); return 0; }
int sim_pthread_mutexattr_setpshared(void *a, int v) { return attr_bit(a, v == PTHREAD_PROCESS_SHARED ? PSH : 0, PSH); }
int sim_pthread_mutexattr_settype(void *a, int v) { return attr_bit(a, v == PTHREAD_MUTEX_RECURSIVE ? T_REC : v == PTHREAD_MUTEX_ERRORCHECK ? T_ERR : 0, T_REC | T_ERR); }
int sim_pthread_mutexattr_setrobust(void *a, int v) { return attr_bit(a, v == PTHREAD_MUTEX_ROBUST ? ROBUST : 0, ROBUST); }
int sim_pthread_mutexattr_setprotocol(void *, int) { return 0; }
int sim_pthread_mutex_init(void *p, const void *a) {
	enter("mutex_init");
	if (!obj_ok(p, sizeof(pthread_mutex_t), "mutex")) return EINVAL;
	M m; memset(&m, 0, sizeof m); m.magic = MM; if (a) memcpy(&m.flags, a, 4);
	memset(p, 0, sizeof(pthread_mutex_t)); putm(p, m); return 0;
}
int sim_pthread_mutex_destroy(void *p) { enter("mutex_destroy"); if (!obj_ok(p, sizeof(pthread_mutex_t), "mutex")) return EINVAL; M m = getm(p); m.magic = MD; putm(p, m); return 0; }
int sim_pthread_mutex_lock(void *p) { enter("mutex_lock"); int r = mlock(p, false, false, 0, 0); point(1); return r; }
int sim_pthread_mutex_trylock(void *p) { enter("mutex_trylock"); return mlock(p, true, false, 0, 0); }
int sim_pthread_mutex_timedlock(void *p, const struct timespec *t) { enter("mutex_timedlock"); return mlock(p, false, true, ts_us(t), 1); }
int sim_pthread_mutex_clocklock(void *p, int clk, const struct timespec *t) { enter("mutex_clocklock"); return mlock(p, false, true, ts_us(t), clk == CLOCK_MONOTONIC ? 0 : 1); }
int sim_pthread_mutex_consistent(void *) { return 0; }
int sim_pthread_mutex_unlock(void *p) { enter("mutex_unlock"); int r = munlock(p); point(1); return r; }

int sim_pthread_condattr_init(void *a) { uint32_t z = 0; memcpy(a, &z, 4); return 0; }
int sim_pthread_condattr_destroy(void *) { return 0; }
int sim_pthread_condattr_setpshared(void *a, int v) { return attr_bit(a, v == PTHREAD_PROCESS_SHARED ? PSH : 0, PSH); }
int sim_pthread_condattr_setclock(void *a, int v) { return attr_bit(a, v == CLOCK_MONOTONIC ? CLK_MONO : 0, CLK_MONO); }
int sim_pthread_cond_init(void *p, const void *a) {
	enter("cond_init");
	if (!obj_ok(p, sizeof(pthread_cond_t), "cond")) return EINVAL;
	C c; c.magic = CM; c.flags = 0; if (a) memcpy(&c.flags, a, 4);
	memset(p, 0, sizeof(pthread_cond_t)); memcpy(p, &c, sizeof c); return 0;
}
int sim_pthread_cond_destroy(void *p) { enter("cond_destroy"); if (!obj_ok(p, sizeof(pthread_cond_t), "cond")) return EINVAL; C c; memcpy(&c, p, sizeof c); c.magic = CD; memcpy(p, &c, sizeof c); return 0; }

static bool getc_(void *p, C &c) {
	if (!obj_ok(p, sizeof(pthread_cond_t), "cond")) return false;
	memcpy(&c, p, sizeof c);
	if (c.magic == CD) { violate("destroyed-cond", "use of a destroyed condition variable"); return false; }
	if (c.magic != CM && c.magic != 0) { violate("uninitialised-cond", "use of memory that is not an initialised condition variable"); return false; }
	return true;
}
static int cwait(void *p, void *mu, bool timed, const struct timespec *ts, int forceclk) {
	enter("cond_wait");
	C c; if (!getc_(p, c)) return EINVAL;
	int clk = forceclk >= 0 ? forceclk : (c.flags & CLK_MONO ? 0 : 1);
	u64 dl = 0;
	if (timed) {
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
		dl = ts_us(ts);
	}
	u64 key = phys_key(p, c.flags & PSH);
	M m = getm(mu);
	if (!m.locked || m.owner != me()) violate("cond-wait-unlocked", "condition wait without holding the mutex");
	u64 slotkey = 0xE000000000000000ULL + (u64)cur();
	g_cw.push_back({key, cur(), false});
	munlock(mu);
	int r = 0;
	bool posix_consume = g_plan && g_plan->get("cond_consume", 0);
	if (!(timed && (clk == 1 ? real_now_us() : now_us()) >= dl)) {
		if (g_faults.on && fault("spurious-wakeup")) { point(1); }
		else {
			probe("cond-wait");
			block_on(slotkey, timed, dl, clk);
			if (timed && timed_out()) { r = ETIMEDOUT; probe("cond-timeout"); }
		}
	} else r = ETIMEDOUT;
	// whoever selected us removed nothing: do it here
	bool sig = false;
	for (size_t i = 0; i < g_cw.size(); i++) if (g_cw[i].fiber == cur()) { sig = g_cw[i].sig; g_cw.erase(g_cw.begin() + i); break; }
	if (sig && timed && (r == ETIMEDOUT || (clk == 1 ? real_now_us() : now_us()) >= dl)) {
		r = 0;
		if (posix_consume && choose("timeout-consumes-signal", 2)) { fired("timeout-consumes-signal"); r = ETIMEDOUT; }
	}
	int l = mlock(mu, false, false, 0, 0);
	point(1);
	if (l && l != EOWNERDEAD) return l;
	return r ? r : l;
}
int sim_pthread_cond_wait(void *p, void *m) { return cwait(p, m, false, nullptr, -1); }
int sim_pthread_cond_timedwait(void *p, void *m, const struct timespec *t) { return cwait(p, m, true, t, -1); }
int sim_pthread_cond_clockwait(void *p, void *m, int clk, const struct timespec *t) { return cwait(p, m, true, t, clk == CLOCK_MONOTONIC ? 0 : 1); }
int sim_pthread_cond_signal(void *p) {
	enter("cond_signal");
	C c; if (!getc_(p, c)) return EINVAL;
	u64 key = phys_key(p, c.flags & PSH);
	std::vector<size_t> w;
	for (size_t i = 0; i < g_cw.size(); i++) if (g_cw[i].key == key && !g_cw[i].sig) w.push_back(i);
	if (w.empty()) return 0;
	size_t i = w[choose("signal-waiter", w.size())];
	g_cw[i].sig = true;
	wake_fiber(g_cw[i].fiber);
	point(1);
	return 0;
}
int sim_pthread_cond_broadcast(void *p) {
	enter("cond_broadcast");
	C c; if (!getc_(p, c)) return EINVAL;
	u64 key = phys_key(p, c.flags & PSH);
	for (auto &w : g_cw) if (w.key == key && !w.sig) { w.sig = true; wake_fiber(w.fiber); }
	point(1);
	return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)fiber_self(cur()); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_once(int *o, void (*f)(void)) { enter("once"); while (*o == 1) sleep_us(5); if (*o == 2) return 0; *o = 1; f(); *o = 2; return 0; }

int sim_pthread_key_create(pthread_key_t *k, void (*)(void *)) { enter("key_create"); if (fault("key-create-fail")) return EAGAIN; *k = (pthread_key_t)g_nextkey++; g_keys[*k]; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { enter("key_delete"); return g_keys.erase(k) ? 0 : EINVAL; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { enter("setspecific"); auto it = g_keys.find(k); if (it == g_keys.end()) return EINVAL; if (v && fault("setspecific-fail")) return ENOMEM; it->second[cur()] = {0, v}; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { point(1); auto it = g_keys.find(k); if (it == g_keys.end()) return nullptr; auto j = it->second.find(cur()); return j == it->second.end() ? nullptr : (void *)j->second.second; }

// ------------------------------------------------------------------ clock

static u64 shown_now() { u64 u = real_now_us(); return u - u % g_clock_tick; }
static int clock_bad() { if (fault("clock-fail")) { g_clock_fail_count++; set_errno(EINVAL); return 1; } return 0; }
int sim_clock_gettime(clockid_t id, struct timespec *t) {
	enter("clock_gettime");
	if (clock_bad()) return -1;
	u64 u = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? shown_now() : now_us();
	t->tv_sec = (time_t)(u / 1000000); t->tv_nsec = (long)(u % 1000000) * 1000;
	return 0;
}
int sim_gettimeofday(struct timeval *t, void *) { enter("gettimeofday"); if (clock_bad()) return -1; u64 u = shown_now(); t->tv_sec = (time_t)(u / 1000000); t->tv_usec = (long)(u % 1000000); return 0; }
int sim_timespec_get(struct timespec *t, int b) { return sim_clock_gettime(CLOCK_REALTIME, t) == 0 ? b : 0; }
time_t sim_time(time_t *p) { enter("time"); time_t t = (time_t)(real_now_us() / 1000000); if (p) *p = t; return t; }
static int eintr_sleep(u64 us) { if (fault("eintr-sleep")) { sleep_us(us / 2); set_errno(EINTR); return -1; } sleep_us(us ? us : 1); return 0; }
int sim_usleep(useconds_t us) { enter("usleep"); probe("usleep"); return eintr_sleep(us); }
int sim_nanosleep(const struct timespec *t, struct timespec *rem) { enter("nanosleep"); u64 us = ts_us(t); int r = eintr_sleep(us); if (r && rem) { rem->tv_sec = (time_t)(us / 2 / 1000000); rem->tv_nsec = (long)(us / 2 % 1000000) * 1000; } return r; }
int sim_clock_nanosleep(clockid_t id, int fl, const struct timespec *t, struct timespec *) { enter("clock_nanosleep"); u64 us = ts_us(t); if (fl & TIMER_ABSTIME) { u64 n = id == CLOCK_REALTIME ? real_now_us() : now_us(); us = us > n ? us - n : 0; } sleep_us(us ? us : 1); return 0; }
unsigned sim_sleep(unsigned s) { enter("sleep"); sleep_us((u64)s * 1000000); return 0; }
int sim_sched_yield(void) { enter("sched_yield"); if (in_fiber()) sleep_us(1); return 0; }
int sim_pthread_yield(void) { return sim_sched_yield(); }
int sim_poll(void *, unsigned long, int ms) { enter("poll"); sleep_us((u64)(ms > 0 ? ms : 0) * 1000 + 1); return 0; }
int sim_select(int, void *, void *, void *, struct timeval *t) { enter("select"); sleep_us(t ? (u64)t->tv_sec * 1000000 + (u64)t->tv_usec + 1 : 1); return 0; }

// ------------------------------------------------------------------ shared memory
static unsigned uid_of(int p) { auto it = g_uid.find(p); return it == g_uid.end() ? 1000 : it->second; }
int sim_shm_open(const char *name, int flags, mode_t mode) {
	enter("shm_open");
	std::string n = name;
	if (n.empty() || n[0] != '/' || n.find('/', 1) != std::string::npos || n.size() > 255) { set_errno(EINVAL); return -1; }
	u64 v;
	if (fault("shm-open-fail", 3, &v)) { static const int e[] = {EMFILE, ENFILE, EACCES}; set_errno(e[v - 1]); return -1; }
	auto it = g_shmnames.find(n);
	if (it != g_shmnames.end()) {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { set_errno(EEXIST); return -1; }
		if (fault("shm-access-fail")) { set_errno(EACCES); return -1; }
		Shm &s = g_shm[it->second];
		{ mode_t need = (flags & O_ACCMODE) == O_RDONLY ? 4 : 6; if (((s.uid == uid_of(cur_proc()) ? s.mode >> 6 : s.mode) & need) != need) { set_errno(EACCES); return -1; } }   // every user has a group of its own
		s.opens++; if (s.uid != uid_of(cur_proc())) probe("other-user");
		if (flags & O_TRUNC) { s.size = 0; if (ftruncate(s.memfd, 0)) {} }
		probe("shm-open-existing");
		return fd_alloc(cur_proc(), FD_SHM, s.id, flags);
	}
	if (!(flags & O_CREAT)) { set_errno(ENOENT); return -1; }
	Shm s; s.id = g_nextshm++; s.memfd = take_memfd(); s.size = 0; s.linked = true; s.opens = 1; s.maps = 0; s.mode = mode & ~proc_umask(cur_proc()) & 0777; s.uid = uid_of(cur_proc());
	g_shm[s.id] = s; g_shmnames[n] = s.id;
	probe("shm-create");
	ev("shm_open creates %s", n.size() > 60 ? (n.substr(0, 57) + "...").c_str() : n.c_str());
	return fd_alloc(cur_proc(), FD_SHM, s.id, flags);
}
int sim_shm_unlink(const char *name) {
	enter("shm_unlink");
	auto it = g_shmnames.find(name);
	if (it == g_shmnames.end()) { set_errno(ENOENT); return -1; }
	u64 id = it->second; g_shmnames.erase(it); g_shm[id].linked = false; maybe_drop(id);
	ev("shm_unlink");
	return 0;
}
int sim_ftruncate(int fd, off_t len) {
	enter("ftruncate");
	FdEnt *e = fd_get(fd); if (!e) return -1;
	if (fault("eintr")) { set_errno(EINTR); return -1; }
	if (e->kind == FD_FILE) return fs_ftruncate(e->ref, len);
	if (e->kind != FD_SHM) { set_errno(EINVAL); return -1; }
	if (fault("ftruncate-fail")) { set_errno(ENOSPC); return -1; }
	if (len < 0) { set_errno(EINVAL); return -1; }
	Shm &s = g_shm[e->ref];
	if (ftruncate(s.memfd, len)) { set_errno(errno); return -1; }
	s.size = (size_t)len;
	return 0;
}
int sim_ftruncate64(int fd, off_t len) { return sim_ftruncate(fd, len); }
int sim_posix_fallocate(int fd, off_t o, off_t len) { (void)o; enter("fallocate"); FdEnt *e = fd_get(fd); if (!e) return EBADF; if (e->kind == FD_SHM) { Shm &s = g_shm[e->ref]; if (fault("ftruncate-fail")) return ENOSPC; if ((size_t)(o + len) > s.size) { s.size = (size_t)(o + len); if (ftruncate(s.memfd, o + len)) {} } } return 0; }
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
	enter("mmap");
	if (fault("mmap-fail")) { set_errno(ENOMEM); return MAP_FAILED; }
	if (len == 0 || (off & 4095)) { set_errno(EINVAL); return MAP_FAILED; }
	if (flags & MAP_ANONYMOUS) { void *p = halloc(len, 1); if (!p) { set_errno(ENOMEM); return MAP_FAILED; } memset(p, 0, len); g_anon.insert(p); return p; }
	if (len > (1ULL << 39)) { set_errno(ENOMEM); return MAP_FAILED; }
	FdEnt *e = fd_get(fd); if (!e) return MAP_FAILED;
	if (e->kind != FD_SHM) { set_errno(ENODEV); return MAP_FAILED; }
	Shm &s = g_shm[e->ref];
	int proc = cur_proc();
	uintptr_t &nx = g_nextmap[proc];
	if (!nx) nx = 0x200000000000ULL + (uintptr_t)proc * 0x10000000000ULL + 0x10000;
	size_t pages = (len + 4095) & ~(size_t)4095;
	uintptr_t base = nx; nx += pages + 8192;
	void *r = mmap((void *)base, pages, prot, ((flags & MAP_PRIVATE) ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED_NOREPLACE, s.memfd, off);
	if (r != (void *)base) { fprintf(stderr, "sim: mmap failed\n"); exit(3); }
	s.maps++;
	Region g; g.base = base; g.len = len; g.pages = pages; g.proc = proc; g.objid = s.id; g.objoff = (size_t)off;
	g_regions.push_back(g);
	return r;
}
void *sim_mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return sim_mmap(a, l, p, f, fd, o); }
int sim_munmap(void *p, size_t len) {
	enter("munmap");
	if (in_heap(p)) { if (!g_anon.erase(p)) violate("bad-unmap", "memory that was not mapped is unmapped"); hfree(p); return 0; }
	for (size_t i = 0; i < g_regions.size(); i++) if (g_regions[i].base == (uintptr_t)p && g_regions[i].proc == cur_proc()) {
		size_t pages = (len + 4095) & ~(size_t)4095;
		if (pages == 0) { set_errno(EINVAL); return -1; }
		if (pages < g_regions[i].pages) {
			// partial unmap: the tail stays mapped
			Region r = g_regions[i];
			munmap(p, pages);
			g_regions[i].base += pages; g_regions[i].pages -= pages; g_regions[i].len = r.len > pages ? r.len - pages : 0; g_regions[i].objoff += pages;
			return 0;
		}
		if (pages > g_regions[i].pages) violate("bad-unmap", "%zu bytes beyond the mapped memory are unmapped", (size_t)(pages - g_regions[i].pages));
		drop_region(i);
		return 0;
	}
	if (((uintptr_t)p & 4095) || !len) { set_errno(EINVAL); return -1; }
	probe("munmap-nothing");
	return 0;
}
mode_t sim_umask(mode_t m) { point(1); mode_t o = proc_umask(cur_proc()); g_umask[cur_proc()] = m & 0777; return o; }
int sim_close(int fd) {
	enter("close");
	FdEnt *e = fd_get(fd); if (!e) { probe("close-bad-fd"); return -1; }
	FdEnt c = *e; e->kind = FD_NONE;
	if (c.kind == FD_SHM) shm_close(c.ref); else fs_close_ofd(c.ref);
	if (fault("eintr-close")) { set_errno(EINTR); return -1; }
	return 0;
}
}
