// In-memory file system, random device, environment and user database of the simulated machine.
#include "fs.h"
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <dirent.h>
#include <pwd.h>
#include <grp.h>
#include <limits.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/time.h>
#include <utime.h>
#include <algorithm>
using namespace sim;
namespace sim { void access(const void *p, size_t n, bool w); size_t shm_size(u64 id); void fs_close_dir(u64); extern int g_alloc_tag; }
typedef std::string S;

namespace {
enum T { FIL, DIR_, LNK, RND, NUL };
struct Pend { u64 off; S data; bool trunc; };
struct Ino {
	u64 id = 0, no = 0; T t = FIL; unsigned mode = 0; unsigned uid = 1000, gid = 1000; int nlink = 0; int dev = 1;
	Blob data; S target; std::vector<std::pair<S, u64>> ent; u64 parent = 0;
	u64 mtime = 0, atime = 0, ctime = 0; int opens = 0;
	Blob durable; std::vector<Pend> pend; bool entry_durable = false;
	std::map<u64, int> locks;   // open file -> LOCK_SH / LOCK_EX
};
struct Ofd { u64 ino; u64 pos; int flags; int refs; };
std::map<u64, Ino> I;
std::map<u64, Ofd> O;
u64 rnd_strong; bool based; u64 nextino, nextofd;
std::map<int, u64> caps;
S cwd;
std::map<S, S> env;
bool pw_present, pw_hasdir; S pw_dir_s; u64 pw_extra;
struct DirS { u64 magic; int fd; u64 ino; u64 ofd; std::vector<std::pair<S, u64>> *left; struct dirent de; };
std::vector<std::vector<std::pair<S, u64>> *> dirlists;

std::map<int, u64> lastino;
u64 ino_no(Ino &n);
Ino &mk(T t, unsigned mode) { u64 id = nextino++; Ino &n = I[id]; n.id = id; n.t = t; n.mode = mode; n.mtime = n.atime = n.ctime = real_now_us(); return n; }
// each device has numbers of its own, so files of different devices may have equal ones
u64 ino_no(Ino &n) { if (!n.no) n.no = 100 + lastino[n.dev]++; return n.no; }
u64 *find_ent(Ino &d, const S &n) { for (auto &e : d.ent) if (e.first == n) return &e.second; return nullptr; }
void drop_ent(Ino &d, const S &n) { for (size_t i = 0; i < d.ent.size(); i++) if (d.ent[i].first == n) { d.ent.erase(d.ent.begin() + (long)i); return; } }
void put_ent(Ino &d, const S &n, u64 id) { d.ent.push_back({n, id}); I[id].nlink++; if (I[id].t == DIR_) I[id].parent = d.id; d.mtime = d.ctime = real_now_us(); }
void maybe_gone(u64 id) { auto it = I.find(id); if (it != I.end() && it->second.nlink <= 0 && it->second.opens <= 0) I.erase(it); }
u64 used(int dev) { u64 n = 0; for (auto &i : I) if (i.second.dev == dev && i.second.t == FIL) { for (auto &g : i.second.data.pg) n += g.second.size(); } return n; }

// Resolves a path.  parent/leaf name the last component (leaf empty for the root); returns the inode or 0 (errno in err).
u64 walk(const S &path0, bool follow, u64 &parent, S &leaf, int &err, int depth = 0, u64 start = 0, bool *trail = nullptr) {
	parent = 0; leaf.clear(); err = 0;
	if (path0.empty()) { err = ENOENT; return 0; }
	if (path0.size() >= PATH_MAX) { err = ENAMETOOLONG; return 0; }
	if (depth > 40) { err = ELOOP; return 0; }
	u64 curd = path0[0] == '/' ? 1 : start;
	if (!curd) { S l; u64 p; int e; curd = walk(cwd, true, p, l, e, depth + 1, 1); if (!curd) { err = ENOENT; return 0; } }
	size_t i = 0;
	bool tr = path0[path0.size() - 1] == '/';
	if (trail) *trail = tr;
	while (i < path0.size()) {
		while (i < path0.size() && path0[i] == '/') i++;
		if (i >= path0.size()) break;
		size_t j = i; while (j < path0.size() && path0[j] != '/') j++;
		S c = path0.substr(i, j - i);
		size_t k = j; while (k < path0.size() && path0[k] == '/') k++;
		bool last = k >= path0.size();
		i = j;
		Ino &d = I[curd];
		if (d.t != DIR_) { err = ENOTDIR; return 0; }
		if (!g_fs_root && !(d.mode & (d.uid == 1000 ? 0100 : 0001))) { err = EACCES; return 0; }
		if (c.size() > NAME_MAX) { err = ENAMETOOLONG; return 0; }
		if (c == ".") { if (last) { parent = 0; leaf = "."; } continue; }
		if (c == "..") { curd = d.parent ? d.parent : 1; if (last) { parent = 0; leaf = ".."; } continue; }
		u64 *e = find_ent(d, c);
		if (last) { parent = curd; leaf = c; }
		if (!e) { err = ENOENT; return 0; }
		u64 nx = *e;
		if (I[nx].t == LNK && (!last || follow || tr)) {
			u64 p2; S l2; u64 r = walk(I[nx].target, true, p2, l2, err, depth + 1, curd);
			if (!r) { if (last) { parent = p2; leaf = l2; } else { parent = 0; leaf.clear(); } return 0; }
			nx = r;
			if (last) { parent = p2; leaf = l2; }
		}
		curd = nx;
	}
	if (tr && I[curd].t != DIR_) { err = ENOTDIR; return 0; }
	return curd;
}
u64 lookup(const S &p, bool follow, int &err) { u64 a; S l; return walk(p, follow, a, l, err); }
bool canw(Ino &n) { return g_fs_root || (n.mode & (n.uid == 1000 ? 0200u : 0002u)); }
bool canr(Ino &n) { return g_fs_root || (n.mode & (n.uid == 1000 ? 0400u : 0004u)); }
int fail(int e) { set_errno(e); return -1; }
S pstr(const char *p) { size_t n = 0; for (;; n++) { check_access(p + n, 1, false, "path"); if (!p[n]) break; } return S(p, n); }
void logd(const char *what, const S &p) { if (g_fs_logon) g_fs_log.push_back({cur_proc(), S(what) + " " + p}); ev("%s %s", what, p.size() > 80 ? (p.substr(0, 77) + "...").c_str() : p.c_str()); }
void fillstat(Ino &n, struct stat *out) {
	struct stat loc, *st = &loc;
	memset(st, 0, sizeof *st);
	st->st_dev = (dev_t)n.dev; st->st_ino = ino_no(n); st->st_nlink = (nlink_t)n.nlink; st->st_uid = n.uid; st->st_gid = n.gid;
	st->st_mode = n.mode | (n.t == DIR_ ? S_IFDIR : n.t == LNK ? S_IFLNK : n.t == FIL ? S_IFREG : S_IFCHR);
	st->st_size = n.t == FIL ? (off_t)n.data.size() : n.t == LNK ? (off_t)n.target.size() : n.t == DIR_ ? 4096 : 0;
	st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtim.tv_sec = (time_t)(n.mtime / 1000000); st->st_mtim.tv_nsec = (long)(n.mtime % 1000000) * 1000;
	st->st_atim.tv_sec = (time_t)(n.atime / 1000000); st->st_atim.tv_nsec = (long)(n.atime % 1000000) * 1000;
	st->st_ctim.tv_sec = (time_t)(n.ctime / 1000000); st->st_ctim.tv_nsec = (long)(n.ctime % 1000000) * 1000;
	access(out, sizeof loc, true); *out = loc;
}
// syncing a file does not cover its name; syncing a directory covers the names in it
void sync_one(Ino &n) { if (n.t == FIL) { n.durable = n.data; n.pend.clear(); } if (n.t == DIR_) for (auto &e : n.ent) if (I.count(e.second)) I[e.second].entry_durable = true; }
void make_durable(Ino &n) { if (n.t == FIL) { n.durable = n.data; n.pend.clear(); } n.entry_durable = true; }

void fs_reset() {
	for (auto p : dirlists) delete p;
	dirlists.clear();
	based = false; I.clear(); O.clear(); nextino = 1; nextofd = 1; lastino.clear(); caps.clear(); cwd = "/work"; env.clear(); pw_present = true; pw_hasdir = true; pw_dir_s = "/home/sim"; pw_extra = 0;
	Ino &r = mk(DIR_, 0755); r.nlink = 2; r.parent = 1; r.entry_durable = true;
	g_fs_log.clear(); g_fs_logon = false; g_fs_root = false;
	g_rand_reads.clear(); g_rand_script.clear(); g_rand_pos = 0; g_rand_absent = g_arandom_present = g_rand_dead = g_rand_eof = false; g_rand_errno = EIO; g_rand_max = 1 << 30; g_rand_calls = 0; g_rand_key = 0; g_random_missing = false; rnd_strong = 0;
	env["HOME"] = "/home/sim";
}
struct Init { Init() { add_reset(fs_reset); } } init_;

void base_tree() { if (!based) { based = true; fs_mkdirs("/work"); fs_mkdirs("/home/sim"); fs_mkdirs("/tmp"); fs_mkdirs("/mnt"); int e; u64 m = lookup("/mnt", true, e); I[m].dev = 2;
	fs_mkdirs("/dev"); u64 d = lookup("/dev", true, e);
	auto dev = [&](const char *n, T t) { Ino &x = mk(t, 0666); u64 id = x.id; put_ent(I[d], n, id); };
	if (!g_rand_absent) { if (!g_random_missing) { dev("random", RND); rnd_strong = lookup("/dev/random", true, e); } dev("urandom", RND); if (g_arandom_present) dev("arandom", RND); }
	dev("null", NUL); } }
}

namespace sim {
std::vector<std::pair<int, S>> g_fs_log; bool g_fs_logon;
std::vector<RandRead> g_rand_reads; std::vector<uint8_t> g_rand_script; u64 g_rand_pos; int g_rand_errno; bool g_rand_absent, g_arandom_present, g_rand_dead, g_rand_eof; u64 g_rand_max, g_rand_calls, g_rand_key; bool g_random_missing;
uint8_t rand_byte(u64 k) { if (k < g_rand_script.size()) return g_rand_script[k]; return (uint8_t)(mix(0x52414E44ULL + g_rand_key, k / 8) >> ((k % 8) * 8)); }
void fs_mkdirs(const S &p) {
	base_tree();
	u64 c = 1; size_t i = 0;
	while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; if (i >= p.size()) break; size_t j = p.find('/', i); if (j == S::npos) j = p.size();
		S n = p.substr(i, j - i); i = j; u64 *e = find_ent(I[c], n);
		if (e) c = *e; else { Ino &d = mk(DIR_, 0755); u64 id = d.id; d.dev = I[c].dev; d.nlink = 1; d.entry_durable = true; put_ent(I[c], n, id); c = id; } }
}
u64 fs_put(const S &p, const S &data, unsigned mode) {
	base_tree();
	u64 par; S leaf; int e; u64 n = walk(p, true, par, leaf, e);
	if (!n) { if (!par) { fprintf(stderr, "fs_put: no parent for %s\n", p.c_str()); exit(3); } Ino &f = mk(FIL, mode); n = f.id; f.dev = I[par].dev; put_ent(I[par], leaf, n); }
	Ino &f = I[n]; f.data = Blob(data); f.mode = mode; make_durable(f); return n;
}
void fs_put_blob(const S &p, const Blob &b) { base_tree(); int e; u64 n = lookup(p, true, e); if (n && I[n].t == FIL) { I[n].data = b; make_durable(I[n]); } }
bool fs_get(const S &p, S &data) { base_tree(); int e; u64 n = lookup(p, true, e); if (!n || I[n].t != FIL) return false; data = I[n].data.str(); return true; }
bool fs_get(const S &p, Blob &data) { base_tree(); int e; u64 n = lookup(p, true, e); if (!n || I[n].t != FIL) return false; data = I[n].data; return true; }
void fs_sparse(const S &p, u64 size) { base_tree(); int e; u64 n = lookup(p, true, e); if (n && I[n].t == FIL) { I[n].data.resize(size); make_durable(I[n]); } }
bool fs_exists(const S &p) { base_tree(); int e; return lookup(p, false, e) != 0; }
u64 fs_ino(const S &p) { base_tree(); int e; return lookup(p, false, e); }
bool fs_stat(const S &p, struct stat &st, bool follow) { base_tree(); int e; u64 n = lookup(p, follow, e); if (!n) return false; fillstat(I[n], &st); return true; }
void fs_link(const S &p, const S &t) { base_tree(); u64 par; S leaf; int e; u64 n = walk(p, false, par, leaf, e); if (n || !par) return; Ino &l = mk(LNK, 0777); u64 id = l.id; l.target = t; l.dev = I[par].dev; l.entry_durable = true; put_ent(I[par], leaf, id); }
void fs_chmod(const S &p, unsigned m) { base_tree(); int e; u64 n = lookup(p, true, e); if (n) I[n].mode = m; }
void fs_chown(const S &p, unsigned u, int g) { base_tree(); int e; u64 n = lookup(p, true, e); if (n) { I[n].uid = u; if (g >= 0) I[n].gid = (unsigned)g; } }
void fs_set_mtime(const S &p, u64 sec) { base_tree(); int e; u64 n = lookup(p, true, e); if (n) I[n].mtime = sec * 1000000; }
void fs_cap(int dev, u64 b) { base_tree(); caps[dev] = b; }
static void snap(u64 d, const S &pre, std::map<S, S> &out) { for (auto &e : I[d].ent) { Ino &n = I[e.second]; S p = pre + "/" + e.first;
	if (n.t == DIR_) { out[p] = "d"; snap(e.second, p, out); } else if (n.t == LNK) out[p] = "l:" + n.target; else if (n.t == FIL) { char b[16]; snprintf(b, sizeof b, "f:%03o:", n.mode & 0777); out[p] = b + n.data.str(); } else out[p] = "c"; } }
std::map<S, S> fs_snapshot() { base_tree(); std::map<S, S> r; snap(1, "", r); return r; }
bool g_fs_root;
static void attrs(u64 d, const S &pre, std::map<S, S> &out) { for (auto &e : I[d].ent) { Ino &n = I[e.second]; S p = pre + "/" + e.first; char b[96]; snprintf(b, sizeof b, "%o %u %u %llu", n.mode & 07777, (unsigned)n.uid, (unsigned)n.gid, n.t == FIL ? (unsigned long long)n.mtime : 0ULL); out[p] = b; if (n.t == DIR_) attrs(e.second, p, out); } }
std::map<S, S> fs_attrs() { base_tree(); std::map<S, S> r; attrs(1, "", r); return r; }
std::vector<S> fs_list(const S &d) { base_tree(); std::vector<S> r; int e; u64 n = lookup(d, true, e); if (n) for (auto &x : I[n].ent) r.push_back(x.first); return r; }
u64 fs_locks() { u64 n = 0; for (auto &i : I) n += i.second.locks.size(); return n; }
void env_set(const S &k, const S &v) { env[k] = v; }
void env_unset(const S &k) { env.erase(k); }
void pw_set(bool p, bool h, const S &d, u64 extra) { pw_present = p; pw_hasdir = h; pw_dir_s = d; pw_extra = extra; }
void cwd_set(const S &d) { cwd = d; }
size_t region_probe();

void fs_crash() {
	// Unsynced writes survive in any combination; each may be torn at any byte.
	std::vector<u64> gone;
	for (auto &kv : I) {
		Ino &n = kv.second;
		n.opens = 0; n.locks.clear();
		if (n.t != FIL) continue;
		Blob d = n.durable;
		for (auto &p : n.pend) {
			u64 c = choose("crash-keeps-write", 3);   // 0 lost, 1 kept, 2 torn
			if (c == 0) { fired("lost-write"); continue; }
			if (p.trunc) { d.resize(p.off); continue; }
			size_t l = p.data.size();
			if (c == 2 && l > 1) { l = 1 + (size_t)choose("torn-at", l - 1); fired("torn-write"); }
			d.write(p.off, p.data.data(), l);
		}
		n.data = d; n.durable = d; n.pend.clear();
		if (!n.entry_durable) { if (choose("crash-keeps-name", 2) == 0) { gone.push_back(n.id); fired("lost-directory-entry"); } else n.entry_durable = true; }
	}
	for (u64 g : gone) for (auto &kv : I) if (kv.second.t == DIR_) for (size_t i = 0; i < kv.second.ent.size(); i++) if (kv.second.ent[i].second == g) { kv.second.ent.erase(kv.second.ent.begin() + (long)i); I[g].nlink--; break; }
	O.clear();
	for (auto it = I.begin(); it != I.end();) { if (it->second.nlink <= 0) it = I.erase(it); else ++it; }
}

int fs_close_ofd(u64 id) {
	auto it = O.find(id); if (it == O.end()) return 0;
	if (--it->second.refs <= 0) {
		u64 n = it->second.ino; auto &ino = I[n];
		if (ino.locks.erase(id)) wake_key(0xF100000000000000ULL + n);
		ino.opens--; O.erase(it); maybe_gone(n);
	}
	return 0;
}
static ssize_t rnd_read(void *buf, size_t n, bool weak) {
	g_rand_calls++;
	u64 v;
	if (fault("random-eintr")) return fail(EINTR);
	if (g_rand_dead) return fail(g_rand_errno);
	if (fault("random-eio")) return fail(g_rand_errno);
	if (g_rand_eof || fault("random-eof")) return 0;
	if (fault("random-delay", 3, &v)) { static const u64 d[] = {200, 5000, 900000}; sleep_us(d[v - 1]); }
	if (n > g_rand_max) n = g_rand_max;
	if (n > 1 && fault("random-short", 1 << 20, &v)) n = 1 + (size_t)(v % (n - 1));
	access(buf, n, true);
	for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = rand_byte(g_rand_pos + i);
	g_rand_reads.push_back({g_rand_pos, n, cur(), weak}); g_rand_pos += n;
	return (ssize_t)n;
}
ssize_t fs_read(u64 id, void *buf, size_t n) {
	Ofd &o = O[id]; u64 v;
	if ((o.flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
	Ino &f = I[o.ino];
	if (f.t == DIR_) return fail(EISDIR);
	if (f.t == NUL) return 0;
	if (f.t == RND) return rnd_read(buf, n, f.id != rnd_strong);
	if (fault("eintr")) return fail(EINTR);
	if (fault("read-eio")) return fail(EIO);
	if (o.pos >= f.data.size()) return 0;
	size_t l = (size_t)std::min<u64>(n, f.data.size() - o.pos);
	if (l > 1 && fault("short-read", 1 << 20, &v)) l = 1 + (size_t)(v % (l - 1));
	access(buf, l, true);   // may let others run
	l = o.pos < f.data.size() ? (size_t)std::min<u64>(l, f.data.size() - o.pos) : 0;
	f.data.read(o.pos, (char *)buf, l);
	o.pos += l; f.atime = real_now_us();
	return (ssize_t)l;
}
ssize_t fs_write(u64 id, const void *buf, size_t n) {
	Ofd &o = O[id]; u64 v;
	if ((o.flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
	Ino &f = I[o.ino];
	if (f.t == NUL || f.t == RND) return (ssize_t)n;
	if (fault("eintr")) return fail(EINTR);
	if (fault("write-eio")) return fail(EIO);
	if (fault("disk-full")) return fail(ENOSPC);
	size_t l = n;
	if (l > 1 && fault("short-write", 1 << 20, &v)) l = 1 + (size_t)(v % (l - 1));
	access(buf, l, false);   // may let others run; everything below is atomic
	u64 at = (o.flags & O_APPEND) ? f.data.size() : o.pos;   // a failing append does not move the position
	auto c = caps.find(f.dev);
	if (c != caps.end() && at + l > f.data.size()) {
		u64 u = used(f.dev), room = u < c->second ? c->second - u : 0, grow = at + l - f.data.size();
		if (grow > room) { fired("disk-full"); u64 cut = grow - room; if (cut >= l) return fail(ENOSPC); l -= cut; }
	}
	if (at > (1ULL << 40)) return fail(EFBIG);
	f.data.write(at, (const char *)buf, l);
	if (f.pend.size() > 4096) f.pend.erase(f.pend.begin(), f.pend.begin() + 2048);   // only matters for crashes, which are searched with few writes
	f.pend.push_back({at, S((const char *)buf, l), false});
	o.pos = at + l; f.mtime = f.ctime = real_now_us();
	return (ssize_t)l;
}
int fs_ftruncate(u64 id, i64 len) {
	Ofd &o = O[id]; Ino &f = I[o.ino];
	if (len < 0 || (o.flags & O_ACCMODE) == O_RDONLY || f.t != FIL) return fail(EINVAL);
	if (fault("truncate-eio")) return fail(EIO);
	f.data.resize((u64)len); f.pend.push_back({(u64)len, "", true}); f.mtime = f.ctime = real_now_us();
	return 0;
}
}

extern "C" {
static int open_impl(const char *path, int flags, mode_t mode) {
	enter("open"); base_tree();
	S p = pstr(path); u64 v;
	if (fault("eintr-open")) return fail(EINTR);
	if (fault("open-fail", 4, &v)) { static const int e[] = {EMFILE, ENFILE, EACCES, EIO}; return fail(e[v - 1]); }
	u64 par; S leaf; int err; bool trail = false;
	u64 n = walk(p, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), par, leaf, err, 0, 0, &trail);
	bool created = false;
	if (!n) {
		if (err != ENOENT || !(flags & O_CREAT) || !par || I.find(par) == I.end()) return fail(err);
		if (trail) return fail(EISDIR);
		if (!canw(I[par])) return fail(EACCES);
		Ino &f = mk(FIL, mode & 0777 & ~(unsigned)proc_umask(cur_proc())); n = f.id; f.dev = I[par].dev; put_ent(I[par], leaf, n); created = true;
		logd("creat", p);
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
	Ino &f = I[n];
	int acc = flags & O_ACCMODE;
	if (f.t == LNK) return fail(ELOOP);
	if (f.t == DIR_ && (acc != O_RDONLY || (flags & O_CREAT))) return fail(EISDIR);
	if ((flags & O_DIRECTORY) && f.t != DIR_) return fail(ENOTDIR);
	if (!created) { if (acc != O_WRONLY && !canr(f)) return fail(EACCES); if (acc != O_RDONLY && !canw(f)) return fail(EACCES); }
	if (!created && (flags & O_TRUNC) && f.t == FIL && acc != O_RDONLY) { f.data.clear(); f.pend.push_back({0, "", true}); f.mtime = real_now_us(); logd("trunc", p); }
	u64 id = nextofd++; O[id] = {n, 0, flags, 1}; f.opens++;
	return fd_alloc(cur_proc(), f.t == RND ? FD_RANDOM : FD_FILE, id, flags);
}
int sim_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(ap, unsigned) : 0; va_end(ap); return open_impl(p, fl, m); }
int sim_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? (mode_t)va_arg(ap, unsigned) : 0; va_end(ap); return open_impl(p, fl, m); }
int sim_creat(const char *p, mode_t m) { return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t sim_read(int fd, void *b, size_t n) { enter("read"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind == FD_SHM) return fail(EINVAL); if (e->kind == FD_DIR) return fail(EISDIR); return fs_read(e->ref, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { enter("write"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind == FD_SHM || e->kind == FD_DIR) return fail(EBADF); return fs_write(e->ref, b, n); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { enter("pread"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind != FD_FILE) return fail(ESPIPE); u64 s = O[e->ref].pos, r = e->ref; O[r].pos = (u64)off; ssize_t x = fs_read(r, b, n); O[r].pos = s; return x; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { enter("pwrite"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind != FD_FILE) return fail(ESPIPE); u64 s = O[e->ref].pos, r = e->ref; O[r].pos = (u64)off; ssize_t x = fs_write(r, b, n); O[r].pos = s; return x; }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }
off_t sim_lseek64(int fd, off_t off, int wh) {
	enter("lseek");
	FdEnt *e = fd_get(fd); if (!e) return -1;
	if (e->kind != FD_FILE) return fail(ESPIPE);
	if (fault("lseek-fail")) return fail(EIO);
	Ofd &o = O[e->ref];
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o.pos : wh == SEEK_END ? (i64)I[o.ino].data.size() : -1;
	if (wh != SEEK_SET && wh != SEEK_CUR && wh != SEEK_END) return fail(EINVAL);
	if (b + off < 0) return fail(EINVAL);
	o.pos = (u64)(b + off);
	return (off_t)o.pos;
}
off_t sim_lseek(int fd, off_t off, int wh) { return sim_lseek64(fd, off, wh); }
int sim_fstat(int fd, struct stat *st) {
	enter("fstat");
	FdEnt *e = fd_get(fd); if (!e) return -1;
	if (e->kind == FD_SHM) { access(st, sizeof *st, true); memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0666; st->st_size = (off_t)shm_size(e->ref); st->st_ino = e->ref; st->st_dev = 77; st->st_nlink = 1; return 0; }
	if (fault("fstat-fail")) return fail(EIO);
	fillstat(I[O[e->ref].ino], st); return 0;
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
static int stat_impl(const char *path, struct stat *st, bool follow) {
	enter("stat"); base_tree(); S p = pstr(path); int err;
	if (fault("stat-fail")) return fail(EIO);
	u64 n = lookup(p, follow, err); if (!n) return fail(err);
	fillstat(I[n], st); return 0;
}
int sim_stat(const char *p, struct stat *st) { return stat_impl(p, st, true); }
int sim_stat64(const char *p, struct stat *st) { return stat_impl(p, st, true); }
int sim_lstat(const char *p, struct stat *st) { return stat_impl(p, st, false); }
int sim_lstat64(const char *p, struct stat *st) { return stat_impl(p, st, false); }
int sim_access(const char *p, int m) { struct stat st; if (stat_impl(p, &st, true)) return -1; if ((m & W_OK) && !(st.st_mode & 0200)) return fail(EACCES); if ((m & R_OK) && !(st.st_mode & 0400)) return fail(EACCES); return 0; }
int sim_flock(int fd, int op) {
	enter("flock");
	FdEnt *e = fd_get(fd); if (!e) return -1;
	u64 id = e->ref, n = O[id].ino; u64 v;
	if (fault("flock-fail", 2, &v)) return fail(v == 1 ? ENOLCK : EINTR);
	int t = op & ~LOCK_NB;
	if (t == LOCK_UN) { if (I[n].locks.erase(id)) wake_key(0xF100000000000000ULL + n); return 0; }
	for (;;) {
		bool clash = false;
		for (auto &l : I[n].locks) if (l.first != id && (t == LOCK_EX || l.second == LOCK_EX)) clash = true;
		if (!clash) { I[n].locks[id] = t; return 0; }
		probe("flock-conflict");
		if (op & LOCK_NB) return fail(EWOULDBLOCK);
		block_on(0xF100000000000000ULL + n, false, 0, 0);
	}
}
int sim_fsync(int fd) {
	enter("fsync");
	FdEnt *e = fd_get(fd); if (!e) return -1;
	if (e->kind == FD_SHM || e->kind == FD_RANDOM) return fail(EINVAL);
	if (fault("fsync-eintr")) return fail(EINTR);
	if (fault("fsync-eio")) return fail(EIO);
	sync_one(I[O[e->ref].ino]); ev("fsync");
	return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) { enter("sync"); for (auto &i : I) { if (!i.second.pend.empty() && fault("fsync-eio")) { i.second.entry_durable = true; continue; } make_durable(i.second); } ev("sync"); }
int sim_syncfs(int fd) { enter("syncfs"); FdEnt *e = fd_get(fd); if (!e) return -1; int r = 0; for (auto &i : I) { if (!i.second.pend.empty() && fault("fsync-eio")) { r = fail(EIO); continue; } make_durable(i.second); } return r; }
int sim_truncate(const char *path, off_t len) { enter("truncate"); base_tree(); S p = pstr(path); int err; u64 n = lookup(p, true, err); if (!n) return fail(err); Ino &f = I[n]; if (f.t != FIL || len < 0) return fail(EINVAL); if (!canw(f)) return fail(EACCES); if (fault("truncate-eio")) return fail(EIO); f.data.resize((u64)len); f.pend.push_back({(u64)len, "", true}); return 0; }
int sim_rename(const char *a, const char *b) {
	enter("rename"); base_tree(); S pa = pstr(a), pb = pstr(b); u64 v;
	if (fault("rename-fail", 3, &v)) { static const int e[] = {EIO, EXDEV, EACCES}; return fail(e[v - 1]); }
	u64 p1, p2; S l1, l2; int e1, e2;
	u64 n1 = walk(pa, false, p1, l1, e1); if (!n1) return fail(e1);
	u64 n2 = walk(pb, false, p2, l2, e2);
	if (!p1 || l1 == "." || l1 == ".." || l2 == "." || l2 == "..") return fail(EBUSY);
	if (!p2 || (!n2 && e2 != ENOENT)) return fail(n2 ? EBUSY : e2);
	if (I[p1].dev != I[p2].dev || I[n1].dev != I[p2].dev) { probe("exdev"); return fail(EXDEV); }
	if (!canw(I[p1]) || !canw(I[p2])) return fail(EACCES);
	if (n1 == n2) return 0;
	if (I[n1].t == DIR_) for (u64 q = p2; q != 1; q = I[q].parent) if (q == n1) return fail(EINVAL);
	if (n2) {
		if (I[n2].t == DIR_ && I[n1].t != DIR_) return fail(EISDIR);
		if (I[n2].t != DIR_ && I[n1].t == DIR_) return fail(ENOTDIR);
		if (I[n2].t == DIR_ && !I[n2].ent.empty()) return fail(ENOTEMPTY);
		drop_ent(I[p2], l2); I[n2].nlink = I[n2].t == DIR_ ? 0 : I[n2].nlink - 1; maybe_gone(n2);
	}
	drop_ent(I[p1], l1); I[n1].nlink--; put_ent(I[p2], l2, n1);
	logd("rename", pa + " -> " + pb);
	return 0;
}
int sim_unlink(const char *path) {
	enter("unlink"); base_tree(); S p = pstr(path);
	u64 par; S l; int err; u64 n = walk(p, false, par, l, err); if (!n) return fail(err);
	if (!par) return fail(EISDIR);
	if (I[n].t == DIR_) return fail(EISDIR);
	if (!canw(I[par])) return fail(EACCES);
	if (fault("unlink-fail")) return fail(EIO);
	drop_ent(I[par], l); I[n].nlink--; maybe_gone(n); I[par].mtime = real_now_us();
	logd("unlink", p);
	return 0;
}
int sim_mkdir(const char *path, mode_t mode) {
	enter("mkdir"); base_tree(); S p = pstr(path);
	while (p.size() > 1 && p[p.size() - 1] == '/') p.erase(p.size() - 1);
	u64 par; S l; int err; u64 n = walk(p, false, par, l, err);
	if (n) return fail(EEXIST);
	if (err != ENOENT || !par || l == "." || l == "..") return fail(err);
	if (!canw(I[par])) return fail(EACCES);
	if (fault("mkdir-fail")) return fail(ENOSPC);
	Ino &d = mk(DIR_, mode & 0777 & ~(unsigned)proc_umask(cur_proc())); u64 id = d.id; d.dev = I[par].dev; d.nlink = 1; put_ent(I[par], l, id);
	logd("mkdir", p);
	return 0;
}
int sim_rmdir(const char *path) {
	enter("rmdir"); base_tree(); S p = pstr(path);
	u64 par; S l; int err; u64 n = walk(p, false, par, l, err); if (!n) return fail(err);
	if (I[n].t != DIR_) return fail(ENOTDIR);
	if (!par || n == 1) return fail(EBUSY);
	if (!I[n].ent.empty()) return fail(ENOTEMPTY);
	if (!canw(I[par])) return fail(EACCES);
	if (fault("rmdir-fail")) return fail(EBUSY);
	drop_ent(I[par], l); I[n].nlink = 0; maybe_gone(n);
	logd("rmdir", p);
	return 0;
}
int sim_remove(const char *path) { struct stat st; if (stat_impl(path, &st, false)) return -1; return S_ISDIR(st.st_mode) ? sim_rmdir(path) : sim_unlink(path); }
static void *opendir_ino(u64 n) {
	u64 id = nextofd++; O[id] = {n, 0, O_RDONLY, 1}; I[n].opens++;
	int fd = fd_alloc(cur_proc(), FD_DIR, id, O_RDONLY);
	DirS *d = (DirS *)halloc(sizeof(DirS), 1);
	d->magic = 0xD1D1D1D1; d->fd = fd; d->ino = n; d->ofd = id; d->left = new std::vector<std::pair<S, u64>>(); dirlists.push_back(d->left);
	d->left->push_back({".", n}); d->left->push_back({"..", I[n].parent});
	for (auto &e : I[n].ent) d->left->push_back(e);
	return d;
}
void *sim_opendir(const char *path) {
	enter("opendir"); base_tree(); S p = pstr(path); int err; u64 v;
	if (fault("opendir-fail", 2, &v)) { fail(v == 1 ? EMFILE : ENOMEM); return nullptr; }
	u64 n = lookup(p, true, err); if (!n) { fail(err); return nullptr; }
	if (I[n].t != DIR_) { fail(ENOTDIR); return nullptr; }
	if (!canr(I[n])) { fail(EACCES); return nullptr; }
	return opendir_ino(n);
}
void *sim_readdir(void *dv) {
	enter("readdir");
	DirS *d = (DirS *)dv;
	check_access(d, sizeof(DirS), true, "readdir");
	if (fault("readdir-fail")) { set_errno(EIO); return nullptr; }
	while (!d->left->empty()) {
		size_t k = (size_t)choose("readdir-order", d->left->size());
		auto e = (*d->left)[k]; d->left->erase(d->left->begin() + (long)k);
		bool there = e.first == "." || e.first == ".." || (I.count(d->ino) && find_ent(I[d->ino], e.first));
		if (!there && choose("readdir-stale", 2) == 0) continue;
		memset(&d->de, 0, sizeof d->de);
		d->de.d_ino = I.count(e.second) ? ino_no(I[e.second]) : e.second; d->de.d_reclen = sizeof d->de; strcpy(d->de.d_name, e.first.c_str());
		d->de.d_type = DT_UNKNOWN;
		if (!(g_plan && g_plan->get("dtype_unknown"))) { auto it = I.find(e.second); if (it != I.end()) d->de.d_type = it->second.t == DIR_ ? DT_DIR : it->second.t == LNK ? DT_LNK : DT_REG; }
		return &d->de;
	}
	return nullptr;
}
void *sim_readdir64(void *d) { return sim_readdir(d); }
int sim_closedir(void *dv) {
	enter("closedir");
	DirS *d = (DirS *)dv;
	check_access(d, sizeof(DirS), true, "closedir");
	FdEnt *e = fd_get(d->fd); if (e && e->kind == FD_DIR && e->ref == d->ofd) { e->kind = FD_NONE; fs_close_ofd(d->ofd); }
	hfree(d); return 0;
}
int sim_dirfd(void *dv) { return ((DirS *)dv)->fd; }
void sim_rewinddir(void *dv) { DirS *d = (DirS *)dv; d->left->clear(); d->left->push_back({".", d->ino}); d->left->push_back({"..", 1}); for (auto &e : I[d->ino].ent) d->left->push_back(e); }
void *sim_fdopendir(int fd) { enter("fdopendir"); FdEnt *e = fd_get(fd); if (!e) return nullptr; u64 n = O[e->ref].ino; if (I[n].t != DIR_) { fail(ENOTDIR); return nullptr; } void *d = opendir_ino(n); e = fd_get(fd); fs_close_ofd(e->ref); e->kind = FD_NONE; return d; }
char *sim_getcwd(char *b, size_t n) {
	enter("getcwd"); base_tree();
	if (fault("getcwd-fail")) { fail(ENOENT); return nullptr; }
	if (!b) { if (!n) n = cwd.size() + 1; if (n < cwd.size() + 1) { fail(ERANGE); return nullptr; } b = (char *)halloc(n, g_alloc_tag); }
	if (n < cwd.size() + 1) { fail(ERANGE); return nullptr; }
	access(b, cwd.size() + 1, true); memcpy(b, cwd.c_str(), cwd.size() + 1); return b;
}
int sim_chdir(const char *p) { enter("chdir"); cwd = pstr(p); return 0; }
static S pathof(u64 n) { if (n == 1) return ""; for (auto &kv : I) if (kv.second.t == DIR_) for (auto &e : kv.second.ent) if (e.second == n) return pathof(kv.first) + "/" + e.first; return "?"; }
char *sim_realpath(const char *path, char *res) {
	enter("realpath"); base_tree(); S p = pstr(path);
	if (fault("realpath-fail")) { fail(EACCES); return nullptr; }
	u64 par; S l; int err; u64 n = walk(p, true, par, l, err); if (!n) { fail(err); return nullptr; }
	S r = I[n].t == DIR_ ? pathof(n) : (par ? pathof(par) + "/" + l : pathof(n)); if (r.empty()) r = "/";
	if (!res) { if (fault("alloc-fail")) { fail(ENOMEM); return nullptr; } res = (char *)halloc(r.size() + 1, g_alloc_tag); }
	access(res, r.size() + 1, true); memcpy(res, r.c_str(), r.size() + 1); return res;
}
}
namespace sim {
S fs_realany(const S &p) { base_tree(); u64 par; S l; int e; u64 n = walk(p, true, par, l, e); if (!n) return ""; S r = I[n].t == DIR_ ? pathof(n) : (par ? pathof(par) + "/" + l : pathof(n)); return r.empty() ? "/" : r; }
S fs_realdir(const S &p) { return fs_realany(p); }
bool fs_dirpath(u64 ofd, S &out) { auto it = O.find(ofd); if (it == O.end() || I[it->second.ino].t != DIR_) return false; out = pathof(it->second.ino); return true; }
void fs_dup(u64 ofd) { O[ofd].refs++; }
}
extern "C" {
char *sim_canonicalize_file_name(const char *p) { return sim_realpath(p, nullptr); }
int sim_symlink(const char *t, const char *path) {
	enter("symlink"); base_tree(); S p = pstr(path), tg = pstr(t);
	u64 par; S l; int err; u64 n = walk(p, false, par, l, err); if (n) return fail(EEXIST); if (err != ENOENT || !par) return fail(err);
	if (!canw(I[par])) return fail(EACCES);
	if (fault("symlink-fail")) return fail(ENOSPC);
	Ino &x = mk(LNK, 0777); u64 id = x.id; x.target = tg; x.dev = I[par].dev; put_ent(I[par], l, id); logd("symlink", p); return 0;
}
int sim_link(const char *a, const char *b) {
	enter("link"); base_tree(); S pa = pstr(a), pb = pstr(b); u64 p1, p2; S l1, l2; int e1, e2;
	u64 n = walk(pa, false, p1, l1, e1); if (!n) return fail(e1); u64 m = walk(pb, false, p2, l2, e2); if (m) return fail(EEXIST); if (!p2) return fail(e2);
	if (I[n].t == DIR_) return fail(EPERM);
	if (I[n].dev != I[p2].dev) return fail(EXDEV);
	put_ent(I[p2], l2, n); return 0;
}
ssize_t sim_readlink(const char *path, char *b, size_t sz) {
	enter("readlink"); base_tree(); S p = pstr(path); int err;
	if (sz == 0) return fail(EINVAL);
	if (fault("readlink-fail")) return fail(EIO);
	u64 n = lookup(p, false, err); if (!n) return fail(err);
	if (I[n].t != LNK) return fail(EINVAL);
	size_t l = std::min(sz, I[n].target.size());
	S tg = I[n].target; access(b, l, true); memcpy(b, tg.data(), l); return (ssize_t)l;
}
int sim_chmod(const char *path, mode_t m) { enter("chmod"); base_tree(); S p = pstr(path); int err; if (fault("chmod-fail")) return fail(EPERM); u64 n = lookup(p, true, err); if (!n) return fail(err); if (!g_fs_root && I[n].uid != 1000) return fail(EPERM); I[n].mode = m & 07777; return 0; }
static int chown_ino(Ino &f, uid_t u, gid_t g) { bool cu = u != (uid_t)-1, cg = g != (gid_t)-1;
	if (!g_fs_root && ((cu && (f.uid != 1000 || u != f.uid)) || (cg && (f.uid != 1000 || (g != f.gid && g != 1000 && g != 1002))))) return fail(EPERM);
	if ((cu || cg) && f.t == FIL && (f.mode & 0111)) f.mode &= ~06000u;      // as Linux does
	if (cu) f.uid = u;
	if (cg) f.gid = g;
	return 0; }
static int chown_impl(const char *path, uid_t u, gid_t g, bool follow) { enter("chown"); base_tree(); S p = pstr(path); int err; if (fault("chown-fail")) return fail(EPERM); u64 n = lookup(p, follow, err); if (!n) return fail(err); return chown_ino(I[n], u, g); }
int sim_chown(const char *p, uid_t u, gid_t g) { return chown_impl(p, u, g, true); }
int sim_lchown(const char *p, uid_t u, gid_t g) { return chown_impl(p, u, g, false); }
int sim_fchown(int fd, uid_t u, gid_t g) { enter("fchown"); FdEnt *e = fd_get(fd); if (!e) return -1; if (fault("chown-fail")) return fail(EPERM); return chown_ino(I[O[e->ref].ino], u, g); }
int sim_fchmod(int fd, mode_t m) { enter("fchmod"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind == FD_FILE) { if (fault("chmod-fail")) return fail(EPERM); I[O[e->ref].ino].mode = m & 07777; } if (e->kind == FD_SHM && !shm_chmod(e->ref, m)) return fail(EPERM); return 0; }
static int utime_impl(const char *path, u64 at, u64 mt) { S p = pstr(path); int err; if (fault("utime-fail")) return fail(EPERM); u64 n = lookup(p, true, err); if (!n) return fail(err); I[n].atime = at; I[n].mtime = mt; return 0; }
int sim_utime(const char *p, const struct utimbuf *t) { enter("utime"); base_tree(); u64 n = real_now_us(); return utime_impl(p, t ? (u64)t->actime * 1000000 : n, t ? (u64)t->modtime * 1000000 : n); }
int sim_utimes(const char *p, const struct timeval *t) { enter("utimes"); base_tree(); u64 n = real_now_us(); return utime_impl(p, t ? (u64)t[0].tv_sec * 1000000 + (u64)t[0].tv_usec : n, t ? (u64)t[1].tv_sec * 1000000 + (u64)t[1].tv_usec : n); }
int sim_utimensat(int, const char *p, const struct timespec *t, int) { enter("utimensat"); base_tree(); u64 n = real_now_us(); return utime_impl(p, t ? (u64)t[0].tv_sec * 1000000 + (u64)t[0].tv_nsec / 1000 : n, t ? (u64)t[1].tv_sec * 1000000 + (u64)t[1].tv_nsec / 1000 : n); }
int sim_futimens(int fd, const struct timespec *t) { enter("futimens"); FdEnt *e = fd_get(fd); if (!e) return -1; if (e->kind == FD_FILE && t) { Ino &f = I[O[e->ref].ino]; f.atime = (u64)t[0].tv_sec * 1000000 + (u64)t[0].tv_nsec / 1000; f.mtime = (u64)t[1].tv_sec * 1000000 + (u64)t[1].tv_nsec / 1000; } return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { enter("getrandom"); return rnd_read(b, n, false); }
int sim_getentropy(void *b, size_t n) { enter("getentropy"); if (n > 256) return fail(EIO); ssize_t r = rnd_read(b, n, false); return r == (ssize_t)n ? 0 : fail(EIO); }

// environment and users
static char *heapstr(const S &s) { static std::map<S, S> keep; return const_cast<char *>((keep[s] = s).c_str()); }
char *sim_getenv(const char *k) { enter("getenv"); auto it = env.find(pstr(k)); return it == env.end() ? nullptr : heapstr(it->second); }
char *sim_secure_getenv(const char *k) { return sim_getenv(k); }
// What the plain calls return lies in one place and is overwritten by the next call, of whatever thread; the calls that take a
// buffer say ERANGE if it is too small (a group may have thousands of members).
struct PwEnt { bool there = false; S name, dir; bool hasdir = true; unsigned uid = 0, gid = 0; };
static PwEnt pwname(const S &n) { PwEnt e; if (!pw_present) return e; if (n == "sim") { e.there = true; e.name = n; e.dir = pw_dir_s; e.hasdir = pw_hasdir; e.uid = 1000; e.gid = 1000; } else if (n == "bob") { e.there = true; e.name = n; e.dir = "/home/bob"; e.uid = 1001; e.gid = 1005; } return e; }
// the groups: everybody's own, one without a user of that name, and one whose number is not that of the user of that name
static PwEnt grname(const S &n) { PwEnt e; e.name = n; e.there = true; if (n == "sim") e.gid = 1000; else if (n == "staff") e.gid = 1002; else if (n == "bob") e.gid = 1003; else e.there = false; return e; }
static void pwfill(struct passwd *p, const PwEnt &e, char *b) { memset(p, 0, sizeof *p); memcpy(b, e.name.c_str(), e.name.size() + 1); char *d = b + e.name.size() + 1; memcpy(d, e.dir.c_str(), e.dir.size() + 1); p->pw_name = b; p->pw_passwd = p->pw_gecos = p->pw_shell = b + e.name.size(); p->pw_uid = e.uid; p->pw_gid = e.gid; p->pw_dir = e.hasdir ? d : nullptr; }
static char *g_nomem[1];
static void grfill(struct group *p, const PwEnt &e, char *b) { memset(p, 0, sizeof *p); memcpy(b, e.name.c_str(), e.name.size() + 1); p->gr_name = b; p->gr_passwd = b + e.name.size(); p->gr_gid = e.gid; p->gr_mem = g_nomem; }
static struct passwd g_pw; static struct group g_gr; static char g_pwbuf[16384], g_grbuf[16384];
static struct passwd *pwplain(const PwEnt &e) { if (!e.there) { fail(ENOENT); return nullptr; } pwfill(&g_pw, e, g_pwbuf); point(1); return &g_pw; }
static int pwbuf(const PwEnt &e, struct passwd *p, char *b, size_t n, struct passwd **r) { check_access(p, sizeof *p, true, "a user entry"); check_access(r, sizeof *r, true, "a user entry"); check_access(b, n, true, "the space for a user entry"); *r = nullptr; if (!e.there) return 0; if (n < e.name.size() + e.dir.size() + 2 + pw_extra) return ERANGE; pwfill(p, e, b); *r = p; return 0; }
struct passwd *sim_getpwuid(uid_t) { enter("getpwuid"); return pwplain(pwname("sim")); }
struct passwd *sim_getpwnam(const char *n) { enter("getpwnam"); return pwplain(pwname(pstr(n))); }
int sim_getpwnam_r(const char *n, struct passwd *p, char *b, size_t k, struct passwd **r) { enter("getpwnam_r"); return pwbuf(pwname(pstr(n)), p, b, k, r); }
int sim_getpwuid_r(uid_t, struct passwd *p, char *b, size_t k, struct passwd **r) { enter("getpwuid_r"); return pwbuf(pwname("sim"), p, b, k, r); }
struct group *sim_getgrnam(const char *n) { enter("getgrnam"); PwEnt e = grname(pstr(n)); if (!e.there) { fail(ENOENT); return nullptr; } grfill(&g_gr, e, g_grbuf); point(1); return &g_gr; }
int sim_getgrnam_r(const char *n, struct group *p, char *b, size_t k, struct group **r) { enter("getgrnam_r"); PwEnt e = grname(pstr(n)); check_access(p, sizeof *p, true, "a group entry"); check_access(b, k, true, "the space for a group entry"); *r = nullptr; if (!e.there) return 0; if (k < e.name.size() + 1 + pw_extra) return ERANGE; grfill(p, e, b); *r = p; return 0; }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }
gid_t sim_getgid(void) { return 1000; }
gid_t sim_getegid(void) { return 1000; }
pid_t sim_getpid(void) { return 4000 + cur_proc(); }
int sim_getpagesize(void) { return 4096; }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; return sysconf(n); }
void sim___stack_chk_fail(void) { violate("stack-overrun", "a function wrote past the end of one of its local arrays"); abort(); }
}
