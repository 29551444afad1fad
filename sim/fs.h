// Harness-side view of the simulated file system and random device.
#pragma once
#include "os.h"
#include <string>
#include <vector>
#include <map>
#include "blob.h"
#include <sys/stat.h>
namespace sim {
void fs_mkdirs(const std::string &path);                        // creates missing directories (no faults, durable)
u64 fs_put(const std::string &path, const std::string &data, unsigned mode = 0644);   // creates or replaces (durable); inode id
bool fs_get(const std::string &path, std::string &data);        // follows symlinks
bool fs_get(const std::string &path, Blob &data);
void fs_sparse(const std::string &path, u64 size);               // extends with a hole
bool fs_exists(const std::string &path);                        // lstat-like
bool fs_stat(const std::string &path, struct stat &st, bool follow);
std::string fs_realany(const std::string &path);                  // canonical path
std::string fs_realdir(const std::string &path);
void fs_link(const std::string &path, const std::string &target);
void fs_chmod(const std::string &path, unsigned mode);
void fs_chown(const std::string &path, unsigned uid, int gid = -1);
void fs_cap(int dev, u64 bytes);                                 // disk space limit in bytes
std::map<std::string, std::string> fs_attrs();                   // path -> mode, owner, group, time of change (files)
extern bool g_fs_root;                                           // the process may change owners
std::map<std::string, std::string> fs_snapshot();                // path -> "d", "l:target" or "f:mode:content"
std::vector<std::string> fs_list(const std::string &dir);
void fs_crash();                                                // applies the loss of unsynced data after crash_machine()
u64 fs_locks();                                                 // advisory locks held
u64 fs_ino(const std::string &path);
void fs_put_blob(const std::string &path, const Blob &b);         // replaces the bytes of a file
void fs_set_mtime(const std::string &path, u64 sec);
extern std::vector<std::pair<int, std::string>> g_fs_log;       // destructive calls: (proc, text)
extern bool g_fs_logon;
void env_set(const std::string &k, const std::string &v);
void env_unset(const std::string &k);
void pw_set(bool present, bool hasdir, const std::string &dir, u64 extra);
void cwd_set(const std::string &d);
// random device
struct RandRead { u64 start, len; int fiber; bool weak; };      // weak: not from /dev/random
extern u64 g_rand_key;                                           // selects the stream
extern std::vector<RandRead> g_rand_reads;
extern std::vector<uint8_t> g_rand_script;                       // first bytes of the stream
extern u64 g_rand_pos;
uint8_t rand_byte(u64 k);
extern int g_rand_errno; extern bool g_rand_absent, g_arandom_present, g_rand_dead, g_rand_eof;
extern u64 g_rand_max;                                          // largest transfer of one read
extern u64 g_rand_calls; extern bool g_random_missing;           // only /dev/random does not exist
// dynamic loader: libraries and functions known to the simulated system, open handles, calls into closed libraries
struct DlState { std::map<std::string, std::map<std::string, void *>> libs; std::map<u64, std::pair<std::string, int>> open; u64 opens = 0, closes = 0; };
extern DlState g_dl;
// what the program itself offers: dlopen(NULL), RTLD_DEFAULT and RTLD_NEXT search it
static const char *const DL_MAIN = "lib90.so";
}
