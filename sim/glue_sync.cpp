#include "glue.h"
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
#include "sync/sync_sharedmem.h"
using namespace CubicleSoft::Sync;
extern "C" {
void *g_mutex_new() { return new Mutex; }
void g_mutex_del(void *p) { delete (Mutex *)p; }
int g_mutex_create(void *p, const char *n) { return ((Mutex *)p)->Create(n); }
int g_mutex_lock(void *p, uint32_t w) { return w == INFINITE ? ((Mutex *)p)->Lock() : ((Mutex *)p)->Lock(w); }
int g_mutex_unlock(void *p, int all) { return all ? ((Mutex *)p)->Unlock(true) : ((Mutex *)p)->Unlock(); }
void g_mutex_auto(void *p, void (*fn)(void *), void *a) { Mutex::AutoUnlock u((Mutex *)p); fn(a); }
void *g_sem_new() { return new Semaphore; }
void g_sem_del(void *p) { delete (Semaphore *)p; }
int g_sem_create(void *p, const char *n, int v) { return ((Semaphore *)p)->Create(n, v); }
int g_sem_lock(void *p, uint32_t w) { return w == INFINITE ? ((Semaphore *)p)->Lock() : ((Semaphore *)p)->Lock(w); }
int g_sem_unlock(void *p, int *prev) { return prev ? ((Semaphore *)p)->Unlock(prev) : ((Semaphore *)p)->Unlock(); }
void g_sem_auto(void *p, void (*fn)(void *), void *a) { Semaphore::AutoUnlock u((Semaphore *)p); fn(a); }
void *g_event_new() { return new Event; }
void g_event_del(void *p) { delete (Event *)p; }
int g_event_create(void *p, const char *n, int m, int f) { return ((Event *)p)->Create(n, m != 0, f != 0); }
int g_event_wait(void *p, uint32_t w) { return w == INFINITE ? ((Event *)p)->Wait() : ((Event *)p)->Wait(w); }
int g_event_fire(void *p) { return ((Event *)p)->Fire(); }
int g_event_reset(void *p) { return ((Event *)p)->Reset(); }
void *g_rw_new() { return new ReadWriteLock; }
void g_rw_del(void *p) { delete (ReadWriteLock *)p; }
int g_rw_create(void *p, const char *n) { return ((ReadWriteLock *)p)->Create(n); }
int g_rw_rlock(void *p, uint32_t w) { return w == INFINITE ? ((ReadWriteLock *)p)->ReadLock() : ((ReadWriteLock *)p)->ReadLock(w); }
int g_rw_wlock(void *p, uint32_t w) { return w == INFINITE ? ((ReadWriteLock *)p)->WriteLock() : ((ReadWriteLock *)p)->WriteLock(w); }
int g_rw_runlock(void *p) { return ((ReadWriteLock *)p)->ReadUnlock(); }
int g_rw_wunlock(void *p) { return ((ReadWriteLock *)p)->WriteUnlock(); }
void g_rw_autor(void *p, void (*fn)(void *), void *a) { ReadWriteLock::AutoReadUnlock u((ReadWriteLock *)p); fn(a); }
void g_rw_autow(void *p, void (*fn)(void *), void *a) { ReadWriteLock::AutoWriteUnlock u((ReadWriteLock *)p); fn(a); }
void *g_shm_new() { return new SharedMem; }
void g_shm_del(void *p) { delete (SharedMem *)p; }
int g_shm_create(void *p, const char *n, size_t s) { return ((SharedMem *)p)->Create(n, s); }
int g_shm_first(void *p) { return ((SharedMem *)p)->First(); }
size_t g_shm_size(void *p) { return ((SharedMem *)p)->GetSize(); }
char *g_shm_data(void *p) { return ((SharedMem *)p)->RawData(); }
}
