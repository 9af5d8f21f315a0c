// Stand-ins for the operating system: threads, locks, condition variables, futexes, clocks, files, memory
// functions. The library's objects are linked against these (objcopy --redefine-syms).
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <unistd.h>
#include <unordered_map>
#include <memory>
#define PC u64(__builtin_return_address(0))

namespace sim {
static inline void touch(const void* p, size_t n, bool w, u64 pc) {
#ifndef SIM_ASAN
  if (g_active && in_arena(u64(p)) && !heap_ok(u64(p), n)) bad_access(p, n, w, pc);
#else
  (void)p; (void)n; (void)w; (void)pc;
#endif
}
struct Mtx { bool live = true; int owner = -1; };
struct Rw { int writer = -1; std::vector<u32> readers; };
static std::unordered_map<u64, Mtx>* g_mtx; static std::unordered_map<u64, Rw>* g_rw;
void shims_run_begin() { if (!g_mtx) { g_mtx = new std::unordered_map<u64, Mtx>(); g_rw = new std::unordered_map<u64, Rw>(); } }
static int cur_id() { return g_cur ? int(g_cur->id) : 0; }
static u64 abs_ns(const timespec* t) { return u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec); }
constexpr u64 kCond = 0xC0ull << 56, kMut = 0x30ull << 56, kRwl = 0x40ull << 56, kFut = 0x50ull << 56, kSleep = 0x60ull << 56;

static void mutex_lock(u64 a) {
  Mtx& m = (*g_mtx)[a];
  if (m.owner == cur_id()) fail("mutex:relock", "a thread locks a mutex it already owns");
  while (m.owner >= 0) block(kMut ^ a, "mutex lock", ~0ull);
  m.owner = cur_id(); hb_acquire(a);
}
static void mutex_unlock(u64 a) {
  Mtx& m = (*g_mtx)[a];
  if (m.owner != cur_id()) fail("mutex:unlock-not-owner", "a thread unlocks a mutex it does not own");
  hb_release(a); m.owner = -1; wake(kMut ^ a, ~0u, false);
}
}
using namespace sim;
#define IDLE (!g_active)

extern "C" {
// ------------------------------------------------------------------------------------------- memory ------
void* sim_malloc(size_t n) { return heap_malloc(n, 16, false, __builtin_return_address(0)); }
void* sim_calloc(size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; } return heap_malloc(t, 16, true, __builtin_return_address(0)); }
void sim_free(void* p) { heap_free(p, __builtin_return_address(0)); }
void* sim_realloc(void* p, size_t n) { if (!p) return sim_malloc(n); size_t o = heap_size(p); void* q = heap_malloc(n, 16, false, __builtin_return_address(0)); if (!q) return q; memcpy(q, p, o < n ? o : n); heap_free(p, __builtin_return_address(0)); return q; }
int sim_posix_memalign(void** o, size_t al, size_t n) { void* p = heap_malloc(n, al, false, __builtin_return_address(0)); if (!p) return ENOMEM; *o = p; return 0; }
void* sim_aligned_alloc(size_t al, size_t n) { return heap_malloc(n, al, false, __builtin_return_address(0)); }

void* sim_memcpy(void* d, const void* s, size_t n) { range_access(s, n, false, PC); range_access(d, n, true, PC); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { range_access(s, n, false, PC); range_access(d, n, true, PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { range_access(d, n, true, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { range_access(a, n, false, PC); range_access(b, n, false, PC); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { void* r = memchr((void*)a, c, n); range_access(a, r ? size_t((char*)r - (char*)a) + 1 : n, false, PC); return r; }
size_t sim_strlen(const char* s) { size_t n = strlen(s); range_access(s, n + 1, false, PC); return n; }
char* sim_strncpy(char* d, const char* s, size_t n) { range_access(d, n, true, PC); return strncpy(d, s, n); }

// ------------------------------------------------------------------------------------------- threads -----
int sim_pthread_attr_init(pthread_attr_t* a) { if (fault(F_THREAD_ATTR)) return ENOMEM; return pthread_attr_init(a); }
int sim_pthread_attr_destroy(pthread_attr_t* a) { return pthread_attr_destroy(a); }
int sim_pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { if (fault(F_THREAD_ATTR)) return EINVAL; return pthread_attr_setstacksize(a, n); }
int sim_pthread_attr_getstacksize(const pthread_attr_t* a, size_t* n) { return pthread_attr_getstacksize(a, n); }
int sim_pthread_attr_setdetachstate(pthread_attr_t* a, int s) { return pthread_attr_setdetachstate(a, s); }
int sim_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
#ifdef SIM_ASAN
  (void)t; (void)at; (void)fn; (void)arg; count("thread_create_refused"); return EAGAIN;
#else
  if (IDLE) { fprintf(stderr, "sim: pthread_create outside a run\n"); _exit(94); }
  sync_point(0x7C, 0);
  if (fault(F_THREAD_CREATE)) return EAGAIN;
  int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds);
  u32 id; lib_thread_spawn(fn, arg, ds == PTHREAD_CREATE_DETACHED, &id); *t = (pthread_t)(0x1000 + id); 
  count("threads_created");
  sync_point(0x7D, id); return 0;
#endif
}
int sim_pthread_join(pthread_t t, void** r) { fiber_wait_done(u32(t - 0x1000), r); return 0; }
int sim_pthread_detach(pthread_t) { return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(0x1000 + cur_id()); }
void sim_pthread_exit(void* r) { fiber_exit_current(r); }
int sim_sched_yield() { sync_point(0x71, 0); return 0; }

int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { touch(m, sizeof *m, true, PC); if (!IDLE) { (*g_mtx)[u64(m)] = Mtx(); syncvar_forget(u64(m)); } return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { touch(m, sizeof *m, true, PC); if (IDLE) return 0; Mtx& x = (*g_mtx)[u64(m)]; if (x.owner >= 0) fail("mutex:destroy-locked", strf("a locked mutex is destroyed (owner: fiber %d)", x.owner)); race_access(u64(m), sizeof *m, true, false, PC); g_mtx->erase(u64(m)); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { if (IDLE) return 0; touch(m, sizeof *m, true, PC); sync_point(0x10, u64(m)); touch(m, sizeof *m, true, PC); race_access(u64(m), 8, true, true, PC); mutex_lock(u64(m)); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { if (IDLE) return 0; touch(m, sizeof *m, true, PC); sync_point(0x11, u64(m)); Mtx& x = (*g_mtx)[u64(m)]; if (x.owner >= 0) return EBUSY; x.owner = cur_id(); hb_acquire(u64(m)); return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { if (IDLE) return 0; touch(m, sizeof *m, true, PC); race_access(u64(m), 8, true, true, PC); mutex_unlock(u64(m)); sync_point(0x12, u64(m)); return 0; }

int sim_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { touch(m, sizeof *m, true, PC); if (!IDLE) { (*g_rw)[u64(m)] = Rw(); syncvar_forget(u64(m)); syncvar_forget(u64(m) + 1); } return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* m) { touch(m, sizeof *m, true, PC); if (IDLE) return 0; Rw& x = (*g_rw)[u64(m)]; if (x.writer >= 0 || x.readers.size()) fail("rwlock:destroy-locked", "a locked rwlock is destroyed"); race_access(u64(m), sizeof *m, true, false, PC); g_rw->erase(u64(m)); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (IDLE) return 0; touch(m, sizeof *m, true, PC); sync_point(0x20, u64(m)); race_access(u64(m), 8, true, true, PC);
  u64 a = u64(m); while ((*g_rw)[a].writer >= 0) { if ((*g_rw)[a].writer == cur_id()) return EDEADLK; block(kRwl ^ a, "rwlock rdlock", ~0ull); }
  (*g_rw)[a].readers.push_back(u32(cur_id())); hb_acquire(a); return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (IDLE) return 0; touch(m, sizeof *m, true, PC); sync_point(0x21, u64(m)); race_access(u64(m), 8, true, true, PC);
  u64 a = u64(m); for (;;) { Rw& x = (*g_rw)[a]; if (x.writer < 0 && x.readers.empty()) break; if (x.writer == cur_id()) return EDEADLK; block(kRwl ^ a, "rwlock wrlock", ~0ull); }
  (*g_rw)[a].writer = cur_id(); hb_acquire(a); hb_acquire(a + 1); return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (IDLE) return 0; touch(m, sizeof *m, true, PC); race_access(u64(m), 8, true, true, PC);
  u64 a = u64(m); Rw& x = (*g_rw)[a];
  if (x.writer == cur_id()) { hb_release(a); x.writer = -1; }
  else { bool ok = false; for (size_t i = 0; i < x.readers.size(); i++) if (int(x.readers[i]) == cur_id()) { x.readers.erase(x.readers.begin() + i); ok = true; break; }
    if (!ok) fail("rwlock:unlock-not-owner", "a thread unlocks a rwlock it does not hold"); hb_release_join(a + 1); }
  wake(kRwl ^ a, ~0u, false); sync_point(0x22, a); return 0;
}

int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { touch(c, sizeof *c, true, PC); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { touch(c, sizeof *c, true, PC); if (!IDLE && waiters(kCond ^ u64(c))) fail("cond:destroy-waited", "a condition variable with waiters is destroyed"); if (!IDLE) race_access(u64(c), 8, true, false, PC); return 0; }
int sim_pthread_cond_signal(pthread_cond_t* c) { if (IDLE) return 0; touch(c, sizeof *c, true, PC); sync_point(0x30, u64(c)); touch(c, sizeof *c, true, PC); race_access(u64(c), 8, true, true, PC); wake(kCond ^ u64(c), 1, true); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { if (IDLE) return 0; touch(c, sizeof *c, true, PC); sync_point(0x31, u64(c)); touch(c, sizeof *c, true, PC); race_access(u64(c), 8, true, true, PC); wake(kCond ^ u64(c), ~0u, false); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, u64 pc) {
  touch(c, sizeof *c, true, pc); race_access(u64(c), 8, true, true, pc);
  if (deadline != ~0ull && deadline <= g_now) { mutex_unlock(u64(m)); sync_point(0x33, u64(c)); mutex_lock(u64(m)); return ETIMEDOUT; }
  if (deadline != ~0ull && fault(F_EARLY_TIMEOUT)) { g_now = deadline; mutex_unlock(u64(m)); sync_point(0x33, u64(c)); mutex_lock(u64(m)); return ETIMEDOUT; }
  if (fault(F_SPURIOUS)) { mutex_unlock(u64(m)); sync_point(0x34, u64(c)); mutex_lock(u64(m)); return 0; }
  mutex_unlock(u64(m));
  block(kCond ^ u64(c), "condition wait", deadline);
  bool to = g_cur->wake_reason == 1;
  mutex_lock(u64(m));
  return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull, PC); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, abs_ns(t), PC); }

long sim_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); u64 a[6]; for (auto& x : a) x = va_arg(ap, u64); va_end(ap);
  if (nr != SYS_futex) fail("unmodelled-syscall", strf("syscall %ld", nr));
  u32* addr = (u32*)a[0]; int op = int(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME); u32 val = u32(a[2]);
  touch(addr, 4, false, PC); sync_point(0x40 + op, u64(addr)); 
  if (op == FUTEX_WAIT) {
    touch(addr, 4, false, PC); race_access(u64(addr), 4, false, true, PC);
    if (*addr != val) { errno = EAGAIN; return -1; }
    if (fault(F_FUTEX_EINTR)) { errno = EINTR; return -1; }
    if (fault(F_SPURIOUS)) { return 0; }
    const timespec* ts = (const timespec*)a[3];
    count("futex_wait_blocked");
    block(kFut ^ u64(addr), "futex wait", ts ? g_now + abs_ns(ts) : ~0ull);
    if (g_cur->wake_reason == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE) { u32 n = wake(kFut ^ u64(addr), val, true); sync_point(0x50, u64(addr)); return long(n); }
  fail("unmodelled-syscall", strf("futex op %d", op));
}
// --------------------------------------------------------------------------------------------- clocks ----
static void maybe_jump() { if (g_active && fault(F_CLOCK_JUMP)) g_now += 5000000000ull; }
int sim_gettimeofday(struct timeval* tv, void*) { maybe_jump(); tv->tv_sec = time_t(g_now / 1000000000ull); tv->tv_usec = suseconds_t(g_now % 1000000000ull / 1000); return 0; }
int sim_clock_gettime(clockid_t, struct timespec* ts) { maybe_jump(); ts->tv_sec = time_t(g_now / 1000000000ull); ts->tv_nsec = long(g_now % 1000000000ull); return 0; }
time_t sim_time(time_t* t) { time_t v = time_t(g_now / 1000000000ull); if (t) *t = v; return v; }
int sim_nanosleep(const struct timespec* t, struct timespec*) { if (IDLE) return 0; block(kSleep ^ g_cur->id, "sleep", g_now + abs_ns(t)); return 0; }
int sim_usleep(useconds_t us) { if (IDLE) return 0; block(kSleep ^ g_cur->id, "sleep", g_now + u64(us) * 1000); return 0; }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 8; return sysconf(n); }
long sim___sysconf(int n) { return sim_sysconf(n); }
}

// ------------------------------------------------------------------------------------------------ disk -----
namespace sim {
struct Inode { std::vector<u8> cur, durable; std::vector<u8> dirty; bool ever = false; u64 mtime = 0; bool dir = false; };
struct Fd { std::shared_ptr<Inode> ino; u64 pos; int flags; bool open; };
static std::map<std::string, std::shared_ptr<Inode>>* g_files; static std::vector<Fd>* g_fds; static std::map<u64, u64>* g_maps;
namespace fs { u64 reads, writes; }
constexpr int kFdBase = 1000;
void fs_run_begin() { g_files = new std::map<std::string, std::shared_ptr<Inode>>(); g_fds = new std::vector<Fd>(); g_maps = new std::map<u64, u64>(); fs::reads = fs::writes = 0; }
static void mark_dirty(Inode& i, u64 off, u64 n) { u64 sz = off + n > i.cur.size() ? off + n : i.cur.size(); if (i.dirty.size() < (sz + 511) / 512) i.dirty.resize((sz + 511) / 512); for (u64 s = off / 512; n && s <= (off + n - 1) / 512; s++) i.dirty[s] = 1; }
void fs::put(const std::string& p, const void* d, size_t n) { auto i = std::make_shared<Inode>(); i->cur.assign((const u8*)d, (const u8*)d + n); i->durable = i->cur; i->ever = true; i->mtime = g_now; (*g_files)[p] = i; }
bool fs::exists(const std::string& p) { return g_files->count(p) != 0; }
std::vector<u8> fs::get(const std::string& p) { auto it = g_files->find(p); return it == g_files->end() ? std::vector<u8>() : it->second->cur; }
void fs::remove(const std::string& p) { g_files->erase(p); }
int fs::open_fds() { int n = 0; for (auto& f : *g_fds) n += f.open; return n; }
int fs::mapped() { return int(g_maps->size()); }
void fs::crash() {
  record_fault(F_CRASH, g_cur->scope, 0);
  for (auto& f : *g_fds) f.open = false;
  for (auto& kv : *g_files) { Inode& i = *kv.second; if (i.dirty.empty()) continue;
    std::vector<u8> img = i.cur; u64 h = mix3(T.seed, 0xC4A54, hash_bytes(kv.first.data(), kv.first.size()));
    // the size reaches the disk independently of the data
    if (fault(F_TEAR, 30000)) { u64 cut = h % (img.size() + 1); img.resize(cut); }
    for (u64 s = 0; s * 512 < img.size(); s++) { if (s >= i.dirty.size() || !i.dirty[s]) continue;
      u64 b = s * 512, e = b + 512 < img.size() ? b + 512 : img.size();
      if (fault(F_LOST, 14000)) { for (u64 k = b; k < e; k++) img[k] = k < i.durable.size() ? i.durable[k] : u8(mix3(h, s, 1) % 3 == 0 ? mix3(h, 2, k) : 0); }
      else if (fault(F_TEAR, 6000)) { u64 at = b + mix3(h, s, 3) % (e - b); for (u64 k = at; k < e; k++) img[k] = 0; }
      if (fault(F_FLIP, 6000)) { u64 at = b + mix3(h, s, 4) % (e - b); img[at] ^= u8(1u << (mix3(h, s, 5) & 7)); } }
    i.cur = i.durable = img; i.dirty.clear(); }
}
static Fd* fd_of(int fd) { if (fd < kFdBase || size_t(fd - kFdBase) >= g_fds->size() || !(*g_fds)[fd - kFdBase].open) { if (g_active) fail("io:bad-fd", strf("I/O on file descriptor %d which is not open", fd)); return nullptr; } return &(*g_fds)[fd - kFdBase]; }
static int do_open(const char* path, int flags, int) {
  if (IDLE) { errno = ENOENT; return -1; }
  sync_point(0x60, 0);
  if (fault(F_OPEN)) { static const int e[] = {EACCES, EMFILE, ENFILE, ENOENT, EIO, EINTR, ENOMEM, EPERM}; errno = e[mix3(T.seed, 0x09E4, g_ev) % 8]; return -1; }
  auto it = g_files->find(path);
  if (it == g_files->end()) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } auto i = std::make_shared<Inode>(); i->mtime = g_now; (*g_files)[path] = i; it = g_files->find(path); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { it->second->cur.clear(); mark_dirty(*it->second, 0, 1); }
  g_fds->push_back(Fd{it->second, 0, flags, true}); return kFdBase + int(g_fds->size()) - 1;
}
static int fill_stat(const Inode& i, struct stat64* st) { memset(st, 0, sizeof *st); st->st_mode = (i.dir ? S_IFDIR : S_IFREG) | 0644; st->st_size = i64(i.cur.size()); st->st_mtim.tv_sec = time_t(i.mtime / 1000000000ull); st->st_mtim.tv_nsec = long(i.mtime % 1000000000ull); st->st_nlink = 1; st->st_blksize = 4096; return 0; }
static long errsel(std::initializer_list<int> l, u64 salt) { errno = l.begin()[mix3(T.seed, salt, g_ev) % l.size()]; return -1; }
}
extern "C" {
int sim_open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return do_open(p, fl, m); }
int sim_open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return do_open(p, fl, m); }
ssize_t sim_read(int fd, void* b, size_t n) {
  Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x61, 0); fs::reads++;
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (fault(F_READ_ERR)) return errsel({EIO, ENXIO, EAGAIN}, 1); 
  if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
  Inode& i = *f->ino; 
  if (fault(F_SHRINK)) { u64 keep = i.cur.size() ? mix3(T.seed, 0x541, g_ev) % i.cur.size() : 0; i.cur.resize(keep); }
  u64 av = f->pos < i.cur.size() ? i.cur.size() - f->pos : 0; u64 k = n < av ? n : av;
  if (k > 1 && fault(F_READ_SHORT)) k = 1 + mix3(T.seed, 0x5407, g_ev) % (k - 1);
  if (k) { range_access(b, k, true, PC); memcpy(b, i.cur.data() + f->pos, k); } 
  f->pos += k; trace(0x4EAD + (k << 16)); return ssize_t(k);
}
ssize_t sim_write(int fd, const void* b, size_t n) {
  Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x62, 0); fs::writes++;
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (fault(F_WRITE_ERR)) return errsel({EIO, EDQUOT, EFBIG, EAGAIN}, 2);
  if (fault(F_WRITE_NOSPC)) { errno = ENOSPC; return -1; }
  if (fault(F_WRITE_EINTR)) { errno = EINTR; return -1; }
  u64 k = n; if (k > 1 && fault(F_WRITE_SHORT)) k = 1 + mix3(T.seed, 0x5408, g_ev) % (k - 1);
  Inode& i = *f->ino; if (f->flags & O_APPEND) f->pos = i.cur.size();
  if (k && i.cur.size() < f->pos + k) i.cur.resize(f->pos + k);
  if (k) { range_access(b, k, false, PC); memcpy(i.cur.data() + f->pos, b, k); mark_dirty(i, f->pos, k); }
  f->pos += k; i.mtime = g_now; trace(0x3817E + (k << 16)); return ssize_t(k);
}
i64 sim_lseek64(int fd, i64 off, int wh) { Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x63, 0); if (fault(F_SEEK)) return errsel({EOVERFLOW, EINVAL, ESPIPE}, 3);
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? i64(f->pos) : i64(f->ino->cur.size()); i64 r; if (__builtin_add_overflow(base, off, &r)) { errno = EOVERFLOW; return -1; } if (r < 0) { errno = EINVAL; return -1; } f->pos = u64(r); return r; }
i64 sim_lseek(int fd, i64 off, int wh) { return sim_lseek64(fd, off, wh); }
int sim_ftruncate64(int fd, i64 n) { Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x64, 0); if (fault(F_TRUNC)) return int(errsel({EIO, EINTR, EFBIG, EPERM}, 4)); if (n < 0 || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; } f->ino->cur.resize(size_t(n)); mark_dirty(*f->ino, 0, 1); return 0; }
int sim_ftruncate(int fd, i64 n) { return sim_ftruncate64(fd, n); }
int sim_fstat64(int fd, struct stat64* st) { Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x65, 0); if (fault(F_STAT)) return int(errsel({EIO, EOVERFLOW, ENOMEM}, 5)); fill_stat(*f->ino, st); return 0; }
int sim_fstat(int fd, struct stat* st) { return sim_fstat64(fd, (struct stat64*)st); }
int sim_stat64(const char* p, struct stat64* st) { if (IDLE) { errno = ENOENT; return -1; } sync_point(0x66, 0); if (fault(F_STAT)) return int(errsel({EIO, EACCES, ELOOP, ENOMEM}, 6)); auto it = g_files->find(p); if (it == g_files->end()) { errno = ENOENT; return -1; } fill_stat(*it->second, st); return 0; }
int sim_stat(const char* p, struct stat* st) { return sim_stat64(p, (struct stat64*)st); }
int sim_close(int fd) { if (fd < kFdBase) { errno = EBADF; return -1; } Fd* f = fd_of(fd); if (!f) { errno = EBADF; return -1; } sync_point(0x67, 0); f->open = false; if (fault(F_CLOSE)) return int(errsel({EIO, EINTR}, 7)); return 0; }
void* sim_mmap(void* hint, size_t n, int prot, int flags, int fd, i64 off) {
  (void)hint; (void)prot; if (IDLE) { errno = ENOMEM; return MAP_FAILED; }
  sync_point(0x68, 0);
  if (fault(F_MMAP)) { errsel({ENOMEM, EACCES, EAGAIN, ENODEV}, 8); return MAP_FAILED; }
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  u64 len = (n + 4095) & ~4095ull; bool a = g_active; g_active = false; u8* p = (u8*)heap_malloc(len, 4096, true, (void*)PC); g_active = a;
  if (!p) { errno = ENOMEM; return MAP_FAILED; }
  if (!(flags & MAP_ANONYMOUS)) { Fd* f = fd_of(fd); if (!f) { errno = EBADF; return MAP_FAILED; } auto& c = f->ino->cur; if (u64(off) < c.size()) memcpy(p, c.data() + off, c.size() - u64(off) < len ? c.size() - u64(off) : len); }
  (*g_maps)[u64(p)] = len; count("mmap_ok"); return p;
}
void* sim_mmap64(void* h, size_t n, int prot, int flags, int fd, i64 off) { return sim_mmap(h, n, prot, flags, fd, off); }
int sim_munmap(void* p, size_t n) { auto it = g_maps->find(u64(p)); if (it == g_maps->end() || it->second != ((n + 4095) & ~4095ull)) fail("io:bad-munmap", strf("munmap(%p, %zu) does not match a mapping", p, n)); g_maps->erase(it); heap_free(p, (void*)PC); return 0; }
int sim_unlink(const char* p) { if (!g_files->erase(p)) { errno = ENOENT; return -1; } return 0; }
int sim_fsync(int fd) { Fd* f = fd_of(fd); if (!f) return -1; f->ino->durable = f->ino->cur; f->ino->dirty.clear(); return 0; }
int sim_rename(const char* a, const char* b) { auto it = g_files->find(a); if (it == g_files->end()) { errno = ENOENT; return -1; } auto i = it->second; g_files->erase(it); (*g_files)[b] = i; return 0; }
}
