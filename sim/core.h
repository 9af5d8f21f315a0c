// Internal declarations shared by the simulator's translation units.
#pragma once
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <deque>

namespace sim {
constexpr u32 kMaxFibers = 160;
constexpr u64 kArenaBase = 0x200000000000ull;
constexpr u64 kArenaSize = 1ull << 30;
constexpr u64 kStackBase = 0x210000000000ull;
constexpr u64 kStackSlot = 1ull << 20;          // 1 MB per fiber, the lowest 64 kB are a guard
constexpr u64 kStackGuard = 64 << 10;

struct VC {
  u32 c[kMaxFibers];
};
extern u32 g_nfibers;                           // number of fibers created in this run
static inline void vc_join(VC& a, const VC& b) { for (u32 i = 0, n = g_nfibers; i < n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void vc_copy(VC& a, const VC& b) { memcpy(a.c, b.c, g_nfibers * sizeof(u32)); }
static inline void vc_clear(VC& a) { memset(&a, 0, sizeof(a)); }

enum FState : u8 { FS_RUN, FS_BLOCKED, FS_DONE };
struct Fiber {
  u32 id; FState st; bool lib, detached, joined_waiter; u8 wake_reason; // wake_reason: 0 wake, 1 timeout, 2 spurious
  void* sp; char name[24];
  std::function<void()> fn; void* (*cfn)(void*); void* carg; void* ret;
  u64 wait_key; u64 deadline; u64 wait_since; const char* wait_what;
  VC vc, frel, facq; bool has_frel, has_facq;
  u8* tls; int saved_errno;
  u64 pts;                      // scheduling points visited
  u64 ready_since_switch;       // number of switches when became runnable (starvation guard)
  u32 scope; bool no_faults; u64 nfired; std::map<u64, u32> fcount;   // (kind,scope) -> opportunities
  u32 prio; u64 stall_until;
  u32 cs[256]; u32 depth;
  u32 epoch() const { return vc.c[id]; }
};
extern Fiber* g_cur;
extern Fiber* g_fibers[kMaxFibers];
extern bool g_active;           // a run is in progress and instrumented code executes
extern bool g_race_on;          // >= 2 live fibers
extern u64 g_ev, g_next_ev;
extern u64 g_now;
extern RunResult* g_res;
extern const Plan* g_plan;
extern u32 g_live;

void sched_slow();                      // called when g_ev >= g_next_ev
void sync_point(u32 kind, u64 addr);    // scheduling point at a synchronisation operation
void block(u64 key, const char* what, u64 deadline);   // returns when woken; see g_cur->wake_reason
u32  wake(u64 key, u32 max, bool random_pick);         // number of fibers woken
u32  waiters(u64 key);

// heap
void  heap_init();
void* heap_malloc(size_t n, size_t align, bool zero, void* pc);
void  heap_free(void* p, void* pc);
size_t heap_size(void* p);
[[noreturn]] void bad_access(const void* p, size_t n, bool write, u64 pc);
std::string describe_addr(u64 a);

static inline bool in_arena(u64 a) { return a - kArenaBase < kArenaSize; }
#ifndef SIM_ASAN
extern u8* g_hs;                // heap shadow: valid leading bytes of each 8 byte granule (0 = poisoned)
static inline bool heap_ok(u64 a, u64 n) {
  u64 o = a - kArenaBase;
  u64 last = o + n - 1;
  if ((o >> 3) == (last >> 3)) return (last & 7) < g_hs[o >> 3];
  for (u64 g = o >> 3; g < (last >> 3); g++) if (g_hs[g] != 8) return false;
  return (last & 7) < g_hs[last >> 3];
}
void race_reset(u64 a, u64 n);          // memory (re)allocated: forget everything
void race_free(u64 a, u64 n, u64 pc);   // free() counts as a write of the whole block
void race_access(u64 a, u64 n, bool write, bool atomic, u64 pc);
void range_access(const void* p, size_t n, bool write, u64 pc);
#else
static inline void race_reset(u64, u64) {}
static inline void race_free(u64, u64, u64) {}
static inline void race_access(u64, u64, bool, bool, u64) {}
static inline void range_access(const void*, size_t, bool, u64) {}
#endif
void rt_run_begin();

// happens-before helpers for the shims
struct SyncVar { u64 addr; SyncVar* next; VC vc; };
SyncVar* syncvar(u64 addr);
void syncvar_forget(u64 addr);
void hb_acquire(u64 addr);
void hb_release(u64 addr);
void hb_release_join(u64 addr);
static inline void bump_epoch() { g_cur->vc.c[g_cur->id]++; }

void shims_run_begin();
void fs_run_begin();
void fail_pcs(const std::string& sig, const std::string& msg, const std::vector<u64>& pcs);
void record_fault(u32 kind, u32 scope, u32 n);
bool lib_thread_spawn(void* (*fn)(void*), void* arg, bool detached, u32* id);
void fiber_wait_done(u32 id, void** ret);
[[noreturn]] void fiber_exit_current(void* ret);
void run_in_child(const Plan& plan, RunResult* res, const Check& c);
[[noreturn]] void finish(RunStatus st);
}
