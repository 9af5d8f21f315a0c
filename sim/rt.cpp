// Runtime behind the compiler's thread instrumentation (-fsanitize=thread, linked without libtsan): every
// memory access of the library reaches this file. It checks heap validity, detects data races with vector
// clocks honouring the C++ memory orders (including fences), and provides preemption points.
#include "core.h"
#include <sys/mman.h>
#include <unordered_map>
#include <atomic>

extern "C" char __data_start, _end, __executable_start, etext;

namespace sim {
// ------------------------------------------------------------------------------------------- sync vars ---
static std::unordered_map<u64, SyncVar*>* g_sv_other;
static u32* g_sv_idx;                      // arena granule -> first syncvar (index + 1)
static std::vector<SyncVar*>* g_sv;
SyncVar* syncvar(u64 addr) {
  if (in_arena(addr)) {
    u32& slot = g_sv_idx[(addr - kArenaBase) >> 3];
    for (SyncVar* v = slot ? (*g_sv)[slot - 1] : nullptr; v; v = v->next) if (v->addr == addr) return v;
    SyncVar* v = new SyncVar(); v->addr = addr; v->next = slot ? (*g_sv)[slot - 1] : nullptr; vc_clear(v->vc);
    g_sv->push_back(v); slot = u32(g_sv->size()); return v;
  }
  SyncVar*& v = (*g_sv_other)[addr]; if (!v) { v = new SyncVar(); v->addr = addr; vc_clear(v->vc); } return v;
}
void syncvar_forget(u64 addr) { vc_clear(syncvar(addr)->vc); }
void hb_acquire(u64 a) { vc_join(g_cur->vc, syncvar(a)->vc); }
void hb_release(u64 a) { SyncVar* s = syncvar(a); vc_copy(s->vc, g_cur->vc); bump_epoch(); }
void hb_release_join(u64 a) { SyncVar* s = syncvar(a); vc_join(s->vc, g_cur->vc); bump_epoch(); }

#ifdef SIM_ASAN
void rt_run_begin() { if (!g_sv_other) { g_sv_other = new std::unordered_map<u64, SyncVar*>(); g_sv = new std::vector<SyncVar*>(); } }
}
#else
// -------------------------------------------------------------------------------------------- shadow -----
// cell: clk 24 | tid 8 | mask 8 | write 1 | atomic 1 | pc 22 ((pc - base) >> 3)
static u64* g_sh_arena; static u64* g_sh_glob; static u64 g_glob_lo, g_glob_hi; static u64 g_text_lo;
void rt_run_begin() {
  heap_init();
  g_sv_other = new std::unordered_map<u64, SyncVar*>(); g_sv = new std::vector<SyncVar*>();
  auto map = [](u64 n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  g_sv_idx = (u32*)map(kArenaSize / 8 * 4);
  g_sh_arena = (u64*)map(kArenaSize * 4);
  g_glob_lo = u64(&__data_start) & ~7ull; g_glob_hi = u64(&_end);
  g_sh_glob = (u64*)map((g_glob_hi - g_glob_lo + 16) * 4);
  g_text_lo = u64(&__executable_start);
}
static inline u64 mkcell(u32 clk, u32 tid, u32 mask, bool w, bool at, u64 pc) {
  return u64(clk & 0xFFFFFF) << 40 | u64(tid) << 32 | u64(mask) << 24 | u64(w) << 23 | u64(at) << 22 | (((pc - g_text_lo) >> 3) & 0x3FFFFF);
}
static void race_report(u64 addr, u64 n, u64 cur, u64 old, u64 pc) __attribute__((noinline));
static void race_report(u64 addr, u64 n, u64 cur, u64 old, u64 pc) {
  u32 ot = (old >> 32) & 255; u64 opc = ((old & 0x3FFFFF) << 3) + g_text_lo + 4;
  std::vector<u64> pcs; pcs.push_back(pc);
  for (u32 k = g_cur->depth > 256 ? 256 : g_cur->depth, m = 0; k-- > 0 && m < 12; m++) pcs.push_back(g_cur->cs[k]);
  pcs.push_back(0); pcs.push_back(opc);
  std::string where = in_arena(addr) ? describe_addr(addr) : strf("global data @0x%llx", (unsigned long long)addr);
  fail_pcs("race", strf("data race: %s%s of %llu bytes by fiber %u (%s) @0x%llx conflicts with earlier %s%s by fiber %u (%s) @0x%llx, not ordered by happens-before; ",
    (cur >> 22) & 1 ? "atomic " : "", (cur >> 23) & 1 ? "write" : "read", (unsigned long long)n, g_cur->id, g_cur->name, (unsigned long long)pc,
    (old >> 22) & 1 ? "atomic " : "", (old >> 23) & 1 ? "write" : "read", ot, g_fibers[ot]->name, (unsigned long long)opc) + where, pcs);
}
static inline __attribute__((always_inline)) void race_granule(u64* cells, u64 cur, u64 addr, u64 n, u64 pc) {
  const u32 tid = g_cur->id; const u32* vc = g_cur->vc.c;
  const u32 mask = (cur >> 24) & 255; const bool w = (cur >> 23) & 1, at = (cur >> 22) & 1;
  int place = -1, empty = -1;
  for (int i = 0; i < 4; i++) {
    u64 c = cells[i];
    if (!c) { if (empty < 0) empty = i; continue; }
    u32 cm = (c >> 24) & 255;
    if (!(cm & mask)) continue;
    u32 ct = (c >> 32) & 255; bool cw = (c >> 23) & 1, ca = (c >> 22) & 1;
    if (ct == tid) {
      if (cm == mask && (w || !cw) && (!at || ca)) { if (place < 0) place = i; }
      else if (cm == mask && cw && !w && u32(c >> 40) == (vc[tid] & 0xFFFFFF) && (at || !ca)) return;   // an equal or stronger access of this epoch is stored
      continue;
    }
    bool hb = (vc[ct] & 0xFFFFFF) >= u32(c >> 40);
    if (hb) { if (place < 0 && (cm & ~mask) == 0 && (w || !cw) && (!at || ca)) place = i; continue; }
    if (!w && !cw) continue;
    if (at && ca) continue;
    race_report(addr, n, cur, c, pc);
  }
  if (place < 0) place = empty;
  if (place < 0) { place = int((g_ev ^ (g_ev >> 7)) & 3); }
  cells[place] = cur;
}
static inline u64* cells_of(u64 a) {
  if (in_arena(a)) return g_sh_arena + ((a - kArenaBase) >> 3) * 4;
  if (a - g_glob_lo < g_glob_hi - g_glob_lo) return g_sh_glob + ((a - g_glob_lo) >> 3) * 4;
  return nullptr;
}
void race_access(u64 a, u64 n, bool w, bool at, u64 pc) {
  if (!g_race_on || !n) return;
  u64* cells = cells_of(a); if (!cells) return;
  u64 end = a + n; u32 clk = g_cur->epoch(), tid = g_cur->id;
  u64 g = a & ~7ull;
  while (g < end) {
    u32 lo = g < a ? u32(a - g) : 0, hi = g + 8 > end ? u32(end - g) : 8;
    u32 mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
    race_granule(cells, mkcell(clk, tid, mask, w, at, pc), a, n, pc);
    g += 8; cells += 4;
  }
}
void race_reset(u64 a, u64 n) {
  if (!g_sh_arena) return;
  memset(g_sh_arena + ((a - kArenaBase) >> 3) * 4, 0, ((n + 7) >> 3) * 32);
  memset(g_sv_idx + ((a - kArenaBase) >> 3), 0, ((n + 7) >> 3) * 4);
}
void race_free(u64 a, u64 n, u64 pc) { if (g_active) race_access(a, n, true, false, pc); }

static inline __attribute__((always_inline)) void access(const void* p, u64 n, bool w, u64 pc) {
  if (!g_active) return;
  if (__builtin_expect(++g_ev >= g_next_ev, 0)) sched_slow();
  u64 a = u64(p);
  if (in_arena(a)) {
    if (__builtin_expect(!heap_ok(a, n), 0)) bad_access(p, n, w, pc);
    if (!g_race_on) return;
    u64* cells = g_sh_arena + ((a - kArenaBase) >> 3) * 4; u32 off = a & 7;
    if (off + n <= 8) race_granule(cells, mkcell(g_cur->epoch(), g_cur->id, ((1u << n) - 1) << off, w, false, pc), a, n, pc);
    else race_access(a, n, w, false, pc);
  } else if (g_race_on && a - g_glob_lo < g_glob_hi - g_glob_lo) race_access(a, n, w, false, pc);
}
void range_access(const void* p, size_t n, bool w, u64 pc) {
  if (!g_active || !n) return;
  if (++g_ev >= g_next_ev) sched_slow();
  u64 a = u64(p);
  if (in_arena(a)) { if (!heap_ok(a, n)) bad_access(p, n, w, pc); race_access(a, n, w, false, pc); }
  else race_access(a, n, w, false, pc);
}
// -------------------------------------------------------------------------------------------- atomics ----
static void atomic_enter(const volatile void* p, u64 n, u64 pc) {
  sync_point(0xA7, u64(p));
  u64 a = u64(p);
  if (in_arena(a) && !heap_ok(a, n)) bad_access((const void*)p, n, true, pc);
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(u64 a, int mo) {
  if (!g_race_on) return;
  SyncVar* s = syncvar(a);
  if (is_acq(mo)) vc_join(g_cur->vc, s->vc);
  else { if (!g_cur->has_facq) { g_cur->has_facq = true; vc_clear(g_cur->facq); } vc_join(g_cur->facq, s->vc); }
}
static void at_store(u64 a, int mo, bool rmw) {
  if (!g_race_on && g_live < 2) { if (!rmw) { /* keep it ordered for later threads */ SyncVar* s = syncvar(a); vc_copy(s->vc, g_cur->vc); } return; }
  SyncVar* s = syncvar(a);
  if (!rmw) vc_clear(s->vc);
  if (is_rel(mo)) { vc_join(s->vc, g_cur->vc); bump_epoch(); }
  else if (g_cur->has_frel) vc_join(s->vc, g_cur->frel);
}
static void fence(int mo) {
  sync_point(0xFE, 0);
  if (is_acq(mo) && g_cur->has_facq) vc_join(g_cur->vc, g_cur->facq);
  if (is_rel(mo)) { g_cur->frel = g_cur->vc; g_cur->has_frel = true; bump_epoch(); }
}
}
using namespace sim;
#define PC u64(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g_active) { Fiber* f = g_cur; if (f->depth < 256) f->cs[f->depth] = u32(u64(pc)); f->depth++; } }
void __tsan_func_exit() { if (g_active) g_cur->depth--; }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { range_access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { range_access(p, n, true, PC); }
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_atomic_thread_fence(int mo) { if (g_active) fence(mo); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (g_active) { atomic_enter(a, sizeof(T), PC); race_access(u64(a), sizeof(T), false, true, PC); at_load(u64(a), mo); } return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (g_active) { atomic_enter(a, sizeof(T), PC); race_access(u64(a), sizeof(T), true, true, PC); at_store(u64(a), mo, false); } *a = v; } \
  static T rmw##bits(volatile T* a, int mo, u64 pc) { if (g_active) { atomic_enter(a, sizeof(T), pc); race_access(u64(a), sizeof(T), true, true, pc); at_load(u64(a), mo); at_store(u64(a), mo, true); } return *a; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { T o = rmw##bits(a, mo, PC); *a = T(~(o & v)); return o; } \
  static int cas##bits(volatile T* a, T* e, T v, int mo, int fmo, u64 pc) { \
    if (g_active) atomic_enter(a, sizeof(T), pc); \
    if (*a == *e) { if (g_active) { race_access(u64(a), sizeof(T), true, true, pc); at_load(u64(a), mo); at_store(u64(a), mo, true); } *a = v; return 1; } \
    if (g_active) { race_access(u64(a), sizeof(T), false, true, pc); at_load(u64(a), fmo); } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { \
    if (g_active && fault(F_SPURIOUS, 1024)) { atomic_enter(a, sizeof(T), PC); race_access(u64(a), sizeof(T), false, true, PC); at_load(u64(a), fmo); *e = *a; return 0; } \
    return cas##bits(a, e, v, mo, fmo, PC); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##bits(a, &e, v, mo, fmo, PC); return e; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
}
#endif
