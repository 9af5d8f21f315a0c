// Simulated heap: fixed addresses, red zones, allocation faults, garbage fill, leak accounting.
#include "core.h"
#include <sys/mman.h>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace sim {
#ifndef SIM_ASAN
u8* g_hs;
#endif
struct Block { u64 addr, size, cap; u32 live; u32 npc; u32 pcs[8]; u32 freed_by; };
static std::vector<Block>* g_blocks;     // by allocation id
static u64 g_bump; static HeapStats g_hst;
static u64 g_rng;
static i64 g_force_at = -1, g_force_from = -1; static u64 g_seq;
struct Hdr { u64 size; u32 id; u32 magic; };
static std::vector<u64>* g_freelist[64];  // (addr) by size class, LIFO
static bool g_inited;

static u32 size_class(u64 cap) { u32 c = 63 - __builtin_clzll(cap | 1); return c * 1; }
static void poison(u64 a, u64 n) {
#ifndef SIM_ASAN
  memset(g_hs + ((a - kArenaBase) >> 3), 0, (n + 7) >> 3);
#else
  __asan_poison_memory_region((void*)a, n);
#endif
}
static void unpoison(u64 a, u64 n) {
#ifndef SIM_ASAN
  u64 g = (a - kArenaBase) >> 3; memset(g_hs + g, 8, n >> 3); if (n & 7) g_hs[g + (n >> 3)] = u8(n & 7);
#else
  __asan_unpoison_memory_region((void*)a, n);
#endif
}
void heap_init() {
  if (g_inited) return; g_inited = true;
  if (mmap((void*)kArenaBase, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void*)kArenaBase) { fprintf(stderr, "sim: cannot map arena\n"); _exit(97); }
#ifndef SIM_ASAN
  g_hs = (u8*)mmap(nullptr, kArenaSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#else
  __asan_poison_memory_region((void*)kArenaBase, 64 << 20);
#endif
  g_blocks = new std::vector<Block>(); g_bump = kArenaBase + 4096; g_rng = 12345;
  for (auto& f : g_freelist) f = new std::vector<u64>();
}
static void fill_garbage(u64 a, u64 n) {
  u64 pat = mix2(T.garbage, g_seq); u64 i = 0;
  for (; i + 8 <= n; i += 8) memcpy((void*)(a + i), &pat, 8);
  if (i < n) memcpy((void*)(a + i), &pat, n - i);
}
static u64 heap_rand() { g_rng = mix2(g_rng, T.seed); return g_rng; }

u64 alloc_seq() { return g_seq; }
void force_alloc_fail_at(i64 nth) { g_force_at = nth < 0 ? -1 : i64(g_seq) + nth; }
void force_alloc_fail_from(i64 nth) { g_force_from = nth < 0 ? -1 : i64(g_seq) + nth; }

static u32 g_failpcs[8], g_nfail; static std::string* g_failsites;
static void note_failure(void* pc) { g_nfail = 0; g_failpcs[g_nfail++] = u32(u64(pc)); if (g_cur) for (u32 i = g_cur->depth > 256 ? 256 : g_cur->depth; i-- > 0 && g_nfail < 8;) g_failpcs[g_nfail++] = g_cur->cs[i]; }
std::string heap_last_failure(u32 frames) { std::string s; for (u32 i = 0; i < g_nfail && i < frames; i++) s += strf("@0x%x ", g_failpcs[i]); return s; }
void* heap_malloc(size_t n, size_t align, bool zero, void* pc) {
  heap_init();
  u64 seq = g_seq++;
  if (g_active) {
    g_ev++; 
    bool forced = (g_force_at >= 0 && i64(seq) == g_force_at) || (g_force_from >= 0 && i64(seq) >= g_force_from);
    if (forced) record_fault(F_ALLOC, g_cur->scope ? g_cur->scope : 0x800000u + g_cur->id, 0x40000000u);
    if (forced || fault(F_ALLOC) || n > T.alloc_limit || g_hst.live_bytes + n > T.total_limit) { g_hst.failed++; note_failure(pc); if (n > T.alloc_limit) count("alloc_over_limit"); errno = ENOMEM; return nullptr; }
  }
  u64 sz = n ? n : 1; if (align < 16) align = 16;
  u64 need = (sz + 15) & ~15ull;
  u64 addr = 0, cap = need;
  if (align == 16 && T.heap_reuse) {
    u32 c = size_class(need);
    auto& fl = *g_freelist[c];
    size_t lim = T.heap_reuse == 2 ? (fl.size() > 16 ? fl.size() - 16 : 0) : fl.size();
    for (size_t k = 0; k < lim && k < 8; k++) { size_t idx = T.heap_reuse == 1 ? fl.size() - 1 - k : k; Hdr* h = (Hdr*)(fl[idx] - 16); 
#ifdef SIM_ASAN
      __asan_unpoison_memory_region(h, 16);
#endif
      u64 bcap = (*g_blocks)[h->id].cap;
#ifdef SIM_ASAN
      __asan_poison_memory_region(h, 16);
#endif
      if (bcap >= need) { addr = fl[idx]; cap = bcap; fl.erase(fl.begin() + idx); break; } }
  }
  bool fresh = !addr;
  if (!addr) {
    u64 a = g_bump + 16; if (g_active && T.heap_jitter) a += 16 * (heap_rand() % (T.heap_jitter + 1));
    a = (a + align - 1) & ~u64(align - 1);
    if (a + need + 64 > kArenaBase + kArenaSize) { if (g_active) skip("simulated heap exhausted"); _exit(96); }
    addr = a; g_bump = a + need + 16;
  }
  Hdr* h = (Hdr*)(addr - 16);
#ifdef SIM_ASAN
  __asan_unpoison_memory_region(h, 16);
#endif
  h->size = n; h->id = u32(g_blocks->size()); h->magic = 0xA110CA7E;
#ifdef SIM_ASAN
  __asan_poison_memory_region(h, 16);
#endif
  Block b; b.addr = addr; b.size = n; b.cap = cap; b.live = 1; b.npc = 0; b.freed_by = 0; b.pcs[b.npc++] = u32(u64(pc));
  if (g_cur) for (u32 i = g_cur->depth > 256 ? 256 : g_cur->depth; i-- > 0 && b.npc < 8;) b.pcs[b.npc++] = g_cur->cs[i];
  g_blocks->push_back(b);
  g_hst.live_blocks++; g_hst.live_bytes += n; g_hst.total_allocs++;
  unpoison(addr, n ? n : 1);
  if (!n) poison(addr, 1);
  if (!fresh) race_reset(addr, need);
  if (zero) memset((void*)addr, 0, n); else if (g_active && n <= (4u << 20)) fill_garbage(addr, n);
  return (void*)addr;
}
static int find_block(u64 a) {
  for (size_t i = g_blocks->size(); i-- > 0;) { const Block& b = (*g_blocks)[i]; if (a >= b.addr - 16 && a < b.addr + b.cap + 16) return int(i); }
  return -1;
}
static std::string fmt_pcs(const Block& b) { std::string s; for (u32 i = 0; i < b.npc; i++) s += strf(" @0x%x", b.pcs[i]); return s; }
std::string describe_addr(u64 a) {
  int i = find_block(a); if (i < 0) return "not inside any block";
  const Block& b = (*g_blocks)[i];
  return strf("offset %lld of a %llu-byte block (allocation %d, %s) allocated by%s", (long long)(a - b.addr), (unsigned long long)b.size, i, b.live ? "live" : "already freed", fmt_pcs(b).c_str()) + (b.live ? "" : strf(" freed by @0x%x", b.freed_by));
}
size_t heap_size(void* p) { int i = find_block(u64(p)); return i < 0 ? 0 : (*g_blocks)[i].size; }
void heap_free(void* p, void* pc) {
  if (!p) return;
  u64 a = u64(p);
  if (!in_arena(a)) { if (g_res) fail("heap:bad-free", strf("free(%p) of a pointer that was not allocated", p)); _exit(95); }
  Hdr* h = (Hdr*)(a - 16);
#ifdef SIM_ASAN
  __asan_unpoison_memory_region(h, 16);
#endif
  Hdr hc = *h;
#ifdef SIM_ASAN
  __asan_poison_memory_region(h, 16);
#endif
  if ((a & 15) || hc.magic != 0xA110CA7E || hc.id >= g_blocks->size() || (*g_blocks)[hc.id].addr != a) fail("heap:bad-free", strf("free(%p) of a pointer that is not the start of a block: ", p) + describe_addr(a));
  Block& b = (*g_blocks)[hc.id];
  if (!b.live) fail("heap:double-free", strf("double free of %p: ", p) + describe_addr(a));
  race_free(a, b.size, u64(pc));
  b.live = 0; b.freed_by = u32(u64(pc)); g_hst.live_blocks--; g_hst.live_bytes -= b.size; g_hst.total_frees++;
  if (g_active) { g_ev++; u64 n = b.size < 4096 ? b.size : 4096; u64 pat = 0xDDDDDDDDDDDDDDDDull;
#ifdef SIM_ASAN
    __asan_unpoison_memory_region((void*)a, n);
#endif
    for (u64 i = 0; i + 8 <= n; i += 8) memcpy((void*)(a + i), &pat, 8); }
  poison(a, b.cap);
  g_freelist[size_class(b.cap)]->push_back(a);
}
HeapStats heap_stats() { return g_hst; }
u64 heap_mark() { return g_blocks ? g_blocks->size() : 0; }
u64 heap_live_since(u64 mark) { u64 n = 0; for (size_t i = mark; i < g_blocks->size(); i++) n += (*g_blocks)[i].live; return n; }
std::string heap_describe_live(u64 since, int max_items, std::string* sig) {
  std::string s; int k = 0;
  for (size_t i = since; i < g_blocks->size(); i++) { const Block& b = (*g_blocks)[i]; if (!b.live) continue; if (k++ < max_items) s += strf("  leaked %llu bytes (allocation %zu) by", (unsigned long long)b.size, i) + fmt_pcs(b) + "\n"; if (sig && sig->empty()) for (u32 j = 0; j < b.npc && j < 4; j++) *sig += strf("@0x%x ", b.pcs[j]); }
  return s;
}
bool heap_addressable(const void* p, size_t n) {
#ifndef SIM_ASAN
  if (!in_arena(u64(p))) return true; return n == 0 || heap_ok(u64(p), n);
#else
  return __asan_region_is_poisoned((void*)p, n) == nullptr;
#endif
}
void* user_alloc(size_t n) { bool a = g_active; g_active = false; void* p = heap_malloc(n, 16, false, nullptr); g_active = a; return p; }
void user_free(void* p) { heap_free(p, nullptr); }

[[noreturn]] void bad_access(const void* p, size_t n, bool write, u64 pc) {
  u64 a = u64(p);
#ifndef SIM_ASAN
  for (u64 i = 0; i < n; i++) if (!heap_ok(u64(p) + i, 1)) { a = u64(p) + i; break; }
#endif
  int i = find_block(a); const char* kind = i < 0 ? "wild" : !(*g_blocks)[i].live ? "use-after-free" : "out-of-bounds";
  std::vector<u64> pcs; pcs.push_back(pc);
  for (u32 k = g_cur->depth > 256 ? 256 : g_cur->depth, m = 0; k-- > 0 && m < 20; m++) pcs.push_back(g_cur->cs[k]);
  if (i >= 0) { pcs.push_back(0); const Block& b = (*g_blocks)[i]; for (u32 j = 0; j < b.npc; j++) pcs.push_back(b.pcs[j]); }
  fail_pcs(strf("memory:%s-%s", kind, write ? "write" : "read"), strf("heap %s: %s of %zu bytes at %p by fiber %u (%s): ", kind, write ? "write" : "read", n, p, g_cur->id, g_cur->name) + describe_addr(a), pcs);
  abort();
}
}
