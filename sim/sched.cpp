// Fibers, scheduler, simulated time, fault decisions, run life cycle.
#include "core.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include <set>

namespace sim {
const char* const kFaultNames[F_KIND_COUNT] = {
  "alloc_failure", "thread_create_failure", "thread_attr_failure", "spurious_wakeup", "early_timeout", "thread_stall", "futex_eintr",
  "open_error", "read_error", "short_read", "read_eintr", "write_error", "short_write", "write_eintr", "disk_full",
  "seek_error", "truncate_error", "stat_error", "close_error", "mmap_error", "crash", "bit_flip", "torn_write", "lost_write", "clock_jump", "file_shrink", "stat_size_lie"
};

Tuning T;
u32 g_nfibers; Fiber* g_cur; Fiber* g_fibers[kMaxFibers]; bool g_active; bool g_race_on;
u64 g_ev, g_next_ev = ~0ull, g_now; RunResult* g_res; const Plan* g_plan; u32 g_live;
bool g_minimising; u64 g_run_index;

static u64 g_thash, g_shash, g_ohash, g_switches;
static bool g_faults_on; static std::set<FaultId> g_fault_set; static std::set<u32> g_drop;
static size_t g_sched_pos; static u64 g_fault_fired[F_KIND_COUNT];
static u64 g_pct_next[16]; static u32 g_pct_n; static u32 g_starve; static bool g_quiet; static u32 g_max_lib, g_lib_live;
static u64 g_sw_limit_start; static bool g_idle_waiter; 
static u64 g_run_seed, g_t0;

std::string strf(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
u64 hash_bytes(const void* p, size_t n) {
  const u8* b = (const u8*)p; u64 h = 0xcbf29ce484222325ull ^ n;
  while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
  u64 v = 0; memcpy(&v, b, n); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32; return h;
}
void trace(u64 v) { g_thash = mix2(g_thash, v); }
void out(u64 v) { g_ohash = mix2(g_ohash, v); trace(v); }

void count(const char* name, u64 add) {
  if (!g_res) return;
  RunResult& r = *g_res;
  for (u32 i = 0; i < r.ncounters; i++) if (!strcmp(r.counters[i].name, name)) { r.counters[i].v += add; return; }
  if (r.ncounters < kMaxCounters) { strncpy(r.counters[r.ncounters].name, name, 39); r.counters[r.ncounters].v = add; r.ncounters++; }
}
void note_nontrivial() { if (g_res) g_res->nontrivial = 1; }
void sample(const std::string& s) { if (g_res && !g_res->sample[0]) strncpy(g_res->sample, s.c_str(), sizeof(g_res->sample) - 1); }

[[noreturn]] void finish(RunStatus st) {
  g_active = false;
  RunResult& r = *g_res;
  r.trace_hash = mix2(g_thash, g_ev); r.sched_hash = g_shash; r.out_hash = g_ohash; r.events = g_ev; r.sim_ns = g_now - g_t0; r.switches = g_switches;
  for (u32 k = 0; k < F_KIND_COUNT; k++) r.faults_fired[k] = g_fault_fired[k];
  r.status = st;
  _exit(0);
}
void fail_pcs(const std::string& sig, const std::string& msg, const std::vector<u64>& pcs) {
  RunResult& r = *g_res; g_active = false;
  strncpy(r.sig, sig.c_str(), sizeof(r.sig) - 1);
  strncpy(r.msg, msg.c_str(), sizeof(r.msg) - 1);
  r.npcs = 0; for (u64 p : pcs) if (r.npcs < 64) r.pcs[r.npcs++] = p;
  trace(hash_bytes(sig.data(), sig.size()));
  finish(RUN_VIOLATION);
}
static void cur_stack(std::vector<u64>& pcs) {
  if (!g_cur) return;
  pcs.push_back(0);
  for (u32 i = g_cur->depth > 256 ? 256 : g_cur->depth, n = 0; i-- > 0 && n < 24; n++) pcs.push_back(g_cur->cs[i]);
}
[[noreturn]] void fail(const std::string& sig, const std::string& msg) {
  std::vector<u64> pcs; cur_stack(pcs); fail_pcs(sig, msg, pcs); abort();
}
[[noreturn]] void skip(const std::string& why) { strncpy(g_res->msg, why.c_str(), sizeof(g_res->msg) - 1); finish(RUN_SKIP); }
[[noreturn]] void harness_error(const std::string& why) { strncpy(g_res->msg, why.c_str(), sizeof(g_res->msg) - 1); finish(RUN_ERROR); }

// ---------------------------------------------------------------------------------------------- fibers ---
extern "C" void sim_switch(void** from_sp, void* to_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static u8* g_tls_ptr; static size_t g_tls_size; static const u8* g_tls_init; static size_t g_tls_filesz;
static void find_tls() {
  if (g_tls_ptr || g_tls_size) return;
  dl_iterate_phdr([](dl_phdr_info* info, size_t, void*) -> int {
    for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_TLS) {
      const auto& ph = info->dlpi_phdr[i];
      size_t sz = (ph.p_memsz + ph.p_align - 1) & ~(size_t(ph.p_align) - 1);
      g_tls_size = sz; g_tls_ptr = (u8*)__builtin_thread_pointer() - sz;
      g_tls_init = (const u8*)(info->dlpi_addr + ph.p_vaddr); g_tls_filesz = ph.p_filesz;
    }
    return 1;  // the executable is the first object
  }, nullptr);
}

static void fiber_entry();
static Fiber* new_fiber(const char* name) {
  if (g_nfibers >= kMaxFibers) skip("fiber limit of the harness reached");
  Fiber* f = new Fiber();
  f->id = g_nfibers; g_fibers[g_nfibers++] = f; strncpy(f->name, name, sizeof(f->name) - 1);
  f->st = FS_RUN; f->deadline = ~0ull; f->tls = (u8*)calloc(1, g_tls_size + 1);
  memcpy(f->tls, g_tls_init, g_tls_filesz);
  char* lo = (char*)(kStackBase + f->id * kStackSlot);
  if (mmap(lo, kStackSlot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != lo) harness_error("mmap stack");
  mprotect(lo, kStackGuard, PROT_NONE);
  u64* top = (u64*)(lo + kStackSlot - 64);
  *--top = 0;                       // alignment
  *--top = (u64)&fiber_entry;       // return address
  for (int i = 0; i < 6; i++) *--top = 0;
  *--top = 0; u32 mx; u16 cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  ((u32*)top)[0] = mx; ((u32*)top)[1] = cw;
  f->sp = top; f->prio = u32(mix3(g_run_seed, 0x9110, f->id)) | 0x10000;
  g_live++;
  f->vc.c[f->id] = 1;
  if (g_cur) { u32 own = g_cur->epoch(); (void)own; vc_join(f->vc, g_cur->vc); bump_epoch(); }
  if (g_live >= 2) g_race_on = true;
  f->ready_since_switch = g_switches;
  return f;
}
static void switch_to(Fiber* n) {
  Fiber* o = g_cur;
  if (o == n) return;
  g_switches++;
  g_shash = mix3(g_shash, o->id * 1000 + n->id, o->pts);
  trace(n->id + (g_ev << 8));
  o->saved_errno = errno;
  if (g_tls_size) { memcpy(o->tls, g_tls_ptr, g_tls_size); memcpy(g_tls_ptr, n->tls, g_tls_size); }
  errno = n->saved_errno;
  o->ready_since_switch = g_switches;
  g_cur = n;
  sim_switch(&o->sp, n->sp);
}
static u64 main_fiber_result;
static void fiber_entry() {
  Fiber* f = g_cur;
  void* ret = nullptr;
  if (f->cfn) ret = f->cfn(f->carg); else f->fn();
  fiber_exit_current(ret);
}
static u64 done_key(u32 id) { return 0xD0E0000000000000ull + id; }
static void reschedule(bool must);

[[noreturn]] void fiber_exit_current(void* ret) {
  Fiber* f = g_cur; f->ret = ret;
  if (f->id == 0) finish(RUN_OK);
  hb_release(done_key(f->id));
  g_ev++; f->st = FS_DONE; g_live--; if (f->lib) g_lib_live--;
  trace(0xDEAD0000 + f->id);
  wake(done_key(f->id), ~0u, false);
  reschedule(true);
  abort();
}
void fiber_wait_done(u32 id, void** ret) {
  while (g_fibers[id]->st != FS_DONE) block(done_key(id), "join", ~0ull);
  hb_acquire(done_key(id));
  if (ret) *ret = g_fibers[id]->ret;
}
bool lib_thread_spawn(void* (*fn)(void*), void* arg, bool detached, u32* id) {
  Fiber* f = new_fiber("lib"); f->cfn = fn; f->carg = arg; f->lib = true; f->detached = detached; *id = f->id;
  snprintf(f->name, sizeof f->name, "lib%u", f->id);
  g_lib_live++; if (g_lib_live > g_max_lib) g_max_lib = g_lib_live;
  return true;
}
int spawn(const char* name, std::function<void()> fn) {
  Fiber* f = new_fiber(name); f->fn = std::move(fn); sync_point(1, f->id); return int(f->id);
}
void join(int id) { fiber_wait_done(u32(id), nullptr); }
int self() { return int(g_cur->id); }
u64 now_ns() { return g_now; }
u64 event_seq() { return ++g_ev; }
int live_fibers() { return int(g_live); }
int live_lib_threads() { return int(g_lib_live); }
int max_lib_threads() { return int(g_max_lib); }
void quiesce_sched(bool on) { g_quiet = on; }

// ------------------------------------------------------------------------------------------- scheduling ---
static bool runnable(Fiber* f) { return f->st == FS_RUN && f->stall_until <= g_now; }

static std::string dump_fibers() {
  std::string s;
  for (u32 i = 0; i < g_nfibers; i++) { Fiber* f = g_fibers[i]; if (f->st == FS_DONE) continue;
    s += strf("  fiber %u (%s) %s%s%s\n", f->id, f->name, f->st == FS_RUN ? "runnable" : "blocked in ", f->st == FS_RUN ? "" : f->wait_what,
      f->deadline != ~0ull && f->st == FS_BLOCKED ? " (timed)" : ""); }
  return s;
}
static u64 next_access_gap() {
  if (!T.access_mean || g_quiet) return ~0ull >> 2;
  u64 h = mix3(g_run_seed, g_cur->id * 7919 + 13, g_cur->pts); double u = double((h >> 11) + 1) / 9007199254740993.0;
  u64 g = 1 + u64(-__builtin_log(u) * double(T.access_mean)); return g;
}
static void arm() {
  if (g_plan && g_plan->sched_explicit) {
    g_next_ev = T.max_events;
    if (g_sched_pos < g_plan->sched.size() && g_plan->sched[g_sched_pos].ev < g_next_ev) g_next_ev = g_plan->sched[g_sched_pos].ev;
  } else { u64 n = g_ev + next_access_gap(); g_next_ev = n < T.max_events ? n : T.max_events; }
}
static void record_dev(u32 fiber) {
  RunResult& r = *g_res;
  if (r.nsched < sizeof(r.sched) / sizeof(r.sched[0])) r.sched[r.nsched] = SchedDev{g_ev, fiber};
  r.nsched++;
}
static u32 g_cand[kMaxFibers];
static u32 collect(bool incl_cur) {
  u32 n = 0;
  for (u32 i = 0; i < g_nfibers; i++) if (runnable(g_fibers[i]) && (incl_cur || g_fibers[i] != g_cur)) g_cand[n++] = i;
  return n;
}
// Advances the simulated clock to the next timer when nothing is runnable. False: nothing can ever happen.
static bool advance_time() {
  u64 best = ~0ull;
  for (u32 i = 0; i < g_nfibers; i++) { Fiber* f = g_fibers[i];
    if (f->st == FS_BLOCKED && f->deadline < best) best = f->deadline;
    if (f->st == FS_RUN && f->stall_until > g_now && f->stall_until < best) best = f->stall_until; }
  if (best == ~0ull) return false;
  if (best > g_now) g_now = best;
  for (u32 i = 0; i < g_nfibers; i++) { Fiber* f = g_fibers[i];
    if (f->st == FS_BLOCKED && f->deadline <= g_now) { f->st = FS_RUN; f->wake_reason = 1; f->deadline = ~0ull; f->ready_since_switch = g_switches; } }
  return true;
}
// Chooses the next fiber; `must`: the current fiber cannot continue.
static void reschedule(bool must) {
  if (g_ev >= T.max_events)
    fail("livelock", strf("no completion within %llu simulated events; fibers:\n%s", (unsigned long long)T.max_events, dump_fibers().c_str()));
  u32 n;
  for (;;) {
    n = collect(true);
    if (n) break;
    if (g_idle_waiter && g_fibers[0]->st == FS_BLOCKED && g_fibers[0]->wait_key == 0x1D1E) { g_fibers[0]->st = FS_RUN; g_fibers[0]->wake_reason = 0; continue; }
    if (!advance_time()) {
      std::vector<u64> pcs; for (u32 i = 0; i < g_nfibers && pcs.size() < 56; i++) { Fiber* f = g_fibers[i]; if (f->st != FS_BLOCKED) continue; pcs.push_back(0);
        for (u32 k = f->depth > 256 ? 256 : f->depth, m = 0; k-- > 0 && m < 8; m++) pcs.push_back(f->cs[k]); }
      fail_pcs("deadlock", "no fiber is runnable and no timer is pending; fibers:\n" + dump_fibers(), pcs);
    }
  }
  if (g_plan->sched_explicit) {
    u32 pick = must ? g_cand[0] : g_cur->id;
    while (g_sched_pos < g_plan->sched.size() && g_plan->sched[g_sched_pos].ev < g_ev) g_sched_pos++;
    if (g_sched_pos < g_plan->sched.size() && g_plan->sched[g_sched_pos].ev == g_ev) {
      u32 want = g_plan->sched[g_sched_pos++].fiber;
      for (u32 i = 0; i < n; i++) if (g_cand[i] == want) pick = want;
    }
    if (pick != (must ? g_cand[0] : g_cur->id)) record_dev(pick);
    arm(); switch_to(g_fibers[pick]); return;
  }
  u32 pick = g_cand[0]; bool decided = false;
  u64 h = mix3(g_run_seed, 0x5C4ED, mix2(g_cur->id, g_cur->pts));
  // starvation guard: a runnable fiber is never left out for more than 20000 switches
  if ((g_switches & 63) == 0) for (u32 i = 0; i < n; i++) if (g_switches - g_fibers[g_cand[i]]->ready_since_switch > 20000 && g_cand[i] != g_cur->id) { pick = g_cand[i]; decided = true; break; }
  if (!decided) switch (T.strategy) {
    default:
    case 0: pick = g_cand[h % n]; break;
    case 1: { u32 best = 0; pick = g_cand[0]; for (u32 i = 0; i < n; i++) if (g_fibers[g_cand[i]]->prio >= best) { best = g_fibers[g_cand[i]]->prio; pick = g_cand[i]; } break; }
    case 2: { u32 m = 0; for (u32 i = 0; i < n; i++) if (g_cand[i] % 5 != g_starve) g_cand[m++] = g_cand[i]; if (m) pick = g_cand[h % m]; else pick = g_cand[h % n]; break; }
    case 3: { u32 i = 0; while (i < n && g_cand[i] <= g_cur->id) i++; pick = g_cand[i < n ? i : 0]; break; }
  }
  u32 dflt = must ? g_cand[0] : g_cur->id;
  if (pick != dflt) record_dev(pick);
  g_cur->pts++;
  arm();
  switch_to(g_fibers[pick]);
}
static void pct_tick() {
  if (T.strategy != 1) return;
  for (u32 i = 0; i < g_pct_n; i++) if (g_pct_next[i] && g_ev >= g_pct_next[i]) { g_cur->prio = i + 1; g_pct_next[i] = 0; }
}
void sched_slow() {
  if (!g_active) { g_next_ev = ~0ull; return; }
  if (g_ev >= T.max_events) reschedule(false);
  if (g_quiet) { arm(); if (g_next_ev <= g_ev) g_next_ev = g_ev + 1; return; }
  g_cur->pts++;
  pct_tick();
  reschedule(false);
}
void sync_point(u32 kind, u64 addr) {
  if (!g_active) return;
  g_ev++; g_cur->pts++; g_now += 20; (void)addr;
  trace(kind + (u64(g_cur->id) << 8));
  if (g_quiet) return;
  if (g_ev >= T.max_events) { reschedule(false); return; }
  if (g_live >= 2 && T.fault[F_STALL] && g_cur->lib && fault(F_STALL)) { g_cur->stall_until = g_now + 1000 + (mix3(g_run_seed, 0x57A11, fault_count_in_scope(F_STALL)) % 4000000); reschedule(true); return; }
  if (g_plan->sched_explicit) {
    if (g_ev >= g_next_ev) reschedule(false);
    return;
  }
  if (g_live < 2) return;
  pct_tick();
  if (T.strategy == 1) { reschedule(false); return; }
  if (T.sync_den && mix3(g_run_seed, 0x5337 + g_cur->id, g_cur->pts) % T.sync_den == 0) reschedule(false);
}
void yield_point() { sync_point(2, 0); }
void block(u64 key, const char* what, u64 deadline) {
  Fiber* f = g_cur;
  g_ev++; f->pts++;
  trace(0xB10C + (u64(f->id) << 32));
  f->st = FS_BLOCKED; f->wait_key = key; f->wait_what = what; f->deadline = deadline; f->wake_reason = 0; f->wait_since = g_switches;
  reschedule(true);
}
u32 waiters(u64 key) { u32 n = 0; for (u32 i = 0; i < g_nfibers; i++) if (g_fibers[i]->st == FS_BLOCKED && g_fibers[i]->wait_key == key) n++; return n; }
u32 wake(u64 key, u32 max, bool random_pick) {
  u32 c[kMaxFibers], n = 0, woken = 0;
  for (u32 i = 0; i < g_nfibers; i++) if (g_fibers[i]->st == FS_BLOCKED && g_fibers[i]->wait_key == key) c[n++] = i;
  while (n && woken < max) {
    u32 k = random_pick ? u32(mix3(g_run_seed, 0x3A4E, g_ev + woken) % n) : 0;
    Fiber* f = g_fibers[c[k]]; c[k] = c[--n]; f->st = FS_RUN; f->wake_reason = 0; f->deadline = ~0ull; f->ready_since_switch = g_switches; woken++;
  }
  return woken;
}
bool others_idle() { return collect(false) == 0; }
void run_others_until_idle(u64 limit) {
  if (g_cur->id != 0) harness_error("run_others_until_idle outside fiber 0");
  u64 s0 = g_switches; g_idle_waiter = true;
  // block fiber 0 until nobody else is runnable (stalled fibers are given their time)
  for (;;) {
    bool stalled = false; for (u32 i = 1; i < g_nfibers; i++) if (g_fibers[i]->st == FS_RUN) stalled = true;
    if (!stalled) break;
    for (u32 i = 1; i < g_nfibers; i++) if (g_fibers[i]->st == FS_RUN && g_fibers[i]->stall_until > g_now) g_now = g_fibers[i]->stall_until;
    block(0x1D1E, "waiting for idle", ~0ull);
    if (g_switches - s0 > limit) fail("livelock", "worker threads never become idle\n" + dump_fibers());
  }
  g_idle_waiter = false;
}

// ----------------------------------------------------------------------------------------------- faults ---
void faults_on(bool on) { g_faults_on = on; }
u64 faults_fired(FaultKind k) { return g_fault_fired[k]; }
void record_fault(u32 kind, u32 scope, u32 n) {
  g_fault_fired[kind]++;
  trace(0xFA017 + (u64(kind) << 32) + (u64(scope) << 40) + n);
  RunResult& r = *g_res;
  if (r.nfaults < sizeof(r.faults) / sizeof(r.faults[0])) r.faults[r.nfaults] = FaultId{kind, scope, n};
  r.nfaults++;
}
bool fault(FaultKind k, u32 extra) {
  if (!g_active || !g_faults_on || !g_cur || g_cur->no_faults) return false;
  u32 num = extra ? extra : T.fault[k];
  if (!num && !g_plan->faults_explicit) return false;
  Fiber* f = g_cur;
  u32 scope = f->scope ? f->scope : 0x800000u + f->id;
  u32 n = f->fcount[(u64(k) << 32) | scope]++;
  bool hit;
  if (g_plan->faults_explicit) hit = g_fault_set.count(FaultId{k, scope, n}) != 0;
  else hit = (mix3(g_run_seed ^ (0xFA * 0x1000193ull), (u64(k) << 32) | scope, n) & 0xFFFF) < num;
  if (hit) { f->nfired++; record_fault(k, scope, n); }
  return hit;
}
void faults_here(bool on) { g_cur->no_faults = !on; }
u64 faults_fired_here() { return g_cur->nfired; }
u64 fault_count_in_scope(FaultKind k) { return g_cur->fcount[(u64(k) << 32) | (g_cur->scope ? g_cur->scope : 0x800000u + g_cur->id)]; }
bool op_enabled(u32 op) { return !g_drop.count(op); }
void set_nops(u32 n) { g_res->nops = n; }
void op_begin(u32 op) { g_cur->scope = op + 1; trace(0x0900000 + op); }
void op_end() { g_cur->scope = 0; }

// ------------------------------------------------------------------------------------------- run cycle ---
std::string RunEnv::cfg(const char* k, const char* d) const { auto it = plan.cfg.find(k); return it == plan.cfg.end() ? std::string(d) : it->second; }
i64 RunEnv::cfgi(const char* k, i64 d) const { auto it = plan.cfg.find(k); return it == plan.cfg.end() ? d : strtoll(it->second.c_str(), nullptr, 0); }

static void crash_handler(int sig, siginfo_t* si, void* uc) {
  static int nested = 0; if (nested++) _exit(99);
  if (!g_res || !g_cur) _exit(98);
  u64 pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; u64 a = (u64)si->si_addr;
  std::vector<u64> pcs; pcs.push_back(pc); cur_stack(pcs);
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
  std::string what = strf("%s, address 0x%llx, fiber %u (%s)", n, (unsigned long long)a, g_cur->id, g_cur->name);
  if (sig == SIGSEGV && a - kStackBase < kStackSlot * kMaxFibers && (a - kStackBase) % kStackSlot < kStackGuard) what += " (stack overflow)";
  if (sig == SIGSEGV && a >= kArenaBase && in_arena(a)) what += " " + describe_addr(a);
  fail_pcs(std::string("crash:") + n, what, pcs);
}
void run_in_child(const Plan& plan, RunResult* res, const Check& c) {
  g_res = res; g_plan = &plan; g_run_seed = mix2(plan.seed, 0x5EED);
  g_thash = mix64(plan.seed); g_shash = 1; g_ohash = 1; g_switches = 0; g_ev = 0; g_now = 1000000000ull * (1700000000ull + (mix64(plan.seed) & 0xFFFFFF)); g_t0 = g_now;
  g_faults_on = false; g_fault_set.clear(); for (auto& f : plan.faults) g_fault_set.insert(f);
  g_drop.clear(); for (u32 d : plan.drop) g_drop.insert(d);
  T = Tuning(); T.seed = plan.seed;
  find_tls();
#ifndef SIM_ASAN
  static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
#endif
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
#ifndef SIM_ASAN
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
#else
  for (int s : {SIGABRT}) sigaction(s, &sa, nullptr);
#endif
  g_starve = u32(mix64(plan.seed ^ 77) % 5);
  g_cur = nullptr; g_nfibers = 0; g_live = 0; g_race_on = false; g_lib_live = g_max_lib = 0;
  rt_run_begin(); shims_run_begin(); fs_run_begin();
  RunEnv* env = new RunEnv(plan);
#ifndef SIM_ASAN
  Fiber* m = new_fiber("main");
  memcpy(m->tls, g_tls_ptr, g_tls_size);   // the main thread keeps what static initialisation left in its TLS
  const Check* cp = &c;
  m->fn = [env, cp]() {
    g_active = true;
    env->rng.s = mix64(env->plan.seed);
    cp->run(*env);
  };
  g_cur = m; g_next_ev = T.max_events;
  void* dummy; sim_switch(&dummy, m->sp);
#else
  // single fiber flavour: runs on the real stack so that AddressSanitizer's stack checks work
  Fiber* m = new Fiber(); m->id = 0; g_fibers[g_nfibers++] = m; strcpy(m->name, "main"); m->st = FS_RUN; m->deadline = ~0ull; m->tls = (u8*)calloc(1, g_tls_size + 1);
  m->prio = 1; m->vc.c[0] = 1; g_live = 1; g_cur = m; g_next_ev = ~0ull; g_active = true;
  c.run(*env);
  finish(RUN_OK);
#endif
  abort();
}
// After the check changed T the scheduler must be re-armed.
void tuning_applied() {
  g_pct_n = T.pct_changes > 16 ? 16 : T.pct_changes;
  for (u32 i = 0; i < g_pct_n; i++) g_pct_next[i] = 1 + mix3(T.seed, 0x9C7, i) % (T.pct_span ? T.pct_span : 1);
  arm();
}
}
