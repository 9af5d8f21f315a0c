// Deterministic simulator: public interface used by the checks.
//
// One OS thread executes everything. Every thread the program under test creates is a fiber, every
// allocation comes from the simulated heap, every file lives on the simulated disk and every clock is the
// simulated clock. All choices derive from one 64-bit seed (see Plan).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

static inline u64 mix64(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ (mix64(b) * 0x9FB21C651E98DF25ull)); }
static inline u64 mix3(u64 a, u64 b, u64 c) { return mix2(mix2(a, b), c); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
  u32 below(u32 n) { return n ? u32((next() >> 11) % n) : 0; }
  int range(int lo, int hi) { return lo + int(below(u32(hi - lo + 1))); }       // inclusive
  bool chance(u32 num, u32 den) { return below(den) < num; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template<typename T> T pick(std::initializer_list<T> l) { return l.begin()[below(u32(l.size()))]; }
};

// --------------------------------------------------------------------------------------------------------
// Fault kinds. A fault decision is identified by (kind, scope, n): the n-th opportunity for that kind within
// the scope (= operation currently executed by the fiber), so dropping operations keeps the others' faults.
// --------------------------------------------------------------------------------------------------------
enum FaultKind : u32 {
  F_ALLOC, F_THREAD_CREATE, F_THREAD_ATTR, F_SPURIOUS, F_EARLY_TIMEOUT, F_STALL, F_FUTEX_EINTR,
  F_OPEN, F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_NOSPC,
  F_SEEK, F_TRUNC, F_STAT, F_CLOSE, F_MMAP, F_CRASH, F_FLIP, F_TEAR, F_LOST, F_CLOCK_JUMP, F_SHRINK, F_SIZE_LIE,
  F_KIND_COUNT
};
extern const char* const kFaultNames[F_KIND_COUNT];

struct FaultId { u32 kind, scope, n; bool operator<(const FaultId& o) const { return kind != o.kind ? kind < o.kind : scope != o.scope ? scope < o.scope : n < o.n; } };
struct SchedDev { u64 ev; u32 fiber; };          // at event `ev` run `fiber` (a deviation from the default)

// Everything that identifies one execution.
struct Plan {
  std::string check;
  u64 seed = 0;
  std::map<std::string, std::string> cfg;        // overrides of swarm parameters (normally empty)
  std::vector<u32> drop;                         // dropped operation indexes
  bool faults_explicit = false; std::vector<FaultId> faults;
  bool sched_explicit = false;  std::vector<SchedDev> sched;
};

// Result of one run, written by the child into shared memory.
enum RunStatus : u32 { RUN_EMPTY, RUN_OK, RUN_VIOLATION, RUN_SKIP, RUN_ERROR };
constexpr u32 kMaxCounters = 160;
struct RunResult {
  u32 status; u32 ncounters;
  u64 trace_hash, sched_hash, out_hash, events, sim_ns, switches;
  u32 nops;               // number of operations in the workload before dropping
  u32 nfaults;            // recorded fault firings
  u32 nsched;             // recorded schedule deviations
  u32 nontrivial;
  u64 faults_fired[F_KIND_COUNT];
  struct { char name[40]; u64 v; } counters[kMaxCounters];
  char sig[512];
  char msg[6000];
  char sample[1400];
  u32 npcs; u64 pcs[64];
  FaultId faults[1024];
  SchedDev sched[20000];
};

// --------------------------------------------------------------------------------------------------------
// Available inside a run.
// --------------------------------------------------------------------------------------------------------
struct Tuning {               // swarm parameters, set by the check at the start of the run
  u64 seed = 0;
  // scheduling
  u32 strategy = 0;           // 0 random walk, 1 PCT priorities, 2 starve one fiber, 3 round-robin-ish
  u32 sync_den = 4;           // preempt at a synchronisation point with probability 1/sync_den (0 = never)
  u64 access_mean = 0;        // mean distance (in memory accesses) of additional preemption points (0 = none)
  u32 pct_changes = 3; u64 pct_span = 300000;
  // faults: probability = num[kind] / 65536 per opportunity
  u32 fault[F_KIND_COUNT] = {};
  // heap
  u32 heap_reuse = 0;         // 0 never reuse, 1 immediate LIFO reuse, 2 delayed reuse
  u32 heap_jitter = 0;        // random gaps between blocks (bytes / 16)
  u64 garbage = 0xA5A5A5A5A5A5A5A5ull;  // fill pattern seed of fresh memory
  u64 max_events = 400000000ull;
  u64 alloc_limit = 256ull << 20;       // single allocations above this fail (ENOMEM), as on a small machine
  u64 total_limit = 900ull << 20;       // total live bytes above this fail
};
extern Tuning T;
void tuning_applied();        // call after changing T

[[noreturn]] void fail(const std::string& sig, const std::string& msg);   // property violated
[[noreturn]] void skip(const std::string& why);                           // run is out of the harness' bounds
[[noreturn]] void harness_error(const std::string& why);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

void count(const char* name, u64 add = 1);           // coverage counter ("this happened")
void note_nontrivial();
void sample(const std::string& s);
void trace(u64 v);                                   // adds to the trace hash
void out(u64 v);                                     // adds to the output hash (also trace)
u64  hash_bytes(const void* p, size_t n);

// fibers ("user threads")
int  spawn(const char* name, std::function<void()> fn);
void join(int fiber);
void yield_point();
int  self();
u64  now_ns();
u64  event_seq();
int  live_fibers();                 // all not finished, including library workers
int  live_lib_threads();            // threads created by the library which are still alive
int  max_lib_threads();             // high-water mark
bool others_idle();                 // true when no other fiber is runnable
void run_others_until_idle(u64 limit_switches = 2000000);
void quiesce_sched(bool on);        // on: no preemption at sync points (used around oracle code)

// operation scopes
bool op_enabled(u32 op);            // false when the minimiser dropped this op
void set_nops(u32 n);
void op_begin(u32 op);              // sets the fault scope of the calling fiber
void op_end();
void faults_on(bool on);            // global switch (per run)
bool fault(FaultKind k, u32 extra_num = 0);   // takes a decision for kind k (uses T.fault[k] or extra_num)
u64  faults_fired(FaultKind k);
void faults_here(bool on);          // switch of the calling fiber (default on)
u64  faults_fired_here();           // firings of any kind hit by the calling fiber
u64  fault_count_in_scope(FaultKind k);  // opportunities
void force_alloc_fail_at(i64 nth);  // fail exactly the nth allocation from now (0-based; -1 none)
void force_alloc_fail_from(i64 nth);// fail all from the nth on
u64  alloc_seq();

// heap
struct HeapStats { u64 live_blocks, live_bytes, total_allocs, total_frees, failed; };
HeapStats heap_stats();
u64  heap_mark();                                     // allocation id; blocks newer than mark and live are leaks
std::string heap_describe_live(u64 since, int max_items, std::string* sig = nullptr);
u64  heap_live_since(u64 mark);
std::string heap_last_failure(u32 frames = 6);        // call stack of the last failed allocation (symbolised in messages)
bool heap_addressable(const void* p, size_t n);
void* user_alloc(size_t n);                           // arena memory owned by the harness
void  user_free(void* p);

// disk
namespace fs {
  void put(const std::string& path, const void* data, size_t n);
  bool exists(const std::string& path);
  std::vector<u8> get(const std::string& path);
  void remove(const std::string& path);
  void crash();                                       // lose/tear everything which was not synced, close fds
  int  open_fds();
  int  mapped();
  struct Event { int op; i64 arg, ret; };
  extern u64 reads, writes;
}

struct RunEnv { Plan plan; Rng rng; RunEnv(const Plan& p) : plan(p), rng(p.seed) {} std::string cfg(const char* k, const char* d) const; i64 cfgi(const char* k, i64 d) const; };

struct Check {
  const char* id;
  const char* rule;                      // how cases are made, what makes one non-trivial
  const char* real_stub;                 // which components ran real code / stub
  std::function<void(RunEnv&)> run;      // executed as fiber 0
  std::function<void()> prepare;         // executed once in the server process (corpora), may be null
  u32 enum_runs = 0;                     // first `enum_runs` run indexes are always executed
};
void register_check(const Check& c);
extern bool g_minimising;
extern u64 g_run_index;                  // index of this run in the batch (0 for replays: stored in the plan cfg)

int sim_main(int argc, char** argv);
}
