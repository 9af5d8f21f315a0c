// R02: rendering always makes progress; contexts of different threads never disturb each other.
#include "common.h"
using namespace sim; using namespace rops; using namespace cm;

static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r, 200000000); tune_heap(r); tune_waits(r); tune_threads(r); if (r.chance(1, 5)) T.fault[F_EARLY_TIMEOUT] = 9000; tuning_applied();
  u32 nu = u32(r.range(1, 4)); u64 wseed = r.next(); Profile pf; pf.text = r.chance(1, 3);
  struct Round { int w, h; BLFormat f; BLContextCreateInfo ci; u32 nops, how; u64 seed; BLImage expect; u32 first; };
  struct User { std::vector<Round> rounds; }; std::vector<User> us(nu);
  Scene sc; if (!build_scene(sc, wseed, 96, 96, pf.text)) harness_error("scene");
  u32 op = 0;
  for (auto& u : us) { int n = r.range(1, 3); for (int k = 0; k < n; k++) { Round q; q.w = r.pick({33, 64, 100, 131}); q.h = r.pick({17, 40, 64, 130}); q.f = random_format(r); q.ci = random_create_info(r); q.nops = u32(r.range(1, 14)); q.how = r.below(5); q.seed = r.next(); q.first = op; op += q.nops; u.rounds.push_back(q); } }
  u32 ncleanup = r.below(5), cleanup_flags = r.pick({u32(BL_RUNTIME_CLEANUP_THREAD_POOL), u32(BL_RUNTIME_CLEANUP_EVERYTHING)}); set_nops(op + ncleanup);
  // what every target must look like, computed without threads
  for (auto& u : us) for (auto& q : u.rounds) { Rng r2(q.seed); random_image(r2, q.expect, q.w, q.h, q.f); BLContext c(q.expect); Ctl ctl; for (u32 i = 0; i < q.nops; i++) if (op_enabled(q.first + i)) exec_op(c, sc, pf, q.seed, i, ctl); c.end(); }
  faults_on(true); std::vector<u32> fin(nu), asy(nu); auto fin_count = [&]() { u32 n = 0; for (u32 x : fin) n += x; return n; };
  auto body = [&](u32 id) {
    for (auto& q : us[id].rounds) {
      BLImage im; Rng r2(q.seed); random_image(r2, im, q.w, q.h, q.f);
      { BLContext c; if (c.begin(im, q.ci)) { count("begin_failed"); continue; }
        if (c.thread_count()) asy[id] = 1; if (c.thread_count() > 1) count("with_workers");
        Ctl ctl; for (u32 i = 0; i < q.nops; i++) if (op_enabled(q.first + i)) { op_begin(q.first + i); exec_op(c, sc, pf, q.seed, i, ctl); op_end(); }
        BLImage other;
        switch (q.how) { case 0: if (c.end()) fail("end-failed", "end() failed"); break; case 1: c.reset(); break; case 2: break; case 3: other.create(20, 20, BL_FORMAT_PRGB32); if (c.begin(other, q.ci) == BL_SUCCESS) { c.fill_all(BLRgba32(0xFF00FF00u)); c.end(); count("rebegin"); } break; default: if (c.flush(BL_CONTEXT_FLUSH_SYNC)) fail("flush-failed", "flush() failed"); { std::string df; if (!same_pixels(q.expect, im, &df)) fail("pixels-after-flush", strf("thread %u: ", id) + df); } break; } 
        if (q.how == 3) { c.end(); } }
      std::string df; if (!same_pixels(q.expect, im, &df)) fail("pixels", strf("thread %u, %u ops, %u threads requested: ", id, q.nops, q.ci.thread_count) + df);
      out(hash_image(im));
    }
    fin[id] = 1;
  };
  std::vector<int> fs; for (u32 i = 0; i < nu; i++) fs.push_back(spawn(strf("user%u", i).c_str(), [&, i]() { body(i); }));
  for (u32 i = 0; i < ncleanup; i++) if (op_enabled(op + i)) { for (int k = r.below(30); k > 0; k--) yield_point(); bl_runtime_cleanup(BLRuntimeCleanupFlags(cleanup_flags)); count("runtime_cleanup"); }
  for (int f : fs) join(f);
  faults_on(false);
  if (fin_count() != nu) fail("unfinished", "a user thread did not finish");
  u32 async = 0; for (u32 x : asy) async += x;
  if (nu > 1 && async > 1) count("concurrent_async_contexts"); if (async) note_nontrivial();
  // once the work is over nobody may keep running
  run_others_until_idle(); bl_runtime_cleanup(BL_RUNTIME_CLEANUP_THREAD_POOL); run_others_until_idle();
  if (live_lib_threads()) fail("threads-left", strf("%d worker threads are alive after cleaning up the idle thread pool", live_lib_threads()));
  sample(strf("%u user threads, %u operations, %u cleanups, strategy %u, max %d worker threads", nu, op, ncleanup, T.strategy, max_lib_threads()));
}
static int reg = (register_check({"R02",
  "A run starts 1-4 user threads; each renders 1-3 random scenes through its own asynchronous context (shared or isolated pool, 1-33 threads) and ends, resets, destroys, re-begins or flushes it, while the main thread calls bl_runtime_cleanup(). Every call must return: a deadlock, livelock or exceeding the event budget is a violation, as is any pixel differing from a synchronous rendering. Non-trivial: at least one context was really asynchronous.",
  "real: rendering contexts, worker manager, thread pool, worker threads' main loop, futex users; simulated: pthread threads, mutexes, condition variables, futex, clock, heap",
  run, nullptr}), 0);
