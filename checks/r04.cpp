// R04: running out of memory while rendering is reported, never corrupts anything and is not remembered.
#include "common.h"
using namespace sim; using namespace rops; using namespace cm;

static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r); tune_heap(r); tune_waits(r); if (r.chance(1, 4)) tune_threads(r);
  u32 mode = r.below(4); if (mode == 0) T.fault[F_ALLOC] = r.pick({200u, 1000u, 4000u, 16000u, 40000u}); tuning_applied();
  int w = r.pick({33, 64, 100, 200}), h = r.pick({17, 40, 64, 130, 257}); BLFormat fmt = random_format(r);
  BLContextCreateInfo ci = random_create_info(r); if (r.chance(2, 5)) ci.thread_count = 0;
  u32 nops = u32(r.range(1, 24)); u64 wseed = r.next(); set_nops(nops); Profile pf; pf.text = r.chance(1, 2);
  u64 mark; std::string ds; u64 fired = 0; bool reported = false;
  { Scene sc; if (!build_scene(sc, wseed, w, h, pf.text)) harness_error("scene");
  BLImage a; { Rng r2(wseed); random_image(r2, a, w, h, fmt); } BLImage b = pixel_copy(a), b2 = pixel_copy(a);
  std::vector<BLResult> expect(nops), expect2(nops); u32 eflags = 0;
  { BLContext c(a); Ctl ctl; for (u32 i = 0; i < nops; i++) if (op_enabled(i)) expect[i] = exec_op(c, sc, pf, wseed, i, ctl); eflags = u32(c.accumulated_error_flags()); c.end(); }
  if (r.chance(1, 2)) release_caches();
  mark = heap_mark(); b = pixel_copy(b); b2 = pixel_copy(b2); // so that a target that is never released is a leak
  // the target may be memory of the user, and other handles may refer to it
  static u32 handed_back; static u8* owned; handed_back = 0; owned = nullptr;
  if (r.chance(1, 4)) { BLImageData d; b.get_data(&d); size_t n = size_t(d.stride) * size_t(h); owned = (u8*)user_alloc(n); memcpy(owned, d.pixel_data, n); b.create_from_data(w, h, fmt, owned, d.stride, BL_DATA_ACCESS_RW, [](void*, void* p, void*) noexcept { handed_back++; if (p != owned || handed_back > 1) fail("target:handed-back", "the pixels of the target were handed back twice or with a wrong pointer"); user_free(p); }, nullptr); count("external_target"); }
  BLImage keep; u64 kh = hash_image(b); if (r.chance(1, 4)) { keep = b; count("shared_target"); }
  // a fault-free rehearsal tells how many allocations there are, so that the failing one can be chosen uniformly
  u64 na; { u64 s0 = alloc_seq(); BLContext c; u32 tf = T.fault[F_THREAD_CREATE], ta = T.fault[F_THREAD_ATTR]; T.fault[F_THREAD_CREATE] = T.fault[F_THREAD_ATTR] = 0; BLResult e = c.begin(b2, ci); if (e) fail("begin-failed", strf("begin() = 0x%x without any fault", e)); { Ctl ctl; for (u32 i = 0; i < nops; i++) if (op_enabled(i)) expect2[i] = exec_op(c, sc, pf, wseed, i, ctl); c.flush(BL_CONTEXT_FLUSH_SYNC); eflags |= u32(c.accumulated_error_flags()); c.end(); T.fault[F_THREAD_CREATE] = tf; T.fault[F_THREAD_ATTR] = ta; na = alloc_seq() - s0; } }
  bl_runtime_cleanup(r.chance(1, 2) ? BL_RUNTIME_CLEANUP_EVERYTHING : BL_RUNTIME_CLEANUP_THREAD_POOL); if (r.chance(1, 2)) run_others_until_idle();
  faults_on(true);
  u32 at = env.rng.below(u32(na) + 4), burst = env.rng.range(1, 6);
  if (mode == 1) force_alloc_fail_at(at); else if (mode == 2) force_alloc_fail_from(at); else if (mode == 3) { force_alloc_fail_at(at); T.fault[F_ALLOC] = 300 * burst; tuning_applied(); }
  bool begun = false; u32 flags = 0;
  { BLContext c; BLResult e = c.begin(b, ci);
    if (e) { reported = true; count("begin_failed"); ds += strf("begin=%x ", e); if (c.is_valid()) fail("begin:valid", "begin() failed but the context is valid"); }
    else { begun = true; if (c.thread_count() > 1) count("with_workers"); Ctl ctl;
      for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { op_begin(i); std::string d1; BLResult x = exec_op(c, sc, pf, wseed, i, ctl, &d1); ds += d1 + " "; if ((x != expect[i] && x != expect2[i]) || ctl.oom) { reported = true; if (x == BL_ERROR_OUT_OF_MEMORY) count("op_out_of_memory"); } op_end(); }
      // errors of deferred work are visible after a synchronising flush
      BLResult x = c.flush(BL_CONTEXT_FLUSH_SYNC); if (x) reported = true; flags = u32(c.accumulated_error_flags()); if (flags & ~eflags) { reported = true; count("error_flags"); }
      x = c.end(); if (x) reported = true; } }
  fired = faults_fired(F_ALLOC); force_alloc_fail_at(-1); force_alloc_fail_from(-1); faults_on(false);
  if (fired) { note_nontrivial(); if (reported) count("reported"); else count("faults_without_effect"); }
  std::string df;
  if (begun && !reported && !same_pixels(a, b, &df)) fail("silently-wrong " + heap_last_failure(3), strf("%llu allocation failures, no call failed and no error flag is set, but pixels differ: ", (unsigned long long)fired) + df + " ops: " + ds + "\n last failed allocation: " + heap_last_failure(8));
  if (reported && !fired && !faults_fired(F_THREAD_CREATE) && !faults_fired(F_THREAD_ATTR)) fail("error-without-fault", strf("an error was reported (flags 0x%x) although every allocation succeeded; ops: ", flags) + ds);
  out(hash_image(b)); b = pixel_copy(b);
  if (!keep.is_empty()) { if (hash_image(keep) != kh) fail("target:shared", "rendering while allocations fail changed another reference of the target; ops: " + ds); keep.reset(); }
  if (owned && handed_back != 1) fail("target:not-handed-back", "the pixels of the target were not handed back although nothing refers to them any more; ops: " + ds);
  // with memory back, everything works as if nothing had happened
  T.fault[F_THREAD_CREATE] = T.fault[F_THREAD_ATTR] = 0;
  { BLImage d; { Rng r2(wseed); random_image(r2, d, w, h, fmt); } BLContext c; BLResult e = c.begin(d, ci); if (e) fail("after:begin", strf("begin() = 0x%x once memory is available again", e)); Ctl ctl; for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { BLResult x = exec_op(c, sc, pf, wseed, i, ctl); if (x != expect2[i]) fail("after:op", strf("operation %u returned 0x%x instead of 0x%x once memory is available again; ops: ", i, x, expect2[i]) + ds); } e = c.flush(BL_CONTEXT_FLUSH_SYNC); if (e || (u32(c.accumulated_error_flags()) & ~eflags)) fail("after:flush", "an error is reported once memory is available again"); c.end();
    if (!same_pixels(a, d, &df)) fail("after:pixels", "pixels differ once memory is available again: " + df + " ops: " + ds); }
  }
  run_others_until_idle(); release_caches();
  leak_check(mark, strf("rendering with failing allocations; ops: %s", ds.c_str()).c_str());
  sample(strf("%dx%d threads=%u queue=%u mode=%u fired=%llu reported=%d: ", w, h, ci.thread_count, ci.command_queue_limit, mode, (unsigned long long)fired, reported) + ds.substr(0, 600));
}
static int reg = (register_check({"R04",
  "A run draws a random operation list on a synchronous or asynchronous context while allocations fail: one chosen uniformly over all allocations of the workload, all from one on, or at random. Nothing may crash, hang, leak or touch freed memory; if begin(), every call, flush() and end() reported success and no accumulated error flag is set, the pixels equal the fault-free ones; afterwards a fresh context must render exactly. Non-trivial: at least one allocation failed.",
  "real: rendering contexts, worker manager, thread pool, rasterizer, images, styles, text; simulated: heap with failing allocations, threads, futex, clock",
  run, nullptr}), 0);
