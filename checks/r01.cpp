// R01: asynchronous rendering produces exactly the pixels of synchronous rendering, for every schedule.
#include "render_ops.h"
using namespace sim; using namespace rops;

static void run(RunEnv& env) {
  Rng& r = env.rng;
  T.strategy = r.below(4); T.sync_den = r.pick({1u, 2u, 4u, 16u, 64u}); T.access_mean = r.pick({u64(0), u64(0), u64(200), u64(3000), u64(30000)}); T.pct_changes = 1 + r.below(8); T.pct_span = r.pick({u64(20000), u64(300000), u64(2000000)});
  T.heap_reuse = r.below(3); T.heap_jitter = r.below(3); T.garbage = r.next(); T.max_events = 600000000;
  if (r.chance(1, 2)) T.fault[F_SPURIOUS] = 6000; if (r.chance(1, 3)) T.fault[F_FUTEX_EINTR] = 6000; if (r.chance(1, 4)) T.fault[F_STALL] = 600;
  if (r.chance(1, 3)) T.fault[F_THREAD_CREATE] = r.pick({9000u, 30000u, 60000u}); if (r.chance(1, 6)) T.fault[F_THREAD_ATTR] = 20000;
  tuning_applied();
  int w = r.pick({33, 64, 100, 131, 200}), h = r.pick({17, 40, 64, 130, 200, 257}); u32 shape = r.below(24); if (shape == 0) { w = r.pick({2, 5, 11}); h = r.pick({4200, 9000, 17000, 33000}); } else if (shape == 1) { w = r.pick({1100, 2500, 6000}); h = r.pick({9, 40, 100}); }
  BLFormat fmt = r.chance(1, 5) ? BL_FORMAT_A8 : r.chance(1, 3) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32;
  BLContextCreateInfo ci{}; ci.thread_count = r.pick({1u, 2u, 2u, 3u, 4u, 5u, 8u, 17u, 33u}); if (r.chance(1, 3)) ci.command_queue_limit = r.pick({1u, 2u, 10u, 100u, 300u}); if (r.chance(1, 6)) ci.flags |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; if (r.chance(1, 6)) ci.flags |= BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC;
  u32 nops = r.chance(1, 6) ? u32(r.range(60, 150)) : u32(r.range(3, 45)); if (shape < 2) { nops = u32(r.range(3, 14)); count(shape ? "wide_targets" : "tall_targets"); } u64 wseed = r.next(); set_nops(nops);
  Profile pf; Scene sc; if (!build_scene(sc, wseed, w, h, true)) harness_error("scene");
  BLImage a(w, h, fmt), b(w, h, fmt); u64 bg = r.next();
  for (BLImage* im : {&a, &b}) { Rng r2(bg); random_image(r2, *im, w, h, fmt); }
  std::vector<BLImage> snaps; std::vector<u32> snap_op;
  { BLContext c(a); Ctl ctl; ctl.after_flush = [&](u32 i) { BLImage s; BLImageData d; a.get_data(&d); s.create(w, h, fmt); BLImageData e; s.make_mutable(&e); for (int y = 0; y < h; y++) memcpy((char*)e.pixel_data + y * e.stride, (char*)d.pixel_data + y * d.stride, size_t(w) * (fmt == BL_FORMAT_A8 ? 1 : 4)); snaps.push_back(s); snap_op.push_back(i); };
    for (u32 i = 0; i < nops; i++) if (op_enabled(i)) exec_op(c, sc, pf, wseed, i, ctl); c.end(); }
  faults_on(true);
  std::string ds; size_t snap = 0; u32 tc = 0; bool failed_begin = false;
  { BLContext c; BLResult e = c.begin(b, ci); if (e) { failed_begin = true; count("begin_failed"); if (!T.fault[F_THREAD_CREATE] && !T.fault[F_THREAD_ATTR]) fail("begin-failed", strf("begin() failed with 0x%x without any fault", e)); }
    else { tc = c.thread_count(); if (tc) count("async_contexts"); else count("fell_back_to_sync"); if (tc > 1) count("with_workers");
    Ctl ctl; ctl.after_flush = [&](u32 i) { count("flush_compare"); std::string df; if (snap >= snaps.size() || snap_op[snap] != i) harness_error("flush mismatch"); if (!same_pixels(snaps[snap], b, &df)) fail("pixels-after-flush", strf("image %dx%d fmt %d, %u threads, queue limit %u: after flush(SYNC) at op %u ", w, h, int(fmt), tc, ci.command_queue_limit, i) + df); snap++; };
    for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { op_begin(i); std::string d1; exec_op(c, sc, pf, wseed, i, ctl, &d1); ds += d1 + " "; op_end(); }
    BLContextErrorFlags ef = c.accumulated_error_flags(); (void)ef;
    BLResult e2 = c.end(); if (e2) fail("end-failed", strf("end() returned 0x%x", e2)); } }
  faults_on(false);
  if (!failed_begin) { std::string df; if (!same_pixels(a, b, &df)) fail("pixels", strf("image %dx%d fmt %d, %u threads, queue limit %u: async differs from sync: ", w, h, int(fmt), tc, ci.command_queue_limit) + df + " ops: " + ds); if (tc) note_nontrivial(); out(hash_image(b)); }
  sample(strf("%dx%d fmt=%d threads=%u(got %u) qlimit=%u strategy=%u ops=%u: ", w, h, int(fmt), ci.thread_count, tc, ci.command_queue_limit, T.strategy, nops) + ds.substr(0, 700));
}
static int reg = (register_check({"R01",
  "A run draws a random scene, a random operation list (state, styles, clips, save/restore, fills, strokes, text, blits, masks, bursts, flushes), target format/size and worker count from the seed, renders it once on a synchronous context and once on an asynchronous context whose threads are simulated fibers (random-walk, PCT, starvation or round-robin scheduling; preemption at sync points and memory accesses; spurious wakeups, futex EINTR, thread-creation failures, stalls) and compares every pixel after each synchronising flush and at the end. A run is non-trivial when the asynchronous context really was asynchronous.",
  "real: the whole library (rendering context, command queue, batches, jobs, worker manager, thread pool, rasterizer, reference pipelines, text, images) compiled from /repo; simulated: pthread threads/mutexes/conds, futex, clock, heap; not present: JIT pipelines (the reference pipelines are used), so only composition operators the reference pipelines support are compared.",
  run, nullptr}), 0);
