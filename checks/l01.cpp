// L01: the runtime can be cleaned up at any time, shut down when nothing is in use, and initialised again.
#include "common.h"
#include "res.h"
using namespace sim; using namespace rops; using namespace cm;
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r, 200000000); tune_heap(r); tune_waits(r); tune_threads(r); bool stalls = T.fault[F_STALL] != 0; if (r.chance(1, 4)) T.fault[F_EARLY_TIMEOUT] = 9000; bool early = T.fault[F_EARLY_TIMEOUT] != 0; tuning_applied();
  u64 wseed = r.next(); u32 ncyc = u32(r.range(1, 4)), nu = u32(r.range(1, 3)), nwork = u32(r.range(1, 3)), ncleanup = u32(r.below(4)); bool text = r.chance(1, 3), big = r.chance(1, 4); set_nops(ncyc * nu * nwork);
  int w = r.pick({9, 33, 48}), h = r.pick({17, 40, 70}); BLFormat fmt = random_format(r);
  u64 ref_pixels = 0, ref_png = 0; u32 ops = u32(r.range(1, 6)); Profile pf; pf.text = text;
  // what each piece of work gives; the first, synchronous and undisturbed one is the reference
  auto work = [&](bool reference, Rng& q) {
    Scene sc; if (!build_scene(sc, wseed, w, h, text)) { if (reference) harness_error("scene"); fail("scene", "objects cannot be created"); }
    BLImage im; { Rng r2(wseed); random_image(r2, im, w, h, fmt); }
    BLContextCreateInfo ci{}; if (!reference) ci = random_create_info(q);
    { BLContext c; if (c.begin(im, ci)) { if (reference) harness_error("begin"); count("begin_failed"); return; } Ctl ctl; for (u32 i = 0; i < ops; i++) exec_op(c, sc, pf, wseed, i, ctl); if (c.thread_count() > 1) count("with_workers"); if (c.end()) fail("end-failed", "end() failed"); }
    u64 px = hash_image(im); BLImageCodec png; if (png.find_by_name("PNG")) fail("codec:missing", "the PNG codec is not there"); BLArray<uint8_t> enc; BLResult e = im.write_to_data(enc, png); u64 ph = e ? u64(e) : hash_bytes(enc.data(), enc.size());
    if (!e) { BLImage back; if (back.read_from_data(enc)) fail("codec:decode", "the image cannot be decoded"); }
    BLArray<BLImageCodec> all = BLImageCodec::built_in_codecs(); if (nu == 1 && all.size() != 4) fail("codecs:count", strf("there are %zu built-in codecs", all.size()));
    if (q.chance(1, 2)) { BLImageCodec own; own.find_by_name("QOI"); BLImageCodec::remove_from_built_in(own); BLImageCodec::add_to_built_in(own); }
    if (text && q.chance(1, 2)) { BLFontManager fm; fm.create(); fm.add_face(sc.face); BLFontFace out; if (fm.query_face(sc.face.family_name().data(), out) || !(out == sc.face)) fail("font-manager", "a face which was added is not found"); }
    if (reference) { ref_pixels = px; ref_png = ph; } else { if (px != ref_pixels) fail("pixels", "the pixels differ from those drawn before the runtime was shut down and initialised again"); if (ph != ref_png) fail("png", "the encoded image differs from the one encoded before the runtime was shut down and initialised again"); }
  };
  auto work_nocodec = [&](Rng& q) { BLImage im; im.create(big ? 6000 : 32, big ? 33 : 200, BL_FORMAT_PRGB32); BLContextCreateInfo ci = random_create_info(q); BLContext c; if (c.begin(im, ci)) return; c.fill_all(BLRgba32(0xFF102030u)); c.fill_circle(30, 40, 25, BLRgba32(0x80FF00FFu)); if (big) { BLPath p; for (int i = 0; i < 40; i++) { p.move_to(q.below(6000), q.below(33)); p.line_to(q.below(6000), q.below(33)); p.line_to(q.below(6000), q.below(33)); } c.fill_path(p, BLRgba32(0x40FFFFFFu)); } c.end(); };
  { Rng q(wseed); work(true, q); }
  // nothing the library allocated survives its shutdown
  if (bl_runtime_shutdown()) fail("shutdown", "bl_runtime_shutdown() failed"); run_others_until_idle(); u64 mark = heap_mark(); if (bl_runtime_init()) fail("init", "bl_runtime_init() failed"); BLRuntimeResourceInfo ri0; bl_runtime_query_info(BL_RUNTIME_INFO_TYPE_RESOURCE, &ri0);
  auto resources = [&](bool idle, const char* when) {
    BLRuntimeResourceInfo ri; memset(&ri, 0xAA, sizeof ri); if (bl_runtime_query_info(BL_RUNTIME_INFO_TYPE_RESOURCE, &ri)) fail("query-info", "bl_runtime_query_info() failed");
    std::string d = strf("used %zu, reserved %zu, overhead %zu, blocks %zu", ri.zm_used, ri.zm_reserved, ri.zm_overhead, ri.zm_block_count);
    if (ri.zm_used > ri.zm_reserved) fail("resources:used", strf("more zeroed memory is used than reserved %s: ", when) + d);
    if (idle && ri.zm_used) fail("resources:idle", strf("zeroed memory is in use although no context exists %s: ", when) + d); return ri; };
  auto clean = [&](const BLRuntimeResourceInfo& ri) { if (ri.zm_reserved != ri0.zm_reserved || ri.zm_block_count != ri0.zm_block_count || ri.zm_overhead != ri0.zm_overhead) fail("resources:cleanup", strf("bl_runtime_cleanup() left %zu bytes of zeroed memory reserved in %zu blocks (overhead %zu) although nothing is in use; initially %zu in %zu (%zu)", ri.zm_reserved, ri.zm_block_count, ri.zm_overhead, ri0.zm_reserved, ri0.zm_block_count, ri0.zm_overhead)); };
  faults_on(true); u32 op = 0; std::string ds; u64 shut = 0;
  for (u32 k = 0; k < ncyc; k++) {
    u32 nested = r.below(3); for (u32 i = 0; i < nested; i++) if (bl_runtime_init()) fail("init:nested", "a nested bl_runtime_init() failed");
    std::vector<int> fs; for (u32 u = 0; u < nu; u++) { u32 first = op; op += nwork; u64 us = r.next(); fs.push_back(spawn(strf("user%u", u).c_str(), [&, first, us]() { Rng q(us); for (u32 i = 0; i < nwork; i++) if (op_enabled(first + i)) { op_begin(first + i); q.chance(1, 3) ? work_nocodec(q) : work(false, q); op_end(); } })); }
    for (u32 i = 0; i < ncleanup; i++) { for (int y = r.below(40); y > 0; y--) yield_point(); bl_runtime_cleanup(BLRuntimeCleanupFlags(r.pick({u32(BL_RUNTIME_CLEANUP_THREAD_POOL), u32(BL_RUNTIME_CLEANUP_ZEROED_POOL), u32(BL_RUNTIME_CLEANUP_EVERYTHING), u32(BL_RUNTIME_CLEANUP_OBJECT_POOL)}))); count("runtime_cleanup"); if (r.chance(1, 2)) resources(false, "while contexts are used"); }
    for (int f : fs) join(f);
    for (u32 i = 0; i < nested; i++) { if (bl_runtime_shutdown()) fail("shutdown:nested", "a nested bl_runtime_shutdown() failed"); if (r.chance(1, 2)) { Rng q(r.next()); work(false, q); count("work_after_nested_shutdown"); } }
    { BLRuntimeResourceInfo ri = resources(true, "when all contexts have ended"); if (ri.zm_block_count > ri0.zm_block_count) count("blocks_added"); if (r.chance(1, 2)) { bl_runtime_cleanup(r.chance(1, 2) ? BL_RUNTIME_CLEANUP_ZEROED_POOL : BL_RUNTIME_CLEANUP_EVERYTHING); clean(resources(true, "after a cleanup")); } }
    int before = live_lib_threads(); u64 t0 = now_ns(); if (bl_runtime_shutdown()) fail("shutdown", "bl_runtime_shutdown() failed"); shut++; if (before) count("shutdown_with_threads");
    u64 took = (now_ns() - t0) / 1000000; if (took >= 15 && !stalls && !early) fail("shutdown:slow", strf("bl_runtime_shutdown() took %llu ms of simulated time although all threads can end at once", (unsigned long long)took));
    ds += strf("cycle %u: %u nested, %d threads at shutdown (%llu ms), %d after; ", k, nested, before, (unsigned long long)took, live_lib_threads());
    if (!stalls && !early && r.chance(1, 2)) { count("restart_at_once"); if (bl_runtime_init()) fail("init", "bl_runtime_init() failed"); continue; }   // without waiting for the last instructions of a worker
    run_others_until_idle();   // the last instructions of a worker
    if (live_lib_threads()) fail("threads-left", strf("%d of %d worker threads are alive after bl_runtime_shutdown() returned; ", live_lib_threads(), before) + ds);
    leak_check(mark, "the runtime was shut down");
    if (bl_runtime_init()) fail("init", "bl_runtime_init() failed");
  }
  faults_on(false);
  { Rng q(wseed); BLImageCodec c; work(false, q); }
  if (shut) note_nontrivial(); sample(ds); out(hash_bytes(ds.data(), ds.size())); out(ref_pixels);
}
static int reg = (register_check({"L01",
  "A run does the same work (asynchronous and synchronous rendering, encoding, decoding, the built-in codec list, a font manager) in 1-4 cycles separated by bl_runtime_shutdown() and bl_runtime_init(), with nested initialisations, 1-3 user threads and bl_runtime_cleanup() of every kind at any moment, under failing thread creation, spurious wakeups and stalled threads. Every cycle must give the pixels and the encoded bytes of the first; nothing the library allocated and, without stalls, no thread of it may survive a shutdown; a worker that is still ending must not disturb the runtime initialised next.",
  "real: runtime initialisation and shutdown, thread pool, worker threads, zero allocator, codecs, font manager, rendering; simulated: threads, condition variables, futex, clock, heap",
  run, nullptr}), 0);
