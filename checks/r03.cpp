// R03: what is passed to an asynchronous context is captured when the call returns and released after end().
#include "common.h"
using namespace sim; using namespace rops; using namespace cm;
namespace {
struct Ext { u8* mem; u32 destroyed; bool dead; };       // pixels owned by the user
void ext_destroy(void*, void* data, void* user) noexcept { Ext* e = (Ext*)user; if (data != e->mem) fail("external:wrong-pointer", "the destroy function received a wrong pointer"); e->destroyed++; if (e->destroyed > 1) fail("external:destroyed-twice", "the destroy function of external image data was called twice"); user_free(e->mem); }
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r); tune_heap(r); T.heap_reuse = r.pick({0u, 1u, 1u, 2u}); tune_waits(r); tune_threads(r); tuning_applied();
  int w = r.pick({33, 64, 100}), h = r.pick({17, 40, 64, 130}); BLFormat fmt = random_format(r); BLContextCreateInfo ci = random_create_info(r);
  u32 nops = u32(r.range(2, 24)); u64 wseed = r.next(); set_nops(nops); u32 keep_mode = r.below(3); bool text = r.chance(1, 2);
  std::vector<Ext*> exts; u64 mark;
  { Scene sc; if (!build_scene(sc, wseed, w, h, text)) harness_error("scene"); Profile pf; pf.text = text;
  BLImage a; { Rng r2(wseed); random_image(r2, a, w, h, fmt); } BLImage b = pixel_copy(a), a0 = pixel_copy(a); bool sole = r.chance(1, 4), ext_target = r.chance(1, 3);
  { BLContext c(a); Ctl ctl; for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { Scene one; clone_scene(one, sc); exec_op(c, one, pf, wseed, i, ctl); } c.end(); }
  bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING);
  mark = heap_mark();
  faults_on(true);
  { BLImage shared_target; if (!ext_target) shared_target = b; else count("external_target");   // a second reference to the target: must never see the drawing
    Ext* tx = nullptr;                                    // or the target's pixels belong to the user, who gets them back exactly once
    if (ext_target) { BLImageData d; b.get_data(&d); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; intptr_t st = intptr_t(d.size.w * bpp + 8 * r.below(3)); tx = new Ext{(u8*)user_alloc(size_t(st) * size_t(d.size.h)), 0, false}; exts.push_back(tx); for (int y = 0; y < d.size.h; y++) memcpy(tx->mem + y * st, (char*)d.pixel_data + y * d.stride, size_t(d.size.w) * bpp); BLImage im; im.create_from_data(d.size.w, d.size.h, BLFormat(d.format), tx->mem, st, BL_DATA_ACCESS_RW, ext_destroy, tx); b = im; }
    BLContext c; BLResult e = c.begin(b, ci); if (e) { count("begin_failed"); }
    else { if (c.thread_count()) note_nontrivial(); if (c.thread_count() > 1) count("with_workers"); Ctl ctl; std::string ds; std::vector<Scene*> kept;
      for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { op_begin(i);
        Rng q(mix3(wseed, 0x3117, i)); Scene* one = new Scene(); clone_scene(*one, sc);
        // some sources use memory the user owns and gets back through the destroy function
        for (int k = 0; k < 5; k++) if (q.chance(1, 3)) { BLImageData d; one->srcs[k].get_data(&d); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; intptr_t st = intptr_t(d.size.w * bpp + 8); Ext* x = new Ext{(u8*)user_alloc(size_t(st) * size_t(d.size.h)), 0, false}; exts.push_back(x); for (int y = 0; y < d.size.h; y++) memcpy(x->mem + y * st, (char*)d.pixel_data + y * d.stride, size_t(d.size.w) * bpp);
          BLImage im; bool ro = q.chance(1, 2); im.create_from_data(d.size.w, d.size.h, BLFormat(d.format), x->mem, st, ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, ext_destroy, x); one->srcs[k] = im; if (k < 4) one->pats[k].set_image(im, one->pats[k].area()); count("external_images"); }
        std::string d1; exec_op(c, *one, pf, wseed, i, ctl, &d1); ds += d1 + " ";
        // the call returned: the arguments may be changed or destroyed right away
        switch (keep_mode == 2 ? q.below(3) : keep_mode) { case 0: delete one; break; case 1: scribble_scene(*one, q); delete one; break; default: scribble_scene(*one, q); kept.push_back(one); break; }
        op_end(); }
      sample(strf("%dx%d threads=%u queue=%u mode=%u: ", w, h, c.thread_count(), ci.command_queue_limit, keep_mode) + ds.substr(0, 600));
      if (r.chance(1, 2)) { for (Scene* s : kept) delete s; kept.clear(); }
      // the target handle may go away while the context is alive
      BLImage keep; if (!sole) keep = b; if (sole || r.chance(1, 4)) { b.reset(); count(sole ? "context_owns_target" : "target_handle_dropped"); if (tx && tx->destroyed) fail("external:destroyed-early", "pixels of the target were handed back while a context draws into them"); }
      if (r.chance(1, 3)) { Scene tmp; clone_scene(tmp, sc); }
      BLResult e2 = c.end(); if (e2) fail("end-failed", strf("end() returned 0x%x", e2));
      for (Scene* s : kept) delete s;
      std::string df; if (!sole && !same_pixels(a, keep, &df)) fail("pixels", strf("%u threads: drawing differs from a synchronous context whose arguments stay unchanged: ", c.thread_count()) + df + " ops: " + ds);
      if (!ext_target && !same_pixels(a0, shared_target, &df)) fail("other-reference", "a second reference to the target image changed: " + df);
      if (!sole) out(hash_image(keep)); }
    }
  faults_on(false);
  b.reset();
  for (Ext* x : exts) if (!x->destroyed) fail("external:not-destroyed", "external image data was not handed back although nothing references it any more"); 
  }
  for (Ext* x : exts) delete x;
  exts.clear(); exts.shrink_to_fit();
  release_caches();
  leak_check(mark, "the context ended and every object was destroyed");
}
static int reg = (register_check({"R03",
  "A run draws a random operation list on an asynchronous context; every call receives freshly deep-copied arguments (paths, gradients, patterns, images incl. user-owned external pixels, masks, fonts, glyph runs, strings) which are mutated in place and/or destroyed immediately after the call returned; the target handle may be dropped too. Compared with a synchronous context whose arguments stay untouched; freed memory is poisoned, every destroy function must run exactly once, and nothing may stay allocated after end(). Non-trivial: the context was asynchronous.",
  "real: rendering contexts, object system, images, gradients, patterns, paths, text; simulated: threads, futex, clock, heap",
  run, nullptr}), 0);
