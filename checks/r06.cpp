// R06: rendering touches nothing but the pixels of its target inside the clip, and depends on nothing but pixels and operations.
#include "common.h"
using namespace sim; using namespace rops; using namespace cm;
namespace {
// Pixels in memory the user owns: any stride, direction and position, with garbage around the rows.
struct Plane {
  u8* mem = nullptr; size_t n = 0; u8* first = nullptr; intptr_t stride = 0; int w = 0, h = 0; BLFormat fmt = BL_FORMAT_NONE; size_t bpp = 0; u32 destroyed = 0; std::vector<u8> before; bool ro = false;
  static void destroy(void*, void* data, void* user) noexcept { Plane* p = (Plane*)user; if (data != p->first) fail("external:wrong-pointer", "the destroy function received a wrong pointer"); if (++p->destroyed > 1) fail("external:destroyed-twice", "the destroy function was called twice"); }
  void init(Rng& r, const BLImage& src, BLImage& dst, bool read_only) {
    BLImageData d; src.get_data(&d); w = d.size.w; h = d.size.h; fmt = BLFormat(d.format); bpp = fmt == BL_FORMAT_A8 ? 1 : 4; ro = read_only;
    size_t gap = r.chance(1, 3) ? 0 : bpp * r.below(20), lead = bpp * r.below(24), tail = bpp * r.below(24), line = size_t(w) * bpp + gap; bool up = r.chance(1, 3);
    n = lead + line * size_t(h - 1) + size_t(w) * bpp + tail; mem = (u8*)user_alloc(n); for (size_t i = 0; i < n; i++) mem[i] = u8(r.next());
    stride = up ? -intptr_t(line) : intptr_t(line); first = mem + lead + (up ? line * size_t(h - 1) : 0);
    for (int y = 0; y < h; y++) { u8* o = first + intptr_t(y) * stride; const u8* i = (const u8*)d.pixel_data + intptr_t(y) * d.stride; if (fmt == BL_FORMAT_XRGB32) for (int x = 0; x < w; x++) memcpy(o + x * 4, i + x * 4, 3); else memcpy(o, i, size_t(w) * bpp); }   // the unused byte of XRGB32 holds garbage
    before.assign(mem, mem + n); if (dst.create_from_data(w, h, fmt, first, stride, ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, destroy, this)) harness_error("create_from_data");
  }
  // every byte outside the given pixels is as it was
  void untouched_except(const BLBoxI& b, const char* what) {
    std::vector<u8> may(n, 0); for (int y = b.y0; y < b.y1; y++) memset(&may[size_t(first + intptr_t(y) * stride - mem) + size_t(b.x0) * bpp], 1, size_t(b.x1 - b.x0) * bpp);
    for (size_t i = 0; i < n; i++) if (!may[i] && mem[i] != before[i]) { intptr_t o = intptr_t(i) - (first - mem); int row = int(stride > 0 ? (o >= 0 ? o / stride : -1) : (-o) / -stride + ((-o) % -stride ? 1 : 0)); fail(std::string("touched:") + what, strf("%s: a byte which is no part of what may change was changed: byte %lld of memory holding %dx%d pixels, stride %lld, near row %d", what, (long long)i, w, h, (long long)stride, row)); }
  }
  ~Plane() { if (mem) user_free(mem); }
};
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r); tune_heap(r); tune_waits(r); tune_threads(r); tuning_applied();
  int w = r.pick({1, 3, 7, 16, 33, 64, 100, 131}), h = r.pick({1, 2, 17, 40, 64, 130, 200}); BLFormat fmt = random_format(r); bool async = r.chance(1, 2), reused = r.chance(1, 2), ro = r.chance(1, 8), clip = r.chance(2, 3), text = r.chance(1, 2); BLContextCreateInfo ci{}; if (async) ci = random_create_info(r);
  u32 nops = u32(r.range(2, 30)); u64 wseed = r.next(); set_nops(nops); u64 mark; bool begun = false;
  { Scene sc; if (!build_scene(sc, wseed, w, h, text)) harness_error("scene"); Profile pf; pf.text = text; pf.restore_clip = !clip; u64 pre = r.next();
  BLRectI cr(0, 0, w, h); if (clip) { cr.x = r.range(0, w - 1); cr.y = r.range(0, h - 1); cr.w = r.range(1, w - cr.x); cr.h = r.range(1, h - cr.y); }
  bool frac = clip && r.chance(1, 2); BLRect fr(cr.x + r.below(4) * 0.25, cr.y + r.below(4) * 0.25, 0, 0); fr.w = cr.x + cr.w - fr.x - r.below(3) * 0.125; fr.h = cr.y + cr.h - fr.y - r.below(3) * 0.125;   // a clip inside `cr` which does not end at pixel boundaries
  auto set_clip = [&](BLContext& c) { return frac ? c.clip_to_rect(fr) : c.clip_to_rect(cr); };
  BLImage a; { Rng r2(wseed); random_image(r2, a, w, h, fmt); } BLImage a0 = pixel_copy(a);
  { BLContext c(a); if (clip) set_clip(c); Ctl ctl; for (u32 i = 0; i < nops; i++) if (op_enabled(i)) exec_op(c, sc, pf, wseed, i, ctl); c.end(); }
  bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); mark = heap_mark();
  faults_on(true);
  { Plane target; Plane src[7]; Scene var; if (!clone_scene(var, sc)) harness_error("clone"); BLImage b; Rng q(mix2(wseed, 77));
    for (int k = 0; k < 5; k++) if (q.chance(2, 3)) { BLImage im; src[k].init(q, sc.srcs[k], im, true); var.srcs[k] = im; if (k < 4) var.pats[k].set_image(im, var.pats[k].area()); count("external_sources"); }
    for (int k = 0; k < 2; k++) if (q.chance(2, 3)) { BLImage im; src[5 + k].init(q, sc.masks[k], im, true); var.masks[k] = im; count("external_masks"); }
    target.init(q, a0, b, ro); BLContext c; Ctl ctl; std::string ds;
    if (reused) { BLImage other; Rng r2(pre); random_image(r2, other, r.pick({5, 64, 150}), r.pick({9, 64, 150}), random_format(r)); BLContextCreateInfo c2{}; if (r.chance(1, 2)) c2 = random_create_info(r); if (!c.begin(other, c2)) { Ctl t; Profile p2; p2.text = text; u32 n2 = u32(r.range(1, 10)); for (u32 i = 0; i < n2; i++) exec_op(c, sc, p2, pre, i, t); if (r.chance(1, 2)) c.end(); count("context_used_before"); } }
    if (c.begin(b, ci)) count("begin_failed");
    else { begun = true; if (clip) set_clip(c); for (u32 i = 0; i < nops; i++) if (op_enabled(i)) { op_begin(i); std::string d1; exec_op(c, var, pf, wseed, i, ctl, &d1); ds += d1 + " "; op_end(); }
      u32 tc = c.thread_count(); if (c.end()) fail("end-failed", "end() failed"); count(tc ? "async" : "sync"); if (ro) count("read_only_target");
      sample(strf("%dx%d fmt=%d stride=%lld clip=%d,%d,%d,%d threads=%u: ", w, h, int(fmt), (long long)target.stride, cr.x, cr.y, cr.w, cr.h, tc) + ds.substr(0, 500));
      BLImageData d; b.get_data(&d); if (!ro && (d.pixel_data != target.first || d.stride != target.stride)) fail("moved", "drawing replaced the memory of an image whose pixels belong to the user");
      std::string df; if (!same_pixels(a, b, &df)) fail("pixels", strf("stride %lld, context used before: %d, %u threads: the pixels differ from those drawn into an ordinary image: ", (long long)target.stride, int(reused), tc) + df + " ops: " + ds);
      target.untouched_except(ro ? BLBoxI(0, 0, 0, 0) : BLBoxI(cr.x, cr.y, cr.x + cr.w, cr.y + cr.h), ro ? "a read-only target" : "the target");
      for (Plane& p : src) if (p.mem) p.untouched_except(BLBoxI(0, 0, 0, 0), "a source");
      out(hash_image(b)); note_nontrivial(); }
    faults_on(false); c.reset(); b.reset(); for (auto& im : var.srcs) im.reset(); for (auto& im : var.masks) im.reset(); for (auto& pt : var.pats) pt.reset();
    if (!target.destroyed) fail("external:not-destroyed", "the target's memory was not handed back");
    for (Plane& p : src) if (p.mem && !p.destroyed) fail("external:not-destroyed", "a source's memory was not handed back"); }
  }
  release_caches(); leak_check(mark, "the context ended and every object was destroyed");
}
static int reg = (register_check({"R06",
  "A run draws a random operation list twice: by a synchronous context into an ordinary image with ordinary sources, and by a synchronous or asynchronous context (sometimes used for another image before) into memory owned by the user with a random stride (also negative), position and surrounding garbage, with sources and masks in such memory too, sometimes read only. The pixels must be equal, and every byte outside the target's pixels within the clip rectangle set at the start (bytes between rows, pixels outside the clip, sources, masks, read-only targets) must be as before; memory is handed back exactly once. Heap content and reuse are randomised. Non-trivial: the second context drew.",
  "real: rendering contexts, images, patterns, rasterizer, reference pipelines; simulated: threads, futex, clock, heap, thread-creation failures; not present: JIT pipelines",
  run, nullptr}), 0);
