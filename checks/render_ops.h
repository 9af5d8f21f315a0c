// Generator of rendering workloads. Operation i of a workload is a pure function of (seed, i), so operations can
// be dropped by the minimiser without changing the others.
#pragma once
#include "../sim/sim.h"
#include <blend2d/blend2d.h>
#include <string>

namespace rops {
using sim::Rng; using sim::u32; using sim::u64; using sim::i64;

struct Scene {                    // sources shared by the operations
  BLFontFace face; BLFont fonts[3]; BLImage srcs[5]; BLGradient grads[7]; BLPattern pats[4]; BLPath paths[6]; BLImage masks[2]; BLGlyphBuffer gb;
  bool has_font = false;
  int w = 0, h = 0;
};
struct Profile {
  bool text = true, burst = true, flush = true, mutate = true, extreme = true, saves = true, masks = true, draws_only = false, restore_clip = true;
  u32 style_weight = 3, draw_weight = 6;
};
struct Ctl {                      // per execution state (not part of the drawing)
  std::vector<BLContextCookie> cookies;
  u64 results = 0; u32 errors = 0; u32 oom = 0; std::string last;
  std::function<void(u32)> after_flush;     // called after a synchronising flush
  bool allow_flush = true;
};
bool build_scene(Scene& s, u64 seed, int w, int h, bool font);
BLResult font_face(BLFontFace& f);          // the embedded font
// Executes operation i. `desc` receives a description when not null.
BLResult exec_op(BLContext& c, const Scene& s, const Profile& p, u64 seed, u32 i, Ctl& ctl, std::string* desc = nullptr);
// Deep copies: every object of the clone is independent of the original (fonts share the face).
bool clone_scene(Scene& d, const Scene& s);
// Overwrites all data of the scene's objects in place.
void scribble_scene(Scene& s, Rng& r);
u64 hash_image(const BLImage& im);
bool same_pixels(const BLImage& a, const BLImage& b, std::string* diff);
BLResult random_gradient(Rng& r, BLGradient& g, int w, int h, int type = -1);
BLResult random_path(Rng& r, BLPath& p, int w, int h, int n, bool extreme);
BLResult random_image(Rng& r, BLImage& im, int w, int h, BLFormat f);
}
