#include "render_ops.h"
#include "res.h"
#include <cmath>
#include <limits>
#include <cstring>

namespace rops {
using sim::strf;
BLResult font_face(BLFontFace& f) {
  BLFontData fd; Res r = res_font();
  BLResult e = fd.create_from_data(r.data, r.size); if (e) return e;
  return f.create_from_data(fd, 0);
}
static double crd(Rng& r, int w) { return r.chance(1, 5) ? double(r.range(-4, w + 4)) : r.real(-0.15 * w - 2, 1.15 * w + 2); }
static BLRgba32 rcol(Rng& r) { u32 v = u32(r.next()); if (r.chance(1, 3)) v |= 0xFF000000u; return BLRgba32(v); }

BLResult random_gradient(Rng& r, BLGradient& g, int w, int h, int type) {
  g.reset(); u32 bad = 0;
  int t = type >= 0 ? type : r.range(0, 2);
  if (t == 0) bad |= g.create(BLLinearGradientValues(crd(r, w), crd(r, h), crd(r, w), crd(r, h)));
  else if (t == 1) bad |= g.create(BLRadialGradientValues(crd(r, w), crd(r, h), crd(r, w), crd(r, h), r.real(1, w), r.chance(1, 2) ? 0.0 : r.real(0, w / 3.0)));
  else bad |= g.create(BLConicGradientValues(crd(r, w), crd(r, h), r.real(-7, 7), r.chance(1, 2) ? 1.0 : r.real(0.3, 4)));
  g.set_extend_mode(BLExtendMode(r.range(0, 2)));
  int n = r.range(1, 6); for (int i = 0; i < n; i++) { double o = r.chance(1, 6) ? double(r.range(0, 1)) : r.unit(); if (r.chance(1, 4)) bad |= g.add_stop(o, BLRgba64(r.next())); else bad |= g.add_stop(o, rcol(r)); }
  if (r.chance(1, 3)) bad |= g.rotate(r.real(-3, 3)); if (r.chance(1, 4)) bad |= g.scale(r.real(0.3, 2.0)); if (r.chance(1, 6)) bad |= g.translate(r.real(-9, 9), r.real(-9, 9)); if (r.chance(1, 8)) bad |= g.skew(r.real(-0.5, 0.5), 0.1);
  return bad ? BL_ERROR_OUT_OF_MEMORY : BL_SUCCESS;
}
BLResult random_path(Rng& r, BLPath& p, int w, int h, int n, bool extreme) {
  auto P = [&]() { double x = crd(r, w), y = crd(r, h); if (extreme && r.chance(1, 60)) { x = r.pick({1e9, -1e9, 3e5, -4e6}); } if (extreme && r.chance(1, 60)) y = r.pick({1e9, -1e9, 2e5}); return BLPoint(x, y); };
  u32 bad = p.move_to(P());
  for (int i = 0; i < n; i++) switch (r.below(9)) {
    case 0: case 1: case 2: bad |= p.line_to(P()); break;
    case 3: bad |= p.quad_to(P(), P()); break;
    case 4: bad |= p.cubic_to(P(), P(), P()); break;
    case 5: bad |= p.close(); bad |= p.move_to(P()); break;
    case 6: bad |= p.conic_to(P(), P(), r.real(0.2, 3.0)); break;
    case 7: bad |= p.elliptic_arc_to(BLPoint(r.real(1, w), r.real(1, h)), r.real(-3, 3), r.chance(1, 2), r.chance(1, 2), P()); break;
    case 8: bad |= p.add_circle(BLCircle(crd(r, w), crd(r, h), r.real(1, w / 2.0)), r.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW); bad |= p.move_to(P()); break;
  }
  if (r.chance(1, 2)) bad |= p.close();
  return bad ? BL_ERROR_OUT_OF_MEMORY : BL_SUCCESS;
}
BLResult random_image(Rng& r, BLImage& im, int w, int h, BLFormat f) {
  BLResult e = im.create(w, h, f); if (e) return e;
  BLImageData d; e = im.make_mutable(&d); if (e) return e;
  u64 k = r.next(); int mode = r.range(0, 2);
  for (int y = 0; y < h; y++) { uint8_t* row = (uint8_t*)d.pixel_data + intptr_t(y) * d.stride;
    if (f == BL_FORMAT_A8) { for (int x = 0; x < w; x++) row[x] = mode == 0 ? uint8_t(sim::mix2(k, u64(y * 4096 + x))) : uint8_t((x * 9 + y * 5) & 0xFF); }
    else for (int x = 0; x < w; x++) { u32 v = mode == 0 ? u32(sim::mix2(k, u64(y * 4096 + x))) : mode == 1 ? (((x / 4 + y / 4) & 1) ? 0xFFC08020u : 0x80304050u) : (0xFF000000u | u32(x * 7) << 16 | u32(y * 11) << 8 | 0x33);
      if (f == BL_FORMAT_PRGB32) { u32 a = v >> 24; u32 o = a << 24; for (int s = 0; s < 24; s += 8) { u32 c = ((v >> s) & 255) * a / 255; o |= c << s; } v = o; } else v |= 0xFF000000u;
      memcpy(row + x * 4, &v, 4); } }
  return BL_SUCCESS;
}
bool build_scene(Scene& s, u64 seed, int w, int h, bool font) {
  Rng r(sim::mix2(seed, 0x5CE4E)); s.w = w; s.h = h;
  if (font) { if (font_face(s.face)) return false; s.has_font = true; float sz[3] = {8.f + float(r.below(8)), 14.f + float(r.below(20)), 40.f + float(r.below(60))}; for (int i = 0; i < 3; i++) if (s.fonts[i].create_from_face(s.face, sz[i])) return false;
    s.gb.set_utf8_text("Glyph Run"); s.fonts[1].shape(s.gb); }
  BLFormat fm[5] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8, BL_FORMAT_PRGB32, BL_FORMAT_PRGB32};
  for (int i = 0; i < 5; i++) if (random_image(r, s.srcs[i], i == 4 ? 1 + int(r.below(3)) : 3 + int(r.below(40)), i == 4 ? 1 : 2 + int(r.below(40)), fm[i])) return false;
  for (int i = 0; i < 7; i++) random_gradient(r, s.grads[i], w, h, i % 3);
  for (int i = 0; i < 4; i++) { const BLImage& im = s.srcs[i]; int iw = im.width(), ih = im.height(); BLRectI a(0, 0, iw, ih); if (r.chance(1, 2) && iw > 3 && ih > 3) a = BLRectI(1, 1, iw - 2, ih - 2); s.pats[i].create(im, a, BLExtendMode(r.below(BL_EXTEND_MODE_COMPLEX_MAX_VALUE + 1)), BLMatrix2D(1, 0, 0, 1, 0, 0)); if (r.chance(1, 2)) s.pats[i].rotate(r.real(-2, 2)); if (r.chance(1, 2)) s.pats[i].scale(r.real(0.4, 3)); else s.pats[i].translate(r.range(-9, 9), r.range(-9, 9)); }
  for (int i = 0; i < 6; i++) random_path(r, s.paths[i], w, h, i == 5 ? 60 : 3 + int(r.below(10)), false);
  if (r.chance(1, 12)) { BLPath& p = s.paths[5]; p.clear(); u32 n = u32(r.range(800, 2600)); if (h > 512) n = n % 40 + 8; for (u32 i = 0; i <= n; i++) { double x = double(i) * w / n, y = i & 1 ? h + 1.0 : -1.0 - r.below(3); i ? p.line_to(x, y) : p.move_to(x, y); } sim::count("comb_path"); }   // thousands of edges active in every band
  for (int i = 0; i < 2; i++) if (random_image(r, s.masks[i], 4 + int(r.below(30)), 4 + int(r.below(30)), BL_FORMAT_A8)) return false;
  return true;
}
bool clone_scene(Scene& d, const Scene& s) {
  d.w = s.w; d.h = s.h; d.has_font = s.has_font; d.face = s.face; u32 bad = 0;
  for (int i = 0; i < 3; i++) if (s.has_font) bad |= d.fonts[i].create_from_face(s.face, s.fonts[i].size());
  for (int i = 0; i < 5; i++) bad |= d.srcs[i].assign_deep(s.srcs[i]);
  for (int i = 0; i < 2; i++) bad |= d.masks[i].assign_deep(s.masks[i]);
  for (int i = 0; i < 7; i++) { const BLGradient& g = s.grads[i]; double v[BL_GRADIENT_VALUE_MAX_VALUE + 1]; for (size_t k = 0; k <= BL_GRADIENT_VALUE_MAX_VALUE; k++) v[k] = g.value(k); BLMatrix2D m = g.transform(); bad |= bl_gradient_create(&d.grads[i], g.type(), v, g.extend_mode(), g.stops(), g.size(), &m); }
  for (int i = 0; i < 4; i++) { const BLPattern& g = s.pats[i]; BLMatrix2D m = g.transform(); bad |= d.pats[i].create(d.srcs[i], g.area(), g.extend_mode(), m); }
  for (int i = 0; i < 6; i++) bad |= d.paths[i].assign_deep(s.paths[i]);
  if (s.has_font) { d.gb.set_utf8_text("Glyph Run"); bad |= d.fonts[1].shape(d.gb); }
  return !bad;
}
void scribble_scene(Scene& s, Rng& r) {
  for (BLImage* im : {&s.srcs[0], &s.srcs[1], &s.srcs[2], &s.srcs[3], &s.srcs[4], &s.masks[0], &s.masks[1]}) { BLImageData d; if (im->make_mutable(&d)) continue; for (int y = 0; y < d.size.h; y++) memset((char*)d.pixel_data + y * d.stride, int(r.below(256)), size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); }
  for (auto& g : s.grads) { switch (r.below(4)) { case 0: g.reset_stops(); g.add_stop(0, BLRgba32(0xFFFF00FFu)); break; case 1: g.add_stop(0.3, BLRgba32(0xFF00FFFFu)); break; case 2: if (g.size()) g.replace_stop(0, 0.0, BLRgba32(0xFF123456u)); g.set_value(0, 3.0); break; default: g.set_extend_mode(BL_EXTEND_MODE_REFLECT); g.scale(3.0); g.set_value(1, 77.0); break; } }
  for (auto& p : s.pats) { if (r.chance(1, 2)) p.set_image(s.srcs[4]); else { p.set_extend_mode(BL_EXTEND_MODE_REFLECT_X_REPEAT_Y); p.scale(2.0); } }
  for (auto& p : s.paths) { switch (r.below(3)) { case 0: p.translate(BLPoint(11, 5)); break; case 1: p.clear(); break; default: if (p.size() > 2) { p.set_vertex_at(1, BL_PATH_CMD_PRESERVE, BLPoint(0, 0)); p.remove_range(BLRange{p.size() / 2, p.size()}); } break; } }
  for (auto& f : s.fonts) if (s.has_font) f.set_size(5.0f + float(r.below(50)));
  s.gb.set_utf8_text("XXXXXXXXXXX");
}
static const char* kTexts[] = {"Blend2D", "AVA To", "The quick brown fox", "x", "fi ffl WAWA, y.", "\xC5\xBElu\xC5\xA5ou\xC4\x8Dk\xC3\xBD k\xC5\xAF\xC5\x88", "0123456789", "....,,,,;;;;", "Lorem ipsum dolor sit amet, consectetur"};

BLResult exec_op(BLContext& c, const Scene& s, const Profile& pf, u64 seed, u32 i, Ctl& ctl, std::string* desc) {
  Rng r(sim::mix3(seed, 0x0955, i)); int w = s.w, h = s.h; BLResult e = BL_SUCCESS;
  std::string dn; auto D = [&](const char* n) { if (desc) { if (!dn.empty()) dn += "+"; dn += n; } };
  auto done = [&](BLResult x) { if (x) { ctl.errors++; if (x == BL_ERROR_OUT_OF_MEMORY) ctl.oom++; } ctl.results = sim::mix2(ctl.results, x); if (desc) { if (x) dn += strf("=err%x", x); *desc = dn; } return x; };
  auto set_style = [&](bool stroke) -> BLResult {
    BLContextStyleSlot slot = stroke ? BL_CONTEXT_STYLE_SLOT_STROKE : BL_CONTEXT_STYLE_SLOT_FILL;
    switch (r.below(10)) {
      case 0: case 1: case 2: D("rgba32"); return c.set_style(slot, rcol(r));
      case 3: D("rgba64"); return c.set_style(slot, BLRgba64(r.next()));
      case 4: case 5: { D("grad"); const BLGradient& g = s.grads[r.below(7)]; if (r.chance(1, 3)) return c.set_style(slot, g, BLContextStyleTransformMode(r.below(3))); return c.set_style(slot, g); }
      case 6: { D("pat"); const BLPattern& g = s.pats[r.below(4)]; if (r.chance(1, 3)) return c.set_style(slot, g, BLContextStyleTransformMode(r.below(3))); return c.set_style(slot, g); }
      case 7: { D("tmpgrad"); BLGradient g; BLResult x = random_gradient(r, g, w, h); if (x) return x; x = c.set_style(slot, g); if (pf.mutate && r.chance(1, 2)) g.add_stop(0.5, rcol(r)); return x; }
      case 8: { D("tmppat"); BLImage im; Rng r2(r.next()); BLResult x = random_image(r2, im, 2 + int(r2.below(20)), 2 + int(r2.below(20)), BL_FORMAT_PRGB32); if (x) return x; BLPattern p; x = p.create(im); if (x) return x; x = p.set_extend_mode(BLExtendMode(r2.below(9))); if (x) return x; if (r2.chance(1, 2)) x = p.rotate(r2.real(-2, 2)); if (x) return x; x = c.set_style(slot, p); return x; }
      default: { D("var"); BLVar v; BLResult x = BL_SUCCESS; if (r.chance(1, 2)) x = v.assign(rcol(r)); else x = v.assign(s.grads[r.below(7)]); if (x) return x; return c.set_style(slot, v); }
    }
  };
  auto B = [&]() { double x0 = crd(r, w), y0 = crd(r, h); return BLBox(x0, y0, x0 + r.real(0, w * 0.8), y0 + r.real(0, h * 0.8)); };
  auto BI = [&]() { int x0 = r.range(-5, w), y0 = r.range(-5, h); return BLRectI(x0, y0, r.range(0, w), r.range(0, h)); };
  if (pf.burst && !pf.draws_only && r.chance(1, 40)) {
    D("burst"); int n = r.chance(1, 3) ? r.range(257, 420) : r.range(30, 200); int kind = r.range(0, 5); BLResult x = BL_SUCCESS;
    for (int k = 0; k < n; k++) { BLResult y = BL_SUCCESS; double px = r.real(0, w), py = r.real(0, h);
      switch (kind) { case 0: y = c.fill_rect(BLRectI(int(px), int(py), 3, 2), BLRgba32(u32(r.next()))); break; case 1: y = c.fill_rect(BLRect(px, py, 2.5, 3.25)); break; case 2: y = c.stroke_line(px, py, px + 5, py + 4); break; case 3: y = c.fill_triangle(px, py, px + 4, py + 1, px + 2, py + 6); break; case 4: y = c.blit_image(BLPointI(int(px), int(py)), s.srcs[4]); break; default: y = c.fill_circle(px, py, 2.5, k & 1 ? BLRgba32(0x80FF0000u) : BLRgba32(0xFF00FF00u)); break; }
      if (y) x = y; if (y == BL_ERROR_OUT_OF_MEMORY) ctl.oom++; }
    return done(x);
  }
  u32 k = pf.draws_only ? 44 + r.below(56) : r.below(100);
  if (k < 5) { D("comp_op"); static const BLCompOp ops[] = {BL_COMP_OP_SRC_OVER, BL_COMP_OP_SRC_COPY, BL_COMP_OP_PLUS, BL_COMP_OP_CLEAR, BL_COMP_OP_DST_COPY, BL_COMP_OP_SRC_OVER, BL_COMP_OP_SRC_COPY, BL_COMP_OP_XOR, BL_COMP_OP_SRC_IN, BL_COMP_OP_MULTIPLY}; return done(c.set_comp_op(ops[r.below(r.chance(1, 8) ? 10 : 7)])); }
  if (k < 8) { D("alpha"); double a = r.chance(1, 3) ? 1.0 : r.unit(); u32 q = r.below(3); return done(q == 0 ? c.set_global_alpha(a) : q == 1 ? c.set_fill_alpha(a) : c.set_stroke_alpha(a)); }
  if (k < 14) { u32 q = r.below(9); D("transform");
    switch (q) { case 0: return done(c.reset_transform()); case 1: return done(c.translate(r.real(-20, 20), r.real(-20, 20))); case 2: return done(c.scale(r.real(0.5, 1.8))); case 3: return done(c.rotate(r.real(-3, 3), w / 2.0, h / 2.0)); case 4: return done(c.skew(r.real(-0.4, 0.4), r.real(-0.4, 0.4)));
      case 5: return done(c.set_transform(BLMatrix2D(r.real(-1.5, 1.5), r.real(-1, 1), r.real(-1, 1), r.real(-1.5, 1.5), r.real(0, w), r.real(0, h)))); case 6: D("user_to_meta"); return done(r.chance(1, 3) ? c.user_to_meta() : c.translate(double(r.range(-8, 8)), double(r.range(-8, 8)))); case 7: return done(c.post_translate(r.range(-6, 6), r.range(-6, 6))); default: return done(c.translate(BLPointI(r.range(-9, 9), r.range(-9, 9)))); } }
  if (k < 18) { u32 q = r.below(4); D("clip"); if (q == 0) return done(pf.restore_clip ? c.restore_clipping() : BLResult(BL_SUCCESS)); if (q == 1) return done(c.clip_to_rect(BLRectI(r.range(0, w / 2), r.range(0, h / 2), r.range(0, w), r.range(0, h)))); if (q == 2) { BLBox b = B(); return done(c.clip_to_rect(BLRect(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0))); } return done(c.clip_to_rect(2.5, 3.25, w * 0.8, h * 0.9)); }
  if (k < 24) { if (!pf.saves) return done(e); u32 q = r.below(6);
    if (q < 2) { D("save"); return done(c.save()); } if (q == 2) { D("save_cookie"); BLContextCookie ck; BLResult x = c.save(ck); if (!x) ctl.cookies.push_back(ck); return done(x); }
    if (q == 3 && !ctl.cookies.empty()) { D("restore_cookie"); BLContextCookie ck = ctl.cookies.back(); ctl.cookies.pop_back(); return done(c.restore(ck)); } D("restore"); return done(c.restore()); }
  if (k < 32) { bool st = r.chance(1, 3); return done(set_style(st)); }
  if (k < 38) { u32 q = r.below(9); D("stroke_opt");
    switch (q) { case 0: case 1: return done(c.set_stroke_width(r.chance(1, 8) ? 0.0 : r.real(0.2, 18))); case 2: return done(c.set_stroke_join(BLStrokeJoin(r.below(5)))); case 3: return done(c.set_stroke_caps(BLStrokeCap(r.below(6)))); case 4: return done(c.set_stroke_miter_limit(r.real(1, 9))); case 5: { BLArray<double> d; int n = r.range(0, 4); BLResult x = BL_SUCCESS; for (int j = 0; j < n; j++) { BLResult y = d.append(r.real(0.5, 9)); if (y) x = y; } if (x) return done(x); return done(c.set_stroke_dash_array(d)); } case 6: return done(c.set_stroke_dash_offset(r.real(-5, 9))); case 7: return done(c.set_stroke_transform_order(BLStrokeTransformOrder(r.below(2))));
      default: { BLStrokeOptions o; o.width = r.real(0.5, 9); o.join = uint8_t(r.below(5)); o.start_cap = uint8_t(r.below(6)); o.end_cap = uint8_t(r.below(6)); BLResult x = BL_SUCCESS; if (r.chance(1, 2)) { x = o.dash_array.append(3.0, 2.0); } if (x) return done(x); x = c.set_stroke_options(o); if (pf.mutate) o.dash_array.append(1.0); return done(x); } } }
  if (k < 42) { u32 q = r.below(7); D("hint"); switch (q) { case 0: return done(c.set_pattern_quality(BLPatternQuality(r.below(2)))); case 1: return done(c.set_gradient_quality(BLGradientQuality(r.below(3)))); case 2: return done(c.set_fill_rule(BLFillRule(r.below(2)))); case 3: return done(c.set_flatten_tolerance(r.real(0.05, 0.5))); case 4: return done(c.swap_styles(BLContextStyleSwapMode(r.below(2)))); case 5: { bool f = r.chance(1, 2); if (r.chance(3, 4)) { D("restyle"); return done(set_style(!f)); } D("disable_style"); return done(f ? c.disable_fill_style() : c.disable_stroke_style()); }
      default: { BLApproximationOptions o = c.approximation_options(); o.simplify_tolerance = r.real(0.02, 0.3); o.offset_parameter = r.real(0.3, 0.6); return done(c.set_approximation_options(o)); } } }
  if (k < 44) { if (!pf.flush || !ctl.allow_flush) return done(e); if (r.chance(1, 2)) { D("flush"); BLResult x = c.flush(BL_CONTEXT_FLUSH_NO_FLAGS); return done(x); } D("flush_sync"); BLResult x = c.flush(BL_CONTEXT_FLUSH_SYNC); if (ctl.after_flush) ctl.after_flush(i); return done(x); }
  if (k < 46) { u32 q = r.below(6); if (q == 0) { D("clear_all"); return done(c.clear_all()); } if (q == 1) { D("clear_rect_i"); return done(c.clear_rect(BI())); } if (q == 2) { D("clear_rect_d"); BLBox b = B(); return done(c.clear_rect(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0)); } D("fill_all"); if (q == 3) return done(c.fill_all(rcol(r))); if (q == 4) return done(c.fill_all(s.grads[r.below(7)])); return done(c.fill_all()); }
  if (k < 50) { BLRectI a = BI(); u32 q = r.below(4); D("fill_rect_i"); if (q == 0) return done(c.fill_rect(a, rcol(r))); if (q == 1) return done(c.fill_rect(a, s.grads[r.below(7)])); if (q == 2) return done(c.fill_rect(a, s.pats[r.below(4)])); return done(c.fill_rect(a)); }
  if (k < 55) { BLBox b = B(); u32 q = r.below(4); D("fill_rect_d"); BLRect a(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0); if (q == 0) return done(c.fill_box(b, rcol(r))); if (q == 1) return done(c.fill_rect(a, s.grads[r.below(7)])); if (q == 2) return done(c.fill_box(b, s.pats[r.below(4)])); return done(c.fill_rect(a)); }
  if (k < 61) { bool st = r.chance(1, 3); double cx = crd(r, w), cy = crd(r, h), rx = r.real(0.5, w * 0.6), ry = r.real(0.5, h * 0.6), a0 = r.real(-4, 4), sw = r.real(-6, 6); D(st ? "stroke_shape" : "fill_shape");
    switch (r.below(7)) { case 0: return done(st ? c.stroke_circle(cx, cy, rx) : c.fill_circle(cx, cy, rx)); case 1: return done(st ? c.stroke_ellipse(cx, cy, rx, ry) : c.fill_ellipse(cx, cy, rx, ry, s.grads[r.below(7)])); case 2: return done(st ? c.stroke_round_rect(cx, cy, rx, ry, r.real(0, 9), r.real(0, 9)) : c.fill_round_rect(cx, cy, rx, ry, r.real(0, 9), r.real(0, 9))); case 3: return done(st ? c.stroke_chord(cx, cy, rx, ry, a0, sw) : c.fill_chord(cx, cy, rx, ry, a0, sw)); case 4: return done(st ? c.stroke_pie(cx, cy, rx, ry, a0, sw) : c.fill_pie(cx, cy, rx, ry, a0, sw)); case 5: return done(st ? c.stroke_arc(cx, cy, rx, ry, a0, sw) : c.fill_triangle(cx, cy, cx + rx, cy - ry, cx + 3, cy + ry)); default: return done(st ? c.stroke_triangle(cx, cy, cx + rx, cy - ry, cx + 3, cy + ry) : c.fill_circle(cx, cy, rx, rcol(r))); } }
  if (k < 65) { int n = r.range(2, 14); BLPoint p[16]; BLPointI pi[16]; for (int j = 0; j < n; j++) { p[j] = BLPoint(crd(r, w), crd(r, h)); pi[j] = BLPointI(int(p[j].x), int(p[j].y)); } D("poly"); switch (r.below(6)) { case 0: return done(c.fill_polygon(p, size_t(n))); case 1: return done(c.fill_polygon(pi, size_t(n))); case 2: return done(c.stroke_polygon(p, size_t(n))); case 3: return done(c.stroke_polyline(p, size_t(n))); case 4: return done(c.stroke_polyline(pi, size_t(n))); default: return done(c.fill_polygon(p, size_t(n), s.grads[r.below(7)])); } }
  if (k < 68) { int n = r.range(1, 9); BLRect a[10]; BLRectI ai[10]; BLBox b[10]; for (int j = 0; j < n; j++) { b[j] = B(); a[j] = BLRect(b[j].x0, b[j].y0, b[j].x1 - b[j].x0, b[j].y1 - b[j].y0); ai[j] = BI(); } D("rect_array"); switch (r.below(5)) { case 0: return done(c.fill_rect_array(a, size_t(n))); case 1: return done(c.fill_rect_array(ai, size_t(n))); case 2: return done(c.stroke_rect_array(a, size_t(n))); case 3: return done(c.stroke_box_array(b, size_t(n))); default: return done(c.fill_box_array(b, size_t(n), rcol(r))); } }
  if (k < 76) { bool st = r.chance(2, 5); u32 q = r.below(5); D(st ? "stroke_path" : "fill_path");
    if (st && r.chance(1, 3)) { D("styled"); const BLPath& p = s.paths[r.below(6)]; double x0 = crd(r, w), y0 = crd(r, h), d1 = r.real(1, w); switch (r.below(8)) { case 0: return done(c.stroke_path(p, s.grads[r.below(7)])); case 1: return done(c.stroke_path(p, s.pats[r.below(4)])); case 2: return done(c.stroke_circle(x0, y0, d1, s.grads[r.below(7)])); case 3: return done(c.stroke_rect(BLRect(x0, y0, d1, 9), s.pats[r.below(4)])); case 4: return done(c.stroke_line(x0, y0, x0 + d1, y0 - 7, rcol(r))); case 5: { BLPoint q3[3] = {BLPoint(x0, y0), BLPoint(x0 + d1, y0), BLPoint(x0, y0 + d1)}; return done(c.stroke_polygon(q3, size_t(3), s.grads[r.below(7)])); } case 6: { BLVar v; BLResult x = v.assign(s.pats[r.below(4)]); if (x) return done(x); return done(c.stroke_path(p, v)); } default: return done(c.stroke_box(BLBox(x0, y0, x0 + d1, y0 + 5), s.grads[r.below(7)])); } }
    if (q < 2) { const BLPath& p = s.paths[r.below(6)]; return done(st ? c.stroke_path(p) : c.fill_path(p)); }
    if (q == 2) { D("origin"); const BLPath& p = s.paths[r.below(6)]; BLPoint o(r.real(-20, 20), r.real(-20, 20)); return done(st ? c.stroke_path(o, p, rcol(r)) : c.fill_path(o, p, rcol(r))); }
    D("tmp"); BLPath p; BLResult x = random_path(r, p, w, h, r.range(1, r.chance(1, 6) ? 80 : 12), pf.extreme); if (x) return done(x); x = st ? c.stroke_path(p) : c.fill_path(p); if (pf.mutate) { if (r.chance(1, 2)) p.translate(BLPoint(7, 3)); else p.clear(); } return done(x); }
  if (k < 86) { bool st = r.chance(1, 4); if (!pf.text || !s.has_font) { D("fill_path"); return done(c.fill_path(s.paths[r.below(6)])); }
    const BLFont& f = s.fonts[r.below(3)]; const char* t = kTexts[r.below(9)]; BLPoint o(crd(r, w) * 0.6, crd(r, h)); BLPointI oi(int(o.x), int(o.y)); D(st ? "stroke_text" : "fill_text");
    const BLGradient& xg = s.grads[r.below(7)]; const BLPattern& xp = s.pats[r.below(4)]; BLRgba32 xc = rcol(r); u32 xs = r.below(8);   // explicit style of the call, if any
    auto text = [&](auto&& sel) -> BLResult { switch (xs) { case 0: D("x_rgba"); return sel(xc); case 1: D("x_grad"); return sel(xg); case 2: D("x_pat"); return sel(xp); default: return BL_ERROR_INVALID_STATE; } };
    bool xst = xs < 3, isi = r.chance(1, 3);
    // texts around the limit up to which a command embeds them: bytes and characters differ by encoding
    auto lng = [&](size_t n) { std::string o2; while (o2.size() < n) o2 += kTexts[r.below(9)], o2 += ' '; if (r.chance(3, 4)) { o2.resize(n); for (char& ch : o2) if (ch & 0x80) ch = 'e'; } return o2; };
    switch (r.below(10)) {
      case 0: { D("tmpstr"); std::string ts = t; BLResult x; if (xst) x = text([&](const auto& y) { return st ? (isi ? c.stroke_utf8_text(oi, f, ts.data(), ts.size(), y) : c.stroke_utf8_text(o, f, ts.data(), ts.size(), y)) : (isi ? c.fill_utf8_text(oi, f, ts.data(), ts.size(), y) : c.fill_utf8_text(o, f, ts.data(), ts.size(), y)); }); else x = st ? c.stroke_utf8_text(o, f, ts.data(), ts.size()) : c.fill_utf8_text(o, f, ts.data(), ts.size()); if (pf.mutate) memset(&ts[0], 'Q', ts.size()); return done(x); }
      case 1: return done(st ? c.stroke_utf8_text(oi, f, t) : c.fill_utf8_text(oi, f, t));
      case 2: return done(c.fill_utf8_text(o, f, t, SIZE_MAX, s.grads[r.below(7)]));
      case 3: { u32 u[12]; int n = 0; for (; n < 10 && t[n]; n++) u[n] = u32((unsigned char)t[n] & 0x7F); BLResult x = st ? c.stroke_utf32_text(o, f, u, size_t(n)) : c.fill_utf32_text(o, f, u, size_t(n)); if (pf.mutate) memset(u, 0x41, sizeof u); return done(x); }
      case 4: { uint16_t u[12]; int n = 0; for (; n < 10 && t[n]; n++) u[n] = uint16_t((unsigned char)t[n] & 0x7F); BLResult x = st ? c.stroke_utf16_text(o, f, u, size_t(n)) : c.fill_utf16_text(o, f, u, size_t(n)); if (pf.mutate) memset(u, 0x41, sizeof u); return done(x); }
      case 5: { D("glyph_run"); const BLGlyphRun& g = s.gb.glyph_run(); const BLFont& f1 = s.fonts[1]; if (xst) return done(text([&](const auto& y) { return st ? (isi ? c.stroke_glyph_run(oi, f1, g, y) : c.stroke_glyph_run(o, f1, g, y)) : (isi ? c.fill_glyph_run(oi, f1, g, y) : c.fill_glyph_run(o, f1, g, y)); })); return done(st ? c.stroke_glyph_run(o, f1, g) : c.fill_glyph_run(o, f1, g)); }
      case 6: { D("longtext"); static const int lens[] = {63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}; std::string ts = lng(size_t(lens[r.below(13)])); BLResult x; u32 enc = r.below(4); bool z = r.chance(1, 3);
        if (enc == 0) { D("u8"); size_t n = z ? SIZE_MAX : ts.size(); x = st ? c.stroke_utf8_text(o, f, ts.c_str(), n) : c.fill_utf8_text(o, f, ts.c_str(), n); if (pf.mutate) memset(&ts[0], 'Q', ts.size()); }
        else if (enc == 1) { D("u16"); std::vector<uint16_t> u; for (char ch : ts) u.push_back(uint16_t((unsigned char)ch & 0x7F)); size_t n = u.size(); u.push_back(0); if (z) n = SIZE_MAX; x = st ? c.stroke_utf16_text(o, f, u.data(), n) : c.fill_utf16_text(o, f, u.data(), n); if (pf.mutate) std::fill(u.begin(), u.end(), uint16_t('Q')); }
        else if (enc == 2) { D("u32"); std::vector<u32> u; for (char ch : ts) u.push_back(u32((unsigned char)ch & 0x7F)); size_t n = u.size(); u.push_back(0); if (z) n = SIZE_MAX; x = st ? c.stroke_utf32_text(o, f, u.data(), n) : c.fill_utf32_text(o, f, u.data(), n); if (pf.mutate) std::fill(u.begin(), u.end(), u32('Q')); }
        else { D("u8i"); x = st ? c.stroke_utf8_text(oi, f, ts.c_str(), ts.size()) : c.fill_utf8_text(oi, f, ts.c_str(), ts.size()); if (pf.mutate) memset(&ts[0], 'Q', ts.size()); }
        return done(x); }
      case 7: { D("longglyphs"); BLGlyphBuffer gb; std::string ts = lng(size_t(r.range(60, 200))); BLResult x = gb.set_utf8_text(ts.data(), ts.size()); if (!x) x = f.shape(gb); if (x) return done(x); x = st ? c.stroke_glyph_run(o, f, gb.glyph_run()) : c.fill_glyph_run(o, f, gb.glyph_run()); if (pf.mutate) gb.clear(); return done(x); }
      case 8: { D("placed"); BLGlyphRun g = s.gb.glyph_run(); std::vector<BLPoint> at; for (size_t j = 0; j < g.size; j++) at.push_back(BLPoint(r.real(-5, w * 0.5), r.real(-5, h * 0.5))); static const u32 pt[] = {BL_GLYPH_PLACEMENT_TYPE_NONE, BL_GLYPH_PLACEMENT_TYPE_USER_UNITS, BL_GLYPH_PLACEMENT_TYPE_ABSOLUTE_UNITS, BL_GLYPH_PLACEMENT_TYPE_DESIGN_UNITS}; g.placement_type = uint8_t(pt[r.below(4)]); g.placement_data = at.data(); g.placement_advance = int8_t(sizeof(BLPoint)); if (g.placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE) { g.placement_data = nullptr; } BLResult x = st ? c.stroke_glyph_run(o, s.fonts[1], g) : c.fill_glyph_run(o, s.fonts[1], g); if (pf.mutate) std::fill(at.begin(), at.end(), BLPoint(3, 3)); return done(x); }
      default: { D("tmpglyphs"); BLGlyphBuffer gb; BLResult x = gb.set_utf8_text(t); if (!x) x = f.shape(gb); if (x) return done(x); x = st ? c.stroke_glyph_run(o, f, gb.glyph_run()) : c.fill_glyph_run(o, f, gb.glyph_run()); if (pf.mutate) gb.clear(); return done(x); } } }
  if (k < 90) { if (!pf.masks) return done(e); const BLImage& m = s.masks[r.below(2)]; BLPoint o(crd(r, w), crd(r, h)); BLPointI oi(r.range(-6, w), r.range(-6, h)); BLRectI a(r.range(0, 2), r.range(0, 2), r.range(1, m.width() - 2), r.range(1, m.height() - 2)); D("fill_mask");
    switch (r.below(10)) { case 6: return done(c.fill_mask(o, m, a, s.grads[r.below(7)])); case 7: return done(c.fill_mask(o, m, s.pats[r.below(4)])); case 8: return done(c.fill_mask(oi, m, a, rcol(r))); case 9: return done(c.fill_mask(o, m, a)); case 0: return done(c.fill_mask(oi, m)); case 1: return done(c.fill_mask(oi, m, a)); case 2: return done(c.fill_mask(o, m)); case 3: return done(c.fill_mask(oi, m, s.grads[r.below(7)])); case 4: return done(c.fill_mask(oi, m, rcol(r))); default: { D("tmp"); BLImage t; Rng r2(r.next()); if (random_image(r2, t, 9, 7, BL_FORMAT_A8)) return done(BL_ERROR_OUT_OF_MEMORY); BLResult x = c.fill_mask(oi, t); return done(x); } } }
  { const BLImage& im = s.srcs[r.below(5)]; BLPoint o(crd(r, w), crd(r, h)); BLPointI oi(r.range(-9, w), r.range(-9, h)); int iw = im.width(), ih = im.height(); BLRectI a(0, 0, iw, ih); if (iw > 3 && ih > 3 && r.chance(1, 2)) a = BLRectI(r.range(0, 1), r.range(0, 1), r.range(1, iw - 1), r.range(1, ih - 1)); BLBox b = B(); D("blit");
    switch (r.below(8)) { case 0: return done(c.blit_image(oi, im)); case 1: return done(c.blit_image(oi, im, a)); case 2: return done(c.blit_image(o, im)); case 3: return done(c.blit_image(o, im, a)); case 4: return done(c.blit_image(BI(), im)); case 5: return done(c.blit_image(BI(), im, a)); case 6: return done(c.blit_image(BLRect(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0), im, a)); default: { D("tmp"); BLImage t; Rng r2(r.next()); BLResult x = random_image(r2, t, 1 + int(r2.below(30)), 1 + int(r2.below(30)), r2.chance(1, 3) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32); if (x) return done(x); x = r2.chance(1, 2) ? c.blit_image(oi, t) : c.blit_image(BI(), t);
        return done(x); } } }
}
u64 hash_image(const BLImage& im) {
  BLImageData d; if (im.get_data(&d)) return 0; u64 h = sim::mix3(u64(d.size.w), u64(d.size.h), d.format); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4;
  for (int y = 0; y < d.size.h; y++) h = sim::mix2(h, sim::hash_bytes((const uint8_t*)d.pixel_data + intptr_t(y) * d.stride, size_t(d.size.w) * bpp));
  return h;
}
bool same_pixels(const BLImage& a, const BLImage& b, std::string* diff) {
  BLImageData x, y; a.get_data(&x); b.get_data(&y);
  if (x.size != y.size || x.format != y.format) { if (diff) *diff = "different size or format"; return false; }
  size_t bpp = x.format == BL_FORMAT_A8 ? 1 : 4; int bad = 0; std::string f;
  for (int r = 0; r < x.size.h; r++) { const uint8_t* p = (const uint8_t*)x.pixel_data + intptr_t(r) * x.stride; const uint8_t* q = (const uint8_t*)y.pixel_data + intptr_t(r) * y.stride;
    for (int c = 0; c < x.size.w; c++) { bool same; if (x.format == BL_FORMAT_XRGB32) same = !memcmp(p + c * 4, q + c * 4, 3); else same = !memcmp(p + size_t(c) * bpp, q + size_t(c) * bpp, bpp);
      if (!same) { if (bad++ < 3) { u32 u = 0, v = 0; memcpy(&u, p + size_t(c) * bpp, bpp); memcpy(&v, q + size_t(c) * bpp, bpp); f += strf(" (%d,%d): %08x vs %08x;", c, r, u, v); } } } }
  if (bad && diff) *diff = strf("%d pixels differ:%s", bad, f.c_str());
  return bad == 0;
}
}
