// R05: the state of a rendering context is what its operations say (reference model), and drawing uses exactly it.
#include "common.h"
#include <cmath>
#include <limits>
using namespace sim; using namespace rops; using namespace cm;
namespace {
struct StyleM { int kind = 1; u32 c32 = 0xFF000000u; u64 c64 = 0; BLRgba c{}; BLGradient g; BLPattern p; BLMatrix2D M{1, 0, 0, 1, 0, 0}; u32 gq = 0, pq = 0; };   // 0 none, 1 rgba32, 2 rgba64, 3 rgba, 4 gradient, 5 pattern
struct ClipOp { bool i; BLRectI ri; BLRect rd; BLMatrix2D F; };
struct StrokeM { double width = 1, miter = 4, dash_off = 0; u32 cap[2] = {0, 0}, join = 0, order = 0; std::vector<double> dash; };
struct State {
  u32 comp = 0, rule = 0, hint[3] = {}; u32 fmode = 0, omode = 0; double ftol = 0, opar = 0; double galpha = 1, alpha[2] = {1, 1}; StyleM st[2]; StrokeM sk;
  BLMatrix2D meta{1, 0, 0, 1, 0, 0}, user{1, 0, 0, 1, 0, 0}; std::vector<ClipOp> clips;
};
struct Saved { State s; bool cookie; u32 cid; };
const double kNaN = std::numeric_limits<double>::quiet_NaN();
bool same_m(const BLMatrix2D& a, const BLMatrix2D& b) { for (int i = 0; i < 6; i++) { double x = a.m[i], y = b.m[i]; if (std::isnan(x) && std::isnan(y)) continue; if (std::fabs(x - y) > 1e-9 * (1 + std::fabs(x) + std::fabs(y))) return false; } return true; }
BLMatrix2D mul(const BLMatrix2D& a, const BLMatrix2D& b) {
  return BLMatrix2D(a.m00 * b.m00 + a.m01 * b.m10, a.m00 * b.m01 + a.m01 * b.m11, a.m10 * b.m00 + a.m11 * b.m10, a.m10 * b.m01 + a.m11 * b.m11, a.m20 * b.m00 + a.m21 * b.m10 + b.m20, a.m20 * b.m01 + a.m21 * b.m11 + b.m21);
}
double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
std::string mstr(const BLMatrix2D& m) { return strf("[%g %g %g %g %g %g]", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21); }

// Puts the state of the model into a fresh context.
void apply(BLContext& t, const State& m) {
  for (auto& k : m.clips) { t.set_transform(k.F); if (k.i) t.clip_to_rect(k.ri); else t.clip_to_rect(k.rd); }
  for (int i = 0; i < 2; i++) { const StyleM& s = m.st[i]; BLContextStyleSlot slot = BLContextStyleSlot(i); t.set_gradient_quality(BLGradientQuality(s.gq)); t.set_pattern_quality(BLPatternQuality(s.pq)); t.set_transform(s.M);
    switch (s.kind) { case 0: t.disable_style(slot); break; case 1: t.set_style(slot, BLRgba32(s.c32)); break; case 2: t.set_style(slot, BLRgba64(s.c64)); break; case 3: t.set_style(slot, s.c); break; case 4: t.set_style(slot, s.g); break; default: t.set_style(slot, s.p); break; } }
  t.set_rendering_quality(BLRenderingQuality(m.hint[0])); t.set_gradient_quality(BLGradientQuality(m.hint[1])); t.set_pattern_quality(BLPatternQuality(m.hint[2]));
  t.set_comp_op(BLCompOp(m.comp)); t.set_fill_rule(BLFillRule(m.rule));
  { BLApproximationOptions o = t.approximation_options(); o.flatten_mode = uint8_t(m.fmode); o.flatten_tolerance = m.ftol; o.offset_mode = uint8_t(m.omode); o.offset_parameter = m.opar; t.set_approximation_options(o); }
  t.set_global_alpha(m.galpha); t.set_fill_alpha(m.alpha[0]); t.set_stroke_alpha(m.alpha[1]);
  { BLStrokeOptions o; o.width = m.sk.width; o.miter_limit = m.sk.miter; o.dash_offset = m.sk.dash_off; o.start_cap = uint8_t(m.sk.cap[0]); o.end_cap = uint8_t(m.sk.cap[1]); o.join = uint8_t(m.sk.join); o.transform_order = uint8_t(m.sk.order); if (!m.sk.dash.empty()) o.dash_array.assign_data(m.sk.dash.data(), m.sk.dash.size()); t.set_stroke_options(o); }
  t.set_transform(m.meta); t.user_to_meta(); t.set_transform(m.user);
}
// Compares every getter with the model.
void verify(const BLContext& c, const State& m, size_t saved, const std::string& after) {
  auto bad = [&](const char* what, const std::string& got, const std::string& want) { fail(std::string("state:") + what, strf("%s is %s, the operations imply %s; after %s", what, got.c_str(), want.c_str(), after.c_str())); };
  auto U = [&](const char* w, u64 a, u64 b) { if (a != b) bad(w, strf("%llu", (unsigned long long)a), strf("%llu", (unsigned long long)b)); };
  auto N = [&](const char* w, double a, double b) { if (!(a == b)) bad(w, strf("%.17g", a), strf("%.17g", b)); };
  U("comp_op", c.comp_op(), m.comp); U("fill_rule", c.fill_rule(), m.rule);
  U("rendering_quality", c.rendering_quality(), m.hint[0]); U("gradient_quality", c.gradient_quality(), m.hint[1]); U("pattern_quality", c.pattern_quality(), m.hint[2]);
  U("get_hint", bl_context_get_hint(&c, BL_CONTEXT_HINT_PATTERN_QUALITY), m.hint[2]); { BLContextHints h{}; bl_context_get_hints(&c, &h); U("hints.rendering", h.rendering_quality, m.hint[0]); U("hints.gradient", h.gradient_quality, m.hint[1]); U("hints.pattern", h.pattern_quality, m.hint[2]); }
  U("flatten_mode", c.flatten_mode(), m.fmode); N("flatten_tolerance", c.flatten_tolerance(), m.ftol); U("offset_mode", c.approximation_options().offset_mode, m.omode); N("offset_parameter", c.approximation_options().offset_parameter, m.opar);
  N("global_alpha", c.global_alpha(), m.galpha); N("fill_alpha", c.fill_alpha(), m.alpha[0]); N("stroke_alpha", c.stroke_alpha(), m.alpha[1]);
  const StrokeM& k = m.sk; N("stroke_width", c.stroke_width(), k.width); N("stroke_miter_limit", c.stroke_miter_limit(), k.miter); N("stroke_dash_offset", c.stroke_dash_offset(), k.dash_off); U("stroke_join", c.stroke_join(), k.join); U("stroke_start_cap", c.stroke_start_cap(), k.cap[0]); U("stroke_end_cap", c.stroke_end_cap(), k.cap[1]); U("stroke_transform_order", c.stroke_transform_order(), k.order);
  { const BLArray<double>& d = c.stroke_dash_array(); U("stroke_dash_array size", d.size(), k.dash.size()); for (size_t i = 0; i < k.dash.size(); i++) N("stroke_dash_array", d[i], k.dash[i]); }
  if (!same_m(c.meta_transform(), m.meta)) bad("meta_transform", mstr(c.meta_transform()), mstr(m.meta)); if (!same_m(c.user_transform(), m.user)) bad("user_transform", mstr(c.user_transform()), mstr(m.user));
  BLMatrix2D f = mul(m.user, m.meta); if (!same_m(c.final_transform(), f)) bad("final_transform", mstr(c.final_transform()), mstr(f));
  U("saved_state_count", c.saved_state_count(), saved);
  for (int i = 0; i < 2; i++) { const StyleM& s = m.st[i]; const char* nm = i ? "stroke_style" : "fill_style"; BLContextStyleSlot slot = BLContextStyleSlot(i);
    static const BLObjectType ty[] = {BL_OBJECT_TYPE_NULL, BL_OBJECT_TYPE_RGBA32, BL_OBJECT_TYPE_RGBA64, BL_OBJECT_TYPE_RGBA, BL_OBJECT_TYPE_GRADIENT, BL_OBJECT_TYPE_PATTERN};
    U(nm, c.style_type(slot), ty[s.kind]); BLVar v, w; if (c.get_style(slot, v)) fail(std::string("state:get:") + nm, "get_style() failed");
    if (v.type() != ty[s.kind]) bad(nm, strf("a variant of type %u", v.type()), strf("type %u", ty[s.kind]));
    switch (s.kind) { case 1: U(nm, v.as<BLRgba32>().value, s.c32); break; case 2: U(nm, v.as<BLRgba64>().value, s.c64); break; case 3: { BLRgba q = v.as<BLRgba>(); N(nm, q.r, s.c.r); N(nm, q.g, s.c.g); N(nm, q.b, s.c.b); N(nm, q.a, s.c.a); break; }
      case 4: if (!v.as<BLGradient>().equals(s.g)) bad(nm, "a different gradient", "the gradient which was set"); break; case 5: if (!v.as<BLPattern>().equals(s.p)) bad(nm, "a different pattern", "the pattern which was set"); break; }
    if (s.kind < 4) continue; 
    BLResult e = c.get_transformed_style(slot, w); if (e == BL_ERROR_OUT_OF_MEMORY) continue; if (e) fail(std::string("state:gett:") + nm, "get_transformed_style() failed");
    BLMatrix2D t = s.kind == 4 ? w.as<BLGradient>().transform() : w.as<BLPattern>().transform(), x = mul(s.kind == 4 ? s.g.transform() : s.p.transform(), s.M); if (!same_m(t, x)) bad(i ? "transformed stroke style" : "transformed fill style", mstr(t), mstr(x)); }
}
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r); tune_heap(r); tune_waits(r); tune_threads(r); T.access_mean = r.pick({u64(0), u64(0), u64(30000)}); tuning_applied();
  int w = r.pick({24, 33, 64}), h = r.pick({17, 40, 64}); BLFormat fmt = random_format(r); bool text = r.chance(1, 5); u64 wseed = r.next();
  u32 nops = u32(r.range(6, 70)); set_nops(nops); u32 dw = r.pick({10u, 25u, 40u}); bool eager = r.chance(1, 3); bool oom = r.chance(1, 3); u32 rounds = u32(r.range(1, 3)); u64 mark;
  Profile pf; pf.text = text; pf.draws_only = true;
  BLImage a; { Rng r2(wseed); random_image(r2, a, w, h, fmt); } BLImage twin = pixel_copy(a), other(16, 16, BL_FORMAT_PRGB32);
  State def; { BLContext c(other); def.comp = c.comp_op(); def.rule = c.fill_rule(); def.hint[0] = c.rendering_quality(); def.hint[1] = c.gradient_quality(); def.hint[2] = c.pattern_quality(); def.fmode = c.flatten_mode(); def.omode = c.approximation_options().offset_mode; def.ftol = c.flatten_tolerance(); def.opar = c.approximation_options().offset_parameter; 
    verify(c, def, 0, "the creation of the context"); }
  bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); mark = heap_mark();
  { Scene sc; if (!build_scene(sc, wseed, w, h, text)) harness_error("scene"); faults_on(true);
  BLContext c; State m; std::vector<Saved> stack; std::string log; u32 draws = 0, fails = 0; u32 limit = 0; u32 ncookie = 0; std::vector<std::pair<BLContextCookie, u32>> cookies; bool live = false; u32 round = 0;
    auto check_pixels = [&](const char* when) { std::string df; if (!same_pixels(twin, a, &df)) fail("pixels", strf("%s: drawing differs from a fresh context with the same state: ", when) + df + " ops: " + log); };
    auto begin = [&]() { BLContextCreateInfo ci{}; if (r.chance(2, 3)) ci = random_create_info(r); limit = r.chance(1, 3) ? u32(r.range(1, 4)) : 0; ci.saved_state_limit = limit; if (!limit) limit = 4096; m = def; stack.clear(); live = c.begin(a, ci) == BL_SUCCESS; if (!live) { count("begin_failed"); } else { if (c.thread_count()) note_nontrivial(); verify(c, m, 0, "begin()"); if (c.target_size() != BLSize(w, h)) fail("target-size", "target_size() is not the size of the image"); } };
    auto end = [&]() { if (!live) return; if (stack.size()) count("end_with_saved_states"); BLResult e = c.end(); if (e) fail("end-failed", strf("end() returned 0x%x", e)); check_pixels("after end()"); live = false; 
      if (c.set_comp_op(BL_COMP_OP_SRC_COPY) == BL_SUCCESS || c.fill_all() == BL_SUCCESS || c.save() == BL_SUCCESS) fail("ended", "an operation on an ended context succeeded"); if (c.saved_state_count()) fail("ended", "an ended context reports saved states"); };
    begin();
    for (u32 i = 0; i < nops; i++) { if (!op_enabled(i)) continue; if (!live) break; op_begin(i); Rng q(mix3(wseed, 0x5717, i));
      if (i && i % (nops / rounds + 1) == 0) { end(); r.s = mix3(wseed, 77, ++round); begin(); log.clear(); if (!live) { op_end(); break; } count("rounds"); }
      std::string name; BLResult e = BL_SUCCESS, want = BL_SUCCESS; State n = m; bool did = false; size_t pushed = 0, popped = 0; u32 new_cid = 0; BLContextCookie ck; bool has_ck = false;
      auto slot = [&]() { return BLContextStyleSlot(q.below(2)); };
      auto A = [&]() { return q.chance(1, 4) ? 1.0 : q.chance(1, 6) ? 0.0 : q.chance(1, 12) ? kNaN : q.chance(1, 8) ? q.real(-1, 2) : q.unit(); };
      if (q.below(100) < dw) {
        if (q.chance(1, 4)) {                             // a style given with the call is the style set before an ordinary call
          bool st = q.chance(1, 3); StyleM x; x.gq = m.hint[1]; x.pq = m.hint[2]; x.M = c.final_transform(); x.kind = q.range(1, 5); x.c32 = u32(q.next()); if (q.chance(1, 3)) x.c32 |= 0xFF000000u; x.c64 = q.next(); x.c = BLRgba(float(q.unit()), float(q.unit()), float(q.unit()), float(q.unit())); x.g = sc.grads[q.below(7)]; x.p = sc.pats[q.below(4)]; bool var = q.chance(1, 4); if (x.kind > 3 && !(std::fabs(x.M.m00 * x.M.m11 - x.M.m01 * x.M.m10) > 1e-9)) x.kind = 1;
          State n = m; n.st[st] = x; if (x.kind == 3) { n.st[st].kind = 1; n.st[st].c32 = x.c.to_rgba32().value; } /* such a colour is rounded to 8 bits first */ BLContext t; faults_here(false); if (t.begin(twin)) harness_error("twin"); apply(t, n);
          u32 geo = q.below(st ? 6 : 9); if (!text && (geo == 3 || geo == 4)) geo = 0; const BLPath& pa = sc.paths[q.below(6)]; BLBox b(q.real(-5, w), q.real(-5, h), q.real(0, w + 5), q.real(0, h + 5)); BLRectI ri(q.range(-5, w), q.range(-5, h), q.range(1, w), q.range(1, h)); BLPoint o(q.real(-5, w), q.real(-5, h)); BLPointI oi(q.range(-5, w), q.range(-5, h)); bool in = q.chance(1, 2), area = q.chance(1, 2); const BLImage& mk = sc.masks[q.below(2)]; BLRectI ar(q.range(0, 2), q.range(0, 2), q.range(1, mk.width() - 2), q.range(1, mk.height() - 2)); BLFont fo = sc.fonts[q.below(3)];
          static const char* gn[] = {"path", "box", "circle", "text", "glyph_run", "path_at", "rect_i", "mask", "all"};
          auto draw = [&](BLContext& k, const auto&... s) -> BLResult { switch (geo) {
            case 0: return st ? k.stroke_path(pa, s...) : k.fill_path(pa, s...); case 1: return st ? k.stroke_box(b, s...) : k.fill_box(b, s...); case 2: return st ? k.stroke_circle(o.x, o.y, 7.5, s...) : k.fill_circle(o.x, o.y, 7.5, s...);
            case 3: if (in) return st ? k.stroke_utf8_text(oi, fo, "Ag", SIZE_MAX, s...) : k.fill_utf8_text(oi, fo, "Ag", SIZE_MAX, s...); return st ? k.stroke_utf8_text(o, fo, "Ag", SIZE_MAX, s...) : k.fill_utf8_text(o, fo, "Ag", SIZE_MAX, s...);
            case 4: if (in) return st ? k.stroke_glyph_run(oi, sc.fonts[1], sc.gb.glyph_run(), s...) : k.fill_glyph_run(oi, sc.fonts[1], sc.gb.glyph_run(), s...); return st ? k.stroke_glyph_run(o, sc.fonts[1], sc.gb.glyph_run(), s...) : k.fill_glyph_run(o, sc.fonts[1], sc.gb.glyph_run(), s...);
            case 5: return st ? k.stroke_path(o, pa, s...) : k.fill_path(o, pa, s...); case 6: return k.fill_rect(ri, s...);
            case 7: if (in) return area ? k.fill_mask(oi, mk, ar, s...) : k.fill_mask(oi, mk, s...); return area ? k.fill_mask(BLPoint(oi), mk, ar, s...) : k.fill_mask(BLPoint(oi), mk, s...);
            default: return k.fill_all(s...); } };
          BLResult e2 = draw(t); t.end(); BLVar v; switch (x.kind) { case 1: v.assign(BLRgba32(x.c32)); break; case 2: v.assign(BLRgba64(x.c64)); break; case 3: v.assign(x.c); break; case 4: v.assign(x.g); break; default: v.assign(x.p); }
          if (var) e = draw(c, v); else switch (x.kind) { case 1: e = draw(c, BLRgba32(x.c32)); break; case 2: e = draw(c, BLRgba64(x.c64)); break; case 3: e = draw(c, x.c); break; case 4: e = draw(c, x.g); break; default: e = draw(c, x.p); }
          faults_here(true); count("explicit_style_draws"); draws++; std::string d = strf("%s_%s(explicit style %d%s)", st ? "stroke" : "fill", gn[geo], x.kind, var ? ", variant" : ""); log += d + " ";
          if (e != e2 && !(c.thread_count() && (!e || e2 || e == BL_ERROR_NOT_IMPLEMENTED))) fail("draw-result", strf("%s returned 0x%x, a fresh context with that style returned 0x%x; threads %u; ops: ", d.c_str(), e, e2, c.thread_count()) + log);
          if (eager) { if (c.flush(BL_CONTEXT_FLUSH_SYNC)) fail("flush-failed", "flush() failed"); check_pixels(("after " + d).c_str()); }
          verify(c, m, stack.size(), log); op_end(); continue; }
        BLContext t; if (t.begin(twin)) harness_error("twin"); apply(t, m); Ctl k1, k2; faults_here(false); std::string d; BLResult e2 = exec_op(t, sc, pf, wseed, i, k2, nullptr); t.end(); e = exec_op(c, sc, pf, wseed, i, k1, &d); faults_here(true); log += d + " "; draws++;
        if (e != e2 && !(c.thread_count() && (!e || e2 || e == BL_ERROR_NOT_IMPLEMENTED))) fail("draw-result", strf("%s returned 0x%x, a fresh context with the same state returned 0x%x; threads %u; ops: ", d.c_str(), e, e2, c.thread_count()) + log);
        if (eager) { if (c.flush(BL_CONTEXT_FLUSH_SYNC)) fail("flush-failed", "flush() failed"); check_pixels(("after " + d).c_str()); }
        verify(c, m, stack.size(), log); op_end(); continue; }
      if (oom && q.chance(1, 3)) { force_alloc_fail_at(i64(q.below(3))); }
      switch (q.below(20)) {
        case 0: { u32 v = q.pick({u32(BL_COMP_OP_SRC_OVER), u32(BL_COMP_OP_SRC_COPY), u32(BL_COMP_OP_PLUS), u32(BL_COMP_OP_CLEAR), u32(BL_COMP_OP_DST_COPY), u32(BL_COMP_OP_SRC_OVER), u32(BL_COMP_OP_MAX_VALUE) + 1, 0xFFFFFFFFu}); name = strf("comp_op(%u)", v); e = c.set_comp_op(BLCompOp(v)); if (v > BL_COMP_OP_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.comp = v; break; }
        case 1: { if (q.chance(1, 3)) { u32 v = q.below(4); name = strf("fill_rule(%u)", v); e = c.set_fill_rule(BLFillRule(v)); if (v > BL_FILL_RULE_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.rule = v; break; }
          static const u32 mx[] = {BL_RENDERING_QUALITY_MAX_VALUE, BL_GRADIENT_QUALITY_MAX_VALUE, BL_PATTERN_QUALITY_MAX_VALUE};
          if (q.chance(1, 3)) { BLContextHints hh; hh.reset(); u32 v[3]; bool ok = true; for (int k = 0; k < 3; k++) { v[k] = q.chance(1, 8) ? mx[k] + 1 : q.below(mx[k] + 1); ok &= v[k] <= mx[k]; } hh.rendering_quality = uint8_t(v[0]); hh.gradient_quality = uint8_t(v[1]); hh.pattern_quality = uint8_t(v[2]); name = strf("hints(%u,%u,%u)", v[0], v[1], v[2]); e = c.set_hints(hh); if (!ok) want = BL_ERROR_INVALID_VALUE; else for (int k = 0; k < 3; k++) n.hint[k] = v[k]; break; }
          u32 k = q.below(4), v = k == 3 ? 0 : q.below(mx[k] + 2); name = strf("hint(%u,%u)", k, v); e = c.set_hint(BLContextHint(k), v); if (k == 3 || v > mx[k]) want = BL_ERROR_INVALID_VALUE; else n.hint[k] = v; break; }
        case 2: { switch (q.below(3)) { case 0: { u32 v = q.below(BL_FLATTEN_MODE_MAX_VALUE + 2); name = strf("flatten_mode(%u)", v); e = c.set_flatten_mode(BLFlattenMode(v)); if (v > BL_FLATTEN_MODE_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.fmode = v; break; }
            case 1: { double v = q.chance(1, 8) ? kNaN : q.real(-0.1, 0.8); name = strf("flatten_tolerance(%g)", v); e = c.set_flatten_tolerance(v); if (std::isnan(v)) want = BL_ERROR_INVALID_VALUE; else n.ftol = v < 0.01 ? 0.01 : v > 0.5 ? 0.5 : v; break; }
            default: { BLApproximationOptions o = c.approximation_options(); u32 fm = q.chance(1, 10) ? 200 : q.below(BL_FLATTEN_MODE_MAX_VALUE + 1), om = q.chance(1, 10) ? 200 : q.below(BL_OFFSET_MODE_MAX_VALUE + 1); double t = q.chance(1, 10) ? kNaN : q.real(0.0, 0.7), p = q.chance(1, 10) ? kNaN : q.real(0.2, 0.7); o.flatten_mode = uint8_t(fm); o.offset_mode = uint8_t(om); o.flatten_tolerance = t; o.offset_parameter = p; name = strf("approximation(%u,%u,%g,%g)", fm, om, t, p); e = c.set_approximation_options(o); if (fm == 200 || om == 200 || std::isnan(t) || std::isnan(p)) want = BL_ERROR_INVALID_VALUE; else { n.fmode = fm; n.omode = om; n.ftol = t < 0.01 ? 0.01 : t > 0.5 ? 0.5 : t; n.opar = p; } break; } } break; }
        case 3: { double v = A(); u32 k = q.below(4); name = strf("alpha%u(%g)", k, v); if (k == 3) { u32 bs = q.pick({2u, 3u, 0xFFFFFFFFu}); e = c.set_style_alpha(BLContextStyleSlot(bs), v); want = BL_ERROR_INVALID_VALUE; break; } e = k == 0 ? c.set_global_alpha(v) : k == 1 ? c.set_fill_alpha(v) : c.set_stroke_alpha(v); if (std::isnan(v)) want = BL_ERROR_INVALID_VALUE; else if (k == 0) n.galpha = clamp01(v); else n.alpha[k - 1] = clamp01(v); break; }
        case 4: case 5: case 6: case 7: { BLContextStyleSlot s = slot(); StyleM x; x.gq = m.hint[1]; x.pq = m.hint[2]; u32 k = q.below(12); bool var = q.chance(1, 4); const char* sn = s ? "stroke" : "fill";
          if (q.chance(1, 16)) { BLContextStyleSlot bs = BLContextStyleSlot(q.pick({2u, 2u, 3u, 7u, 0xFFFFFFFFu})); name = strf("style of invalid slot %u", bs); want = BL_ERROR_INVALID_VALUE; switch (q.below(5)) { case 0: e = c.disable_style(bs); break; case 1: e = c.set_style(bs, BLRgba32(0xFF445566u)); break; case 2: e = c.set_style(bs, BLRgba64(0xFFFF111122223333u)); break; case 3: e = c.set_style(bs, BLRgba(0.1f, 0.2f, 0.3f, 0.4f)); break; default: e = c.set_style(bs, sc.grads[0]); break; } count("invalid_slot"); break; }
          if (k == 0) { x.kind = 0; name = strf("%s=none", sn); if (var) { BLVar v; e = c.set_style(s, v); } else e = c.disable_style(s); }
          else if (k < 3) { x.kind = 1; x.c32 = u32(q.next()); if (q.chance(1, 2)) x.c32 |= 0xFF000000u; if (q.chance(1, 8)) x.c32 &= 0xFFFFFFu; name = strf("%s=%08x", sn, x.c32); if (var) { BLVar v(BLRgba32(x.c32)); e = c.set_style(s, v); } else e = c.set_style(s, BLRgba32(x.c32)); }
          else if (k == 3) { x.kind = 2; x.c64 = q.next(); name = strf("%s=rgba64", sn); if (var) { BLVar v(BLRgba64(x.c64)); e = c.set_style(s, v); } else e = c.set_style(s, BLRgba64(x.c64)); }
          else if (k == 4) { BLRgba v(float(q.real(-0.2, 1.2)), float(q.real(0, 1)), float(q.real(0, 1.5)), float(q.real(0, 1))); bool nan = q.chance(1, 4); if (nan) v.g = std::numeric_limits<float>::quiet_NaN(); x.kind = nan ? 0 : 3; auto cl = [](float f) { return f < 0 ? 0.0f : f > 1 ? 1.0f : f; }; x.c = BLRgba(cl(v.r), cl(v.g), cl(v.b), cl(v.a)); name = strf("%s=rgba(%g,%g,%g,%g)", sn, v.r, v.g, v.b, v.a); e = c.set_style(s, v); }
          else { bool gr = k < 9; u64 os = q.next(); u32 mode = q.chance(1, 2) ? 0 : q.below(3); bool explicit_mode = mode || q.chance(1, 3); faults_here(false);
            BLGradient g1; BLPattern p1; BLImage im1, im2; i64 keep = 0; (void)keep; force_alloc_fail_at(-1);
            if (gr) { Rng q1(os), q2(os); random_gradient(q1, g1, w, h); random_gradient(q2, x.g, w, h); }
            else { Rng q1(os), q2(os); auto mk = [&](Rng& z, BLPattern& p, BLImage& im) { random_image(z, im, 2 + int(z.below(20)), 2 + int(z.below(20)), z.chance(1, 3) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32); BLRectI ar(0, 0, im.width(), im.height()); if (z.chance(1, 3)) ar = BLRectI(1, 1, im.width() - 1, im.height() - 1); p.create(im, ar, BLExtendMode(z.below(BL_EXTEND_MODE_COMPLEX_MAX_VALUE + 1)), BLMatrix2D(1, 0, 0, 1, 0, 0)); if (z.chance(1, 2)) p.rotate(z.real(-2, 2)); if (z.chance(1, 2)) p.translate(z.range(-9, 9), z.range(-9, 9)); }; mk(q1, p1, im1); mk(q2, x.p, im2); }
            faults_here(true); if (oom && q.chance(1, 3)) force_alloc_fail_at(0);
            x.kind = gr ? 4 : 5; x.M = mode == 0 ? c.final_transform() : mode == 1 ? c.meta_transform() : BLMatrix2D(1, 0, 0, 1, 0, 0); name = strf("%s=%s mode %u", sn, gr ? "gradient" : "pattern", mode);
            if (var) { BLVar v; if (gr) v.assign(g1); else v.assign(p1); e = explicit_mode ? c.set_style(s, v, BLContextStyleTransformMode(mode)) : c.set_style(s, v); }
            else if (gr) e = explicit_mode ? c.set_style(s, g1, BLContextStyleTransformMode(mode)) : c.set_style(s, g1); else e = explicit_mode ? c.set_style(s, p1, BLContextStyleTransformMode(mode)) : c.set_style(s, p1);
            force_alloc_fail_at(-1);
            // the caller's objects may change afterwards
            if (q.chance(1, 2)) { faults_here(false); if (gr) { g1.add_stop(0.5, BLRgba32(0xFF00FF00u)); g1.translate(3, 3); } else { p1.scale(2.0); BLImageData d; im1.make_mutable(&d); } faults_here(true); } }
          n.st[s] = x; break; }
        case 8: { u32 k = q.below(3); name = strf("swap_styles(%u)", k); e = c.swap_styles(BLContextStyleSwapMode(k)); if (k > BL_CONTEXT_STYLE_SWAP_MODE_MAX_VALUE) { want = BL_ERROR_INVALID_VALUE; break; } std::swap(n.st[0], n.st[1]); if (k == BL_CONTEXT_STYLE_SWAP_MODE_STYLES_WITH_ALPHA) std::swap(n.alpha[0], n.alpha[1]); break; }
        case 9: case 10: { switch (q.below(8)) {
            case 0: { double v = q.real(0, 9); name = strf("stroke_width(%g)", v); e = c.set_stroke_width(v); n.sk.width = v; break; }
            case 1: { double v = q.real(0.5, 9); name = strf("miter(%g)", v); e = c.set_stroke_miter_limit(v); n.sk.miter = v; break; }
            case 2: { u32 p = q.below(3), v = q.below(BL_STROKE_CAP_MAX_VALUE + 2); name = strf("cap(%u,%u)", p, v); e = c.set_stroke_cap(BLStrokeCapPosition(p), BLStrokeCap(v)); if (p > 1 || v > BL_STROKE_CAP_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.sk.cap[p] = v; break; }
            case 3: { u32 v = q.below(BL_STROKE_CAP_MAX_VALUE + 2); name = strf("caps(%u)", v); e = c.set_stroke_caps(BLStrokeCap(v)); if (v > BL_STROKE_CAP_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.sk.cap[0] = n.sk.cap[1] = v; break; }
            case 4: { u32 v = q.below(BL_STROKE_JOIN_MAX_VALUE + 2); name = strf("join(%u)", v); e = c.set_stroke_join(BLStrokeJoin(v)); if (v > BL_STROKE_JOIN_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.sk.join = v; break; }
            case 5: { double v = q.real(-5, 5); name = strf("dash_offset(%g)", v); e = c.set_stroke_dash_offset(v); n.sk.dash_off = v; break; }
            case 6: { u32 v = q.below(BL_STROKE_TRANSFORM_ORDER_MAX_VALUE + 2); name = strf("order(%u)", v); e = c.set_stroke_transform_order(BLStrokeTransformOrder(v)); if (v > BL_STROKE_TRANSFORM_ORDER_MAX_VALUE) want = BL_ERROR_INVALID_VALUE; else n.sk.order = v; break; }
            default: { force_alloc_fail_at(-1); faults_here(false); std::vector<double> dv; int nd = q.range(0, 5); for (int k = 0; k < nd; k++) dv.push_back(q.real(0.5, 9)); BLArray<double> d; if (nd) d.assign_data(dv.data(), size_t(nd)); bool whole = q.chance(1, 2);
              if (!whole && q.chance(1, 8)) { BLArray<u32> wrong; wrong.append(3u); name = "dash_array(wrong type)"; e = bl_context_set_stroke_dash_array(&c, &wrong); want = BL_ERROR_INVALID_VALUE; faults_here(true); break; }
              if (!whole) { faults_here(true); name = strf("dash_array(%d)", nd); e = c.set_stroke_dash_array(d); n.sk.dash = dv; }
              else { BLStrokeOptions o; StrokeM k; k.width = q.real(0, 9); k.miter = q.real(1, 5); k.dash_off = q.real(-3, 3); k.cap[0] = q.below(BL_STROKE_CAP_MAX_VALUE + 1); k.cap[1] = q.below(BL_STROKE_CAP_MAX_VALUE + 1); k.join = q.below(BL_STROKE_JOIN_MAX_VALUE + 1); k.order = q.below(2); k.dash = dv; bool inv = q.chance(1, 8); o.width = k.width; o.miter_limit = k.miter; o.dash_offset = k.dash_off; o.start_cap = uint8_t(k.cap[0]); o.end_cap = uint8_t(inv ? 77 : k.cap[1]); o.join = uint8_t(k.join); o.transform_order = uint8_t(k.order); o.dash_array = d; faults_here(true); name = strf("stroke_options(%d dashes%s)", nd, inv ? ", invalid cap" : ""); e = c.set_stroke_options(o); if (inv) want = BL_ERROR_INVALID_VALUE; else n.sk = k; if (q.chance(1, 2)) { faults_here(false); o.dash_array.append(99.0); faults_here(true); } }
              if (q.chance(1, 2)) { faults_here(false); d.append(42.0); if (d.size()) d.clear(); faults_here(true); } break; } } break; }
        case 11: case 12: case 13: { BLMatrix2D& u = n.user; switch (q.below(14)) {
            case 0: name = "reset_transform"; e = c.reset_transform(); u.reset(); break;
            case 1: case 2: { double x = q.range(-9, 9), y = q.range(-9, 9); name = strf("translate(%g,%g)", x, y); e = c.translate(x, y); u.translate(x, y); break; }
            case 3: { double x = q.real(-9, 9), y = q.real(-9, 9); name = strf("translate(%g,%g)", x, y); e = c.translate(x, y); u.translate(x, y); break; }
            case 4: { double x = q.chance(1, 12) ? 0.0 : q.real(-1.6, 1.8); name = strf("scale(%g)", x); e = c.scale(x); u.scale(x); break; }
            case 5: { double x = q.real(-3, 3); name = strf("rotate(%g)", x); e = c.rotate(x); u.rotate(x); break; }
            case 6: { double x = q.real(-3, 3); name = strf("rotate_at(%g)", x); e = c.rotate(x, w / 2.0, h / 2.0); u.rotate(x, w / 2.0, h / 2.0); break; }
            case 7: { double x = q.real(-0.6, 0.6), y = q.real(-0.3, 0.3); name = "skew"; e = c.skew(x, y); u.skew(x, y); break; }
            case 8: { BLMatrix2D x(q.real(-1.5, 1.5), q.real(-1, 1), q.real(-1, 1), q.real(-1.5, 1.5), q.real(0, w), q.real(0, h)); bool set = q.chance(1, 2); name = set ? "set_transform" : "apply_transform"; if (set) { e = c.set_transform(x); u = x; } else { e = c.apply_transform(x); u.transform(x); } break; }
            case 9: { double x = q.range(-6, 6), y = q.real(-2, 6); name = "post_translate"; e = c.post_translate(x, y); u.post_translate(x, y); break; }
            case 10: { double x = q.real(0.4, 1.6), y = q.real(0.4, 1.6); name = "post_scale"; e = c.post_scale(x, y); u.post_scale(x, y); break; }
            case 11: { double x = q.real(-3, 3); name = "post_rotate"; e = c.post_rotate(x); u.post_rotate(x); break; }
            case 12: { if (q.chance(1, 3)) { BLMatrix2D x; x.reset(); u32 op = q.pick({u32(BL_TRANSFORM_OP_MAX_VALUE) + 1, 0xFFFFFFu}); name = "invalid transform op"; e = bl_context_apply_transform_op(&c, BLTransformOp(op), &x); want = BL_ERROR_INVALID_VALUE; break; } double x = q.real(-0.5, 0.5); name = "post_skew"; e = c.post_skew(x, x); u.post_skew(x, x); break; }
            default: name = "user_to_meta"; e = c.user_to_meta(); n.meta = c.final_transform(); if (!same_m(n.meta, mul(m.user, m.meta))) fail("state:user_to_meta", "user_to_meta() changed the final transform"); n.user.reset(); break; } break; }
        case 14: case 15: { ClipOp k; k.i = q.chance(1, 2); k.F = c.final_transform(); if (k.i) { k.ri = BLRectI(q.range(-9, w), q.range(-9, h), q.range(0, w + 9), q.range(0, h + 9)); if (q.chance(1, 10)) k.ri.w = 0; name = strf("clip_i(%d,%d,%d,%d)", k.ri.x, k.ri.y, k.ri.w, k.ri.h); e = c.clip_to_rect(k.ri); } else { k.rd = BLRect(q.real(-5, w), q.real(-5, h), q.real(0, w), q.real(0, h)); if (q.chance(1, 4)) k.rd = BLRect(std::floor(k.rd.x), std::floor(k.rd.y), std::floor(k.rd.w), std::floor(k.rd.h)); name = strf("clip_d(%g,%g,%g,%g)", k.rd.x, k.rd.y, k.rd.w, k.rd.h); e = c.clip_to_rect(k.rd); } n.clips.push_back(k); break; }
        case 16: name = "restore_clipping"; e = c.restore_clipping(); if (stack.empty()) n.clips.clear(); else n.clips = stack.back().s.clips; break;
        case 17: case 18: { if (q.chance(3, 5)) { has_ck = q.chance(1, 2); name = has_ck ? "save(cookie)" : "save"; e = has_ck ? c.save(ck) : c.save(); if (stack.size() >= limit) want = BL_ERROR_TOO_MANY_SAVED_STATES; else { pushed = 1; new_cid = has_ck ? ++ncookie : 0; } break; } }
          // fallthrough
        default: { bool use = !cookies.empty() && q.chance(1, 2); 
          if (use) { auto& p = cookies[q.chance(2, 3) ? cookies.size() - 1 : q.below(u32(cookies.size()))]; BLContextCookie z = p.first; bool foreign = q.chance(1, 10); if (foreign) z.data[0] ^= 0x5A5A; name = strf("restore(cookie %u%s)", p.second, foreign ? ", of another context" : ""); e = c.restore(z); size_t k = 0; bool found = false; for (; k < stack.size(); k++) if (stack[stack.size() - 1 - k].cid == p.second) { found = true; break; } if (stack.empty()) want = BL_ERROR_NO_STATES_TO_RESTORE; else if (!found || foreign) want = BL_ERROR_NO_MATCHING_COOKIE; else popped = k + 1; }
          else { name = "restore"; e = c.restore(); if (stack.empty()) want = BL_ERROR_NO_STATES_TO_RESTORE; else if (stack.back().cid) want = BL_ERROR_NO_MATCHING_COOKIE; else popped = 1; }
          if (popped) n = stack[stack.size() - popped].s; break; }
      }
      (void)did; force_alloc_fail_at(-1);
      log += name + (e ? strf("=err%x ", e) : " ");
      if (e == BL_ERROR_OUT_OF_MEMORY && want == BL_SUCCESS) { count("op_out_of_memory"); fails++; }
      else if (e != want) fail("result", strf("%s returned 0x%x instead of 0x%x; ops: ", name.c_str(), e, want) + log);
      else if (e == BL_SUCCESS) { if (pushed) { stack.push_back({m, has_ck, new_cid}); if (has_ck) { if (ck.is_empty()) fail("cookie", "save() returned an empty cookie"); for (auto& z : cookies) if (z.first == ck) fail("cookie", "save() returned a cookie which was returned before"); cookies.push_back({ck, new_cid}); } }
        if (popped) { stack.resize(stack.size() - popped); count("restores"); if (popped > 1) count("restores_of_many"); } m = n; }
      else count("op_refused");
      faults_here(false); verify(c, m, stack.size(), log); faults_here(true);
      op_end(); }
    sample(strf("%dx%d fmt %u, %u draws: ", w, h, fmt, draws) + log.substr(0, 500));
    if (live && r.chance(1, 6)) { c.reset(); check_pixels("after reset()"); live = false; count("reset"); } else if (live && r.chance(1, 6)) { BLContext c2(std::move(c)); c2.end(); check_pixels("after the context was moved and ended"); live = false; } 
    end();
    if (draws) count("draws", draws);
    out(hash_image(a)); }
  faults_on(false);
  release_caches(); leak_check(mark, "the contexts ended");
}
static int reg = (register_check({"R05",
  "A run drives one rendering context (synchronous or with 1..33 simulated threads) through 1..3 begin/end rounds of random state operations (composition, hints, approximation, alphas, styles of every kind in 3 transform modes, swaps, stroke options, transforms, clipping, save/restore with and without cookies, invalid arguments, failing allocations) and draws. After every operation all getters must equal a reference model of the state; every draw is repeated by a fresh synchronous context which was put directly into the model's state, and the pixels must be equal. Nothing may stay allocated. Non-trivial: the context was asynchronous.",
  "real: rendering contexts, styles, object system; simulated: threads, futex, clock, heap",
  run, nullptr}), 0);
