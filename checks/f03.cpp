// F03: fonts: intact fonts give their characters, advances, kerning and outlines under any I/O and allocation fault, damaged fonts
// give an error or a font, without touching memory outside of the objects involved and independently of what memory contained before.
#include "common.h"
#include "fontgen.h"
#include <math.h>
#include <functional>
#include <blend2d/core/runtime_p.h>
using namespace sim; using namespace cm;
namespace {
const char* kPath = "/data/in.ttf";
u64 io_faults() { u64 n = 0; for (u32 k = F_OPEN; k <= F_MMAP; k++) if (k != F_READ_SHORT && k != F_WRITE_SHORT) n += faults_fired(FaultKind(k)); return n + faults_fired(F_ALLOC); }
__attribute__((noinline)) void scrub_stack(u8 v) { volatile u8 b[48 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = u8(v + i * 7); asm volatile("" ::: "memory"); }
struct Input { u8* p; size_t n; explicit Input(const fg::Bytes& b) : n(b.size()) { p = (u8*)user_alloc(n ? n : 1); memcpy(p, b.data(), n); } ~Input() { user_free(p); } };
struct Hash { u64 h = 7; void v(u64 x) { h = mix2(h, x); } void mem(const void* p, size_t n) { h = mix2(h, hash_bytes(p, n)); } void d(double x) { u64 u; memcpy(&u, &x, 8); v(u); } void f(float x) { u32 u; memcpy(&u, &x, 4); v(u); } };
void hash_path(Hash& h, const BLPath& p) { h.v(p.size()); for (size_t i = 0; i < p.size(); i++) { h.v(p.command_data()[i]); if (p.command_data()[i] != BL_PATH_CMD_CLOSE) { h.d(p.vertex_data()[i].x); h.d(p.vertex_data()[i].y); } } }
void hash_run(Hash& h, const BLGlyphBuffer& gb) { h.v(gb.size()); h.v(gb.flags()); h.mem(gb.content(), gb.size() * 4); if (gb.placement_data()) for (size_t i = 0; i < gb.size(); i++) { auto& p = gb.placement_data()[i]; h.v(u32(p.placement.x)); h.v(u32(p.placement.y)); h.v(u32(p.advance.x)); h.v(u32(p.advance.y)); } if (gb.info_data()) for (size_t i = 0; i < gb.size(); i++) h.v(gb.info_data()[i].cluster); }
// What is asked of a font; everything follows from `seed`.
struct Ask { std::vector<std::vector<u32>> texts; std::vector<u32> glyphs; float size; bool features; u64 fseed; u32 cpu; BLMatrix2D m; };
Ask make_plan(Rng& q, const fg::Font& f) {
  Ask p; u32 nt = 1 + q.below(4); for (u32 t = 0; t < nt; t++) { std::vector<u32> s; u32 n = q.below(q.pick({3u, 12u, 40u, 130u})); for (u32 i = 0; i < n; i++) { u32 c = !f.chars.empty() && !q.chance(1, 8) ? f.chars[q.below(u32(f.chars.size()))] : q.pick({0u, 0x20u, 0x41u, 0xFFu, 0x100u, 0xFFFFu, 0x10000u, 0x10FFFFu, q.below(0x600)}); if (c >= 0xD800 && c < 0xE000) c = 0x41; s.push_back(c); if (i && q.chance(1, 8)) s.back() = s[i - 1]; } p.texts.push_back(s); }
  for (u32 i = 0; i < 12; i++) p.glyphs.push_back(q.chance(1, 6) ? q.pick({0u, f.nglyphs, f.nglyphs + 1, 65535u, 65536u, 0xFFFFFFFFu}) : q.below(f.nglyphs + 1)); p.size = q.chance(1, 2) ? float(f.upem) : q.pick({1.0f, 12.0f, 17.5f, 300.0f, 0.0f}); p.features = q.chance(1, 3); p.fseed = q.next(); p.cpu = q.below(3); p.m.reset(); if (q.chance(1, 4)) p.m.reset(0.5, 0.25, -0.5, 2.0, 7.0, -3.0); return p;
}
struct Step { const char* name; std::function<BLResult(Hash&)> f; };
// A font and everything that was asked of it.
struct Probe {
  Ask plan; BLFontData data; BLFontFace face; BLFont font; BLGlyphBuffer gb; std::vector<Step> steps;
  Probe(const Ask& p, const Input* in, const fg::Font& f, int source, u64 rs) : plan(p) {
    auto add = [&](const char* n, std::function<BLResult(Hash&)> fn) { steps.push_back({n, std::move(fn)}); };
    if (source == 2) add("FontFace.create_from_file", [this, &f, rs](Hash& h) { BLFileReadFlags fl = BLFileReadFlags(rs % 3 == 0 ? 0 : rs % 3 == 1 ? BL_FILE_READ_MMAP_ENABLED : BL_FILE_READ_MMAP_ENABLED | BL_FILE_READ_MMAP_AVOID_SMALL); BLResult e = face.create_from_file(kPath, fl); if (!e) { data = face.data(); } h.v(data.face_count()); return e; });
    else { if (source == 3) add("FontData.create_from_file", [this, rs](Hash& h) { BLResult e = data.create_from_file(kPath, BLFileReadFlags(rs % 2 ? BL_FILE_READ_MMAP_ENABLED : 0)); h.v(data.face_count()); return e; });
      else if (source == 1) add("FontData.create_from_data(array)", [this, &f](Hash& h) { BLArray<uint8_t> a; BLResult e = a.assign_data(f.data.data(), f.data.size()); if (!e) e = data.create_from_data(a); h.v(data.face_count()); return e; });
      else add("FontData.create_from_data", [this, in](Hash& h) { BLResult e = data.create_from_data(in->p, in->n); h.v(data.face_count()); return e; });
      add("FontFace.create_from_data", [this, &f](Hash& h) { BLResult e = face.create_from_data(data, f.face_index); h.v(face.glyph_count()); return e; }); }
    add("table tags", [this, &f](Hash& h) { BLArray<BLTag> t; BLResult e = data.get_table_tags(f.face_index, t); h.v(t.size()); h.mem(t.data(), t.size() * 4); return e; });
    add("tables", [this, &f](Hash& h) { BLTag tg[4] = {BL_MAKE_TAG('c', 'm', 'a', 'p'), BL_MAKE_TAG('h', 'e', 'a', 'd'), BL_MAKE_TAG('G', 'S', 'U', 'B'), BL_MAKE_TAG('?', 'b', 'a', 'd')}; for (u32 n : {1u, 3u, 4u}) { BLFontTable t[4]; memset((void*)t, 0x5A, sizeof t); h.v(data.get_tables(f.face_index, t, tg, n)); for (u32 i = 0; i < n; i++) { h.v(t[i].size); if (t[i].size) h.mem(t[i].data, t[i].size); } } return BL_SUCCESS; });
    add("face information", [this](Hash& h) { BLFontFaceInfo i{}; memset(&i, 0, sizeof i); BLResult e = bl_font_face_get_face_info(&face, &i); h.v(i.face_type); h.v(i.outline_type); h.v(i.glyph_count); h.v(i.revision); h.v(i.face_index); h.v(i.face_flags); h.v(i.diag_flags); BLFontDesignMetrics m = face.design_metrics(); h.mem(&m, sizeof m); auto pi = face.panose_info(); h.mem(&pi, sizeof pi); auto ci = face.coverage_info(); h.mem(&ci, sizeof ci); h.v(face.weight()); h.v(face.stretch()); h.v(face.style()); for (const BLString& s : {face.full_name(), face.family_name(), face.subfamily_name(), face.post_script_name()}) { h.v(s.size()); h.mem(s.data(), s.size()); } return e; });
    add("character coverage", [this](Hash& h) { BLBitSet b; BLResult e = face.get_character_coverage(&b); h.v(b.cardinality()); for (u32 c = 0; c < 0x3000; c++) if (b.has_bit(c)) h.v(c); return e; });
    add("script tags", [this](Hash& h) { BLArray<BLTag> t; BLResult e = face.get_script_tags(&t); h.mem(t.data(), t.size() * 4); return e; });
    add("feature tags", [this](Hash& h) { BLArray<BLTag> t; BLResult e = face.get_feature_tags(&t); h.mem(t.data(), t.size() * 4); for (BLTag x : t) h.v(face.has_feature_tag(x)); return e; });
    add("Font.create_from_face", [this](Hash& h) { BLResult e; if (plan.features) { BLFontFeatureSettings s; Rng q(plan.fseed); static const char* tg[] = {"aalt", "calt", "ccmp", "clig", "kern", "liga", "mark", "mkmk", "rlig", "smcp", "dlig", "salt"}; e = 0; for (int k = 0; k < 6 && !e; k++) { const char* t = tg[q.below(12)]; e = s.set_value(BL_MAKE_TAG(u8(t[0]), u8(t[1]), u8(t[2]), u8(t[3])), q.below(2)); } if (!e) e = font.create_from_face(face, plan.size, s); } else e = font.create_from_face(face, plan.size); if (!e) { BLFontMetrics m = font.metrics(); h.mem(&m, sizeof m); BLFontMatrix x = font.matrix(); h.mem(&x, sizeof x); } return e; });
    for (size_t t = 0; t < plan.texts.size(); t++) {
      auto text = [this, t](BLGlyphBuffer& g) { auto& s = plan.texts[t]; return g.set_utf32_text(s.data(), s.size()); };
      add("map text", [this, text](Hash& h) { BLGlyphBuffer g; BLResult e = text(g); BLGlyphMappingState st{}; if (!e) e = font.map_text_to_glyphs(g, st); if (!e) { hash_run(h, g); if (g.size()) { h.v(st.glyph_count); h.v(st.undefined_count); if (st.undefined_count) h.v(st.undefined_first); } } return e; });
      add("shape", [this, text](Hash& h) { gb.clear(); BLResult e = text(gb); if (!e) e = font.shape(gb); if (!e) hash_run(h, gb); return e; });
      add("position", [this, text](Hash& h) { BLGlyphBuffer g; BLResult e = text(g); if (!e) e = font.map_text_to_glyphs(g); if (!e) e = font.position_glyphs(g); if (!e) hash_run(h, g); if (!e && g.size()) { e = font.apply_kerning(g); hash_run(h, g); } return e; });
      add("GSUB", [this, text](Hash& h) { BLGlyphBuffer g; BLBitArray all; BLResult e = text(g); if (!e) e = font.map_text_to_glyphs(g); if (!e) { Rng q(plan.fseed); u32 w[1] = {q.chance(1, 2) ? 0xFFFFFFFFu : u32(q.next())}; e = all.assign_words(w, 1); } if (!e && g.size()) e = font.apply_gsub(g, all); if (!e) hash_run(h, g); return e; });
      add("GPOS", [this, text](Hash& h) { BLGlyphBuffer g; BLBitArray all; BLResult e = text(g); if (!e) e = font.map_text_to_glyphs(g); if (!e) { u32 w[1] = {0xFFFFFFFFu}; e = all.assign_words(w, 1); } if (!e) e = font.position_glyphs(g); if (!e && g.size()) e = font.apply_gpos(g, all); if (!e) hash_run(h, g); return e; });
      add("text metrics", [this, text](Hash& h) { BLGlyphBuffer g; BLTextMetrics tm{}; BLResult e = text(g); if (!e) e = font.get_text_metrics(g, tm); if (!e) { h.d(tm.advance.x); h.d(tm.bounding_box.x0); h.d(tm.bounding_box.x1); h.d(tm.bounding_box.y1); } return e; });
      add("text outlines", [this, text](Hash& h) { BLGlyphBuffer g; BLPath p; BLResult e = text(g); if (!e) e = font.shape(g); if (!e) e = font.get_glyph_run_outlines(g.glyph_run(), plan.m, p); if (!e) hash_path(h, p); return e; });
    }
    add("glyph bounds", [this](Hash& h) { BLBoxI b[12]; memset((void*)b, 0, sizeof b); BLResult e = font.get_glyph_bounds(plan.glyphs.data(), 4, b, 12); for (auto& x : b) { h.v(u32(x.x0)); h.v(u32(x.y0)); h.v(u32(x.x1)); h.v(u32(x.y1)); } return e; });
    add("glyph advances", [this](Hash& h) { BLGlyphPlacement p[12]; memset((void*)p, 0, sizeof p); BLResult e = font.get_glyph_advances(plan.glyphs.data(), 4, p, 12); for (auto& x : p) { h.v(u32(x.advance.x)); h.v(u32(x.placement.x)); } return e; });
    for (u32 i = 0; i < 12; i++) add("glyph outlines", [this, i](Hash& h) { BLPath p; if (i & 1) { BLResult b = p.move_to(1, 2); if (!b) b = p.line_to(3, 4); if (b) return b; } size_t n = p.size(); BLResult e = font.get_glyph_outlines(plan.glyphs[i], plan.m, p); if (e && p.size() != n) fail("outline-error-path", strf("get_glyph_outlines() = 0x%x changed the size of the path from %zu to %zu", e, n, p.size())); hash_path(h, p); return e; });
    add("fill text", [this](Hash& h) { BLImage im; BLResult e = im.create(90, 40, BL_FORMAT_PRGB32); if (e) return e; BLContext c; e = c.begin(im); if (e) return e; e = c.clear_all(); BLFont f2 = font; if (!e && plan.size > 30.0f) e = f2.set_size(30.0f); auto& s = plan.texts[0]; if (!e) e = c.fill_utf32_text(BLPoint(3, 25), f2, s.data(), s.size(), BLRgba32(0xFFFFFFFF)); BLResult e2 = c.end(); if (!e) e = e2; BLImageData d; if (!e) { im.get_data(&d); for (int y = 0; y < 40; y++) h.mem((u8*)d.pixel_data + y * d.stride, 360); } return e; });
  }
};
struct Result { BLResult e; u64 h; };
// Cpu features decide which implementation of the glyph decoder a face uses.
struct Cpu { uint32_t old; explicit Cpu(u32 k) { old = bl_runtime_context.system_info.cpu_features; if (k == 1) bl_runtime_context.system_info.cpu_features = 0; if (k == 2) bl_runtime_context.system_info.cpu_features &= BL_RUNTIME_CPU_FEATURE_X86_SSE2 | BL_RUNTIME_CPU_FEATURE_X86_SSE3 | BL_RUNTIME_CPU_FEATURE_X86_SSSE3 | BL_RUNTIME_CPU_FEATURE_X86_SSE4_1 | BL_RUNTIME_CPU_FEATURE_X86_SSE4_2; } ~Cpu() { bl_runtime_context.system_info.cpu_features = old; } };
std::vector<Result> ask(const Ask& plan, const fg::Font& f, const Input* in, int source, u64 rs) { std::vector<Result> v; Cpu cpu(plan.cpu); Probe p(plan, in, f, source, rs); for (auto& s : p.steps) { Hash h; BLResult e = s.f(h); v.push_back({e, h.h}); } return v; }
std::string outline_differs(const fg::Font& f, u32 g, const BLPath& p);
std::string cff_differs(const fg::Font& f, u32 g, const BLPath& p);
void expected_path(const fg::Font& f, u32 g, int dx, int dy, BLPath& out, int depth);
// Compares what lookups of an intact font do with a reference, one after another on the same glyph buffer, and which of them shape() applies.
void check_layout(const fg::Font& f, const BLFontFace& face, Rng& q) {
  std::map<u32, u32> st; BLFontFeatureSettings fs; for (auto& L : f.lay) for (auto& x : L.feats) st[x.tag] = q.below(2); for (auto& x : st) if (fs.set_value(x.first, x.second)) fail("intact:features", "set_value() failed"); BLFont font; if (font.create_from_face(face, float(f.upem), fs)) fail("intact:font", "create_from_face() failed: " + f.desc);
  BLGlyphBuffer gb; u32 rounds = 1 + q.below(3);
  for (u32 rd = 0; rd < rounds; rd++) {
    u32 n = q.pick({1u, 2u, 3u, 5u, 20u, 60u, 255u, 256u, 257u}); std::vector<u32> g, cl, g0; const fg::Look* hint = nullptr; for (auto& L : f.lay) if (!L.looks.empty() && q.chance(1, 2)) hint = &L.looks[q.below(u32(L.looks.size()))]; if (q.chance(1, 2)) n = 1 + q.below(40);
    while (g.size() < n) { if (hint && !hint->lig.empty() && q.chance(1, 2)) { auto it = hint->lig.begin(); std::advance(it, q.below(u32(hint->lig.size()))); auto& v = it->second[q.below(u32(it->second.size()))]; g.push_back(it->first); for (size_t k = 1; k < v.size() && g.size() < n; k++) g.push_back(v[k]); } else if (hint && !hint->cov.empty() && q.chance(1, 2)) { auto it = hint->cov.begin(); std::advance(it, q.below(u32(hint->cov.size()))); g.push_back(*it); } else g.push_back(q.chance(1, 30) ? q.pick({0xFFFFu, 0x10000u, 0x80000010u, 0xFFFFFFFFu}) : q.below(f.nglyphs)); }
    for (u32 i = 0; i < n; i++) cl.push_back(i); if (gb.set_glyphs_from_struct(g.data(), n, 4, 4)) fail("intact:set-glyphs", "set_glyphs_from_struct() failed");
    auto same = [&](const char* what) { bool ok = gb.size() == g.size(); for (size_t i = 0; ok && i < g.size(); i++) ok = gb.content()[i] == g[i] && gb.info_data()[i].cluster == cl[i]; if (!ok) { std::string t = "input "; for (size_t i = 0; i < g0.size() && i < 40; i++) t += strf("%u ", g0[i]); t += "; expected "; for (size_t i = 0; i < g.size() && i < 40; i++) t += strf("%u@%u ", g[i], cl[i]); t += "; got "; for (size_t i = 0; i < gb.size() && i < 40; i++) t += strf("%u@%u ", gb.content()[i], gb.info_data()[i].cluster); fail("intact:gsub", strf("%s: expected %zu glyphs (%zu): ", what, g.size(), gb.size()) + t + f.desc); } };
    bool shape = q.chance(1, 2); auto bits = [](const std::set<u32>& s) { BLBitArray b; b.resize(128); for (u32 x : s) b.set_bit(x); return b; }; auto known = [](const fg::Layout& L, const std::set<u32>& s) { for (u32 x : s) if (!L.looks[x].known) return false; return true; };
    if (shape) { // as a whole: text, substitutions and positions of the features that are on
      std::set<u32> ps = plan_of(f.lay[0], st), pp = plan_of(f.lay[1], st); if (!known(f.lay[0], ps) || !known(f.lay[1], pp) || f.cmap.empty()) continue; std::vector<u32> s; g.clear(); cl.clear(); for (u32 i = 0; i < n; i++) { s.push_back(f.chars[q.below(u32(f.chars.size()))]); g.push_back(f.cmap.at(s[i])); cl.push_back(i); }
      if (gb.set_utf32_text(s.data(), n)) fail("intact:set-text", "set_utf32_text() failed"); for (u32 x : ps) if (!g.empty()) fg::apply_lookup(f.lay[0].looks[x], g, cl); BLResult e = font.shape(gb); bool adv = true; for (u32 x : g) adv = adv && x < f.nglyphs; if (e) { fail("intact:shape", strf("shape() = 0x%x: ", e) + f.desc); } same("shape()"); count("layout_shapes");
      std::vector<fg::GlyphPos> p(g.size()); for (size_t i = 0; i < g.size(); i++) if (g[i] < f.nglyphs) p[i].ax = f.adv[g[i]]; for (u32 x : pp) fg::apply_lookup(f.lay[1].looks[x], g, p); for (size_t i = 0; adv && i < g.size(); i++) { auto& a = gb.placement_data()[i]; if (a.placement.x != p[i].px || a.placement.y != p[i].py || a.advance.x != p[i].ax || a.advance.y != p[i].ay) fail("intact:gpos", strf("shape(): glyph %zu of %zu (%u) is at (%d, %d) and advances (%d, %d) instead of (%d, %d) and (%d, %d): ", i, g.size(), g[i], a.placement.x, a.placement.y, a.advance.x, a.advance.y, p[i].px, p[i].py, p[i].ax, p[i].ay) + f.desc); }
      continue; }
    u32 steps = 1 + q.below(4);
    for (u32 k = 0; k < steps && !f.lay[0].looks.empty(); k++) { u32 x = q.below(u32(f.lay[0].looks.size())); if (!f.lay[0].looks[x].known) continue; if (q.chance(1, 5) && gb.size()) { if (font.position_glyphs(gb)) fail("intact:position", "position_glyphs() failed: " + f.desc); } size_t before = g.size(); g0 = g; if (before) fg::apply_lookup(f.lay[0].looks[x], g, cl); BLResult e = font.apply_gsub(gb, bits({x})); if (e) fail("intact:apply-gsub", strf("apply_gsub() = 0x%x: ", e) + f.desc); same(strf("GSUB lookup %u (type %u)", x, f.lay[0].looks[x].type).c_str()); count("layout_gsub"); if (before != g.size() && gb.placement_data()) fail("intact:stale-placements", "apply_gsub() keeps placements of glyphs that are replaced: " + f.desc); if (g.size() > 4000) break; }
    for (size_t i = 0; i < g.size(); i++) if (g[i] >= f.nglyphs) g[i] = 0; if (!f.lay[1].looks.empty() && !g.empty()) { if (gb.set_glyphs_from_struct(g.data(), g.size(), 4, 4) || font.position_glyphs(gb)) fail("intact:position", "position_glyphs() failed: " + f.desc); std::vector<fg::GlyphPos> p; for (size_t i = 0; i < g.size(); i++) { auto& a = gb.placement_data()[i]; p.push_back({a.placement.x, a.placement.y, a.advance.x, a.advance.y}); }
      for (u32 k = 0; k < steps; k++) { u32 x = q.below(u32(f.lay[1].looks.size())); if (!f.lay[1].looks[x].known) continue; fg::apply_lookup(f.lay[1].looks[x], g, p); BLResult e = font.apply_gpos(gb, bits({x})); if (e) fail("intact:apply-gpos", strf("apply_gpos() = 0x%x: ", e) + f.desc); count("layout_gpos"); for (size_t i = 0; i < g.size(); i++) { auto& a = gb.placement_data()[i]; if (a.placement.x != p[i].px || a.placement.y != p[i].py || a.advance.x != p[i].ax || a.advance.y != p[i].ay) fail("intact:gpos", strf("GPOS lookup %u (type %u): glyph %zu of %zu (%u) is at (%d, %d) and advances (%d, %d) instead of (%d, %d) and (%d, %d): ", x, f.lay[1].looks[x].type, i, g.size(), g[i], a.placement.x, a.placement.y, a.advance.x, a.advance.y, p[i].px, p[i].py, p[i].ax, p[i].ay) + f.desc); } } }
  }
}
// Compares an intact font with what it was generated from.
void check_model(const fg::Font& f, const BLFontFace& face, Rng& q) {
  if (face.glyph_count() != f.nglyphs) fail("intact:glyph-count", strf("%u glyphs are reported: ", face.glyph_count()) + f.desc);
  if (!(face.family_name() == f.family.c_str())) fail("intact:family", strf("the family name is '%s' instead of '%s': ", face.family_name().data(), f.family.c_str()) + f.desc);
  if (!(face.full_name() == f.full.c_str())) fail("intact:full-name", strf("the full name is '%s' instead of '%s': ", face.full_name().data(), f.full.c_str()) + f.desc);
  if (!(face.subfamily_name() == f.subfamily.c_str())) fail("intact:subfamily", strf("the subfamily name is '%s' instead of '%s': ", face.subfamily_name().data(), f.subfamily.c_str()) + f.desc);
  if (!(face.post_script_name() == f.ps.c_str())) fail("intact:post-script-name", strf("the PostScript name is '%s' instead of '%s': ", face.post_script_name().data(), f.ps.c_str()) + f.desc);
  BLFont font; if (font.create_from_face(face, float(f.upem))) fail("intact:font", "create_from_face() failed: " + f.desc); BLGlyphBuffer gb; std::vector<u32> s; u32 n = 1 + q.below(60); for (u32 i = 0; i < n; i++) s.push_back(!f.chars.empty() && !q.chance(1, 6) ? f.chars[q.below(u32(f.chars.size()))] + (q.chance(1, 8) ? 1 : 0) : q.below(0x500));
  gb.set_utf32_text(s.data(), s.size()); BLGlyphMappingState st{}; BLResult e = font.map_text_to_glyphs(gb, st); if (f.cmap.empty()) return; if (e) fail("intact:map", strf("map_text_to_glyphs() = 0x%x: ", e) + f.desc);
  std::vector<u32> g; size_t undef = 0; for (size_t i = 0; i < n; i++) { auto it = f.cmap.find(s[i]); u32 want = it == f.cmap.end() ? 0 : it->second; if (!want) undef++; g.push_back(want); if (gb.content()[i] != want) fail("intact:map", strf("character U+%04X is mapped to glyph %u instead of %u: ", s[i], gb.content()[i], want) + f.desc); } if (st.undefined_count != undef) fail("intact:map-state", strf("%zu undefined characters are reported instead of %zu: ", st.undefined_count, undef) + f.desc);
  if (!f.layout) { e = font.position_glyphs(gb); if (e) fail("intact:position", strf("position_glyphs() = 0x%x: ", e) + f.desc); for (size_t i = 0; i < n; i++) { int want = f.adv[g[i]]; if (i + 1 < n) { auto it = f.kern.find({g[i], g[i + 1]}); if (it != f.kern.end()) want += it->second; } if (f.exact && gb.placement_data()[i].advance.x != want) fail("intact:advance", strf("the advance of glyph %u (index %zu of %u) is %d instead of %d (%u without kerning): ", g[i], i, n, gb.placement_data()[i].advance.x, want, f.adv[g[i]]) + f.desc); } count("exact_advances"); if (!f.kern.empty()) count("exact_kerning"); }
  { struct G { u32 id; u32 other[2]; }; u32 m = 1 + q.below(20); size_t step = q.pick({size_t(4), size_t(8), sizeof(G)}); std::vector<u32> ids(m * step / 4 + 1, 0xFFFFFFFFu); std::vector<BLBoxI> all(m + 1); for (u32 i = 0; i < m; i++) ids[i * step / 4] = q.below(f.nglyphs); memset((void*)all.data(), 0xC3, sizeof(BLBoxI) * (m + 1)); if (font.get_glyph_bounds(ids.data(), intptr_t(step), all.data(), m)) fail("intact:bounds", "get_glyph_bounds() failed: " + f.desc);
    for (u32 i = 0; i < m; i++) { BLBoxI one; if (font.get_glyph_bounds(&ids[i * step / 4], 4, &one, 1)) fail("intact:bounds", "get_glyph_bounds() failed: " + f.desc); if (memcmp(&one, &all[i], sizeof one)) fail("intact:bounds-array", strf("the bounds of glyph %u, %u of %u asked for at once (%zu bytes apart), are [%d, %d, %d, %d] instead of [%d, %d, %d, %d]: ", ids[i * step / 4], i, m, step, all[i].x0, all[i].y0, all[i].x1, all[i].y1, one.x0, one.y0, one.x1, one.y1) + f.desc); } u32 tail; memcpy(&tail, &all[m], 4); if (tail != 0xC3C3C3C3u) fail("intact:bounds-array", "get_glyph_bounds() writes more boxes than asked for"); }
  for (u32 k = 0; k < f.nglyphs && k < 40; k++) { u32 gl = f.nglyphs <= 40 ? k : q.below(f.nglyphs); BLPath p; e = font.get_glyph_outlines(gl, p); if (e) fail(f.cff ? "intact:outline-error:cff" : "intact:outline-error:glyf", strf("get_glyph_outlines(%u) = 0x%x: ", gl, e) + f.desc); std::string d = f.cff ? cff_differs(f, gl, p) : outline_differs(f, gl, p); if (!d.empty()) fail("intact:outline", strf("glyph %u: ", gl) + d + "; " + f.desc); count(f.cff ? "exact_cff_outlines" : "exact_outlines");
    if (f.cff) { BLPath x; fg::cff_outline(f, gl, x); BLBox bb; BLBoxI b; BLResult e1 = x.get_bounding_box(&bb), e2 = font.get_glyph_bounds(&gl, 4, &b, 1); if (e2) fail("intact:bounds", strf("get_glyph_bounds(%u) = 0x%x: ", gl, e2) + f.desc); auto okb = [](double w, int h, bool up) { double lo = up ? ceil(w - 0.02) : floor(w - 0.02), hi = up ? ceil(w + 0.02) : floor(w + 0.02); return h >= lo && h <= hi; }; if (!e1 && bb.x1 > bb.x0 && !(okb(bb.x0, b.x0, false) && okb(-bb.y1, b.y0, false) && okb(bb.x1, b.x1, true) && okb(-bb.y0, b.y1, true))) fail("intact:bounds", strf("the bounds of glyph %u are [%d, %d, %d, %d] instead of [%g, %g, %g, %g]: ", gl, b.x0, b.y0, b.x1, b.y1, bb.x0, -bb.y1, bb.x1, -bb.y0) + f.desc); } }
}
void expected_path(const fg::Font& f, u32 g, int dx, int dy, BLPath& out, int depth) {
  auto& G = f.glyphs[g]; if (depth > 14) return; for (auto& c : G.comps) expected_path(f, c.glyph, dx + c.dx, dy + c.dy, out, depth + 1);
  for (auto& C : G.contours) { size_t n = C.size(); std::vector<BLPoint> P; std::vector<bool> on; for (auto& p : C) { P.push_back(BLPoint(p.x + dx, -(p.y + dy))); on.push_back(p.on); }
    // rotate so that the contour starts at the first on-curve point, or at the middle of the first two points
    std::vector<BLPoint> V; std::vector<bool> O; size_t st = 0; while (st < n && !on[st]) st++; BLPoint s; size_t first; if (st < n) { s = P[st]; first = st + 1; } else { s = (P[0] + P[n - 1]) * 0.5; first = 0; st = n; }
    out.move_to(s); BLPoint ctl; bool has = false; size_t cnt = st < n ? n - 1 : n; for (size_t k = 0; k < cnt; k++) { size_t i = (first + k) % n; if (on[i]) { if (has) out.quad_to(ctl, P[i]); else out.line_to(P[i]); has = false; } else { if (has) out.quad_to(ctl, (ctl + P[i]) * 0.5); ctl = P[i]; has = true; } } if (has) out.quad_to(ctl, s); out.close(); }
}
std::string cff_differs(const fg::Font& f, u32 g, const BLPath& p) {
  BLPath x; fg::cff_outline(f, g, x); if (x.size() != p.size()) return strf("%zu vertices instead of %zu", p.size(), x.size());
  for (size_t i = 0; i < x.size(); i++) { u32 c = x.command_data()[i]; if (c != p.command_data()[i]) return strf("command %zu is %u instead of %u", i, p.command_data()[i], c); BLPoint a = p.vertex_data()[i], b = x.vertex_data()[i]; if (c != BL_PATH_CMD_CLOSE && !(fabs(a.x - b.x) < 0.02 && fabs(a.y - b.y) < 0.02)) return strf("vertex %zu of %zu is (%g, %g) instead of (%g, %g)", i, x.size(), a.x, a.y, b.x, b.y); }
  return "";
}
// Both paths have to describe the same closed contours; the point at which a contour starts is free.
std::string outline_differs(const fg::Font& f, u32 g, const BLPath& p) {
  struct Seg { BLPoint a, c, b; bool q; }; auto segs = [](const BLPath& p) { std::vector<std::vector<Seg>> r; BLPoint start{}, cur{}; for (size_t i = 0; i < p.size(); i++) { const BLPoint* v = p.vertex_data() + i; switch (p.command_data()[i]) { case BL_PATH_CMD_MOVE: r.push_back({}); start = cur = v[0]; break; case BL_PATH_CMD_ON: if (r.empty()) break; if (!(v[0] == cur)) r.back().push_back({cur, cur, v[0], false}); cur = v[0]; break; case BL_PATH_CMD_QUAD: if (r.empty() || i + 1 >= p.size()) break; r.back().push_back({cur, v[0], v[1], true}); cur = v[1]; i++; break; case BL_PATH_CMD_CLOSE: if (!r.empty() && !(cur == start)) r.back().push_back({cur, cur, start, false}); cur = start; break; } } return r; };
  BLPath x; expected_path(f, g, 0, 0, x, 0); auto A = segs(x), B = segs(p); if (A.size() != B.size()) return strf("%zu contours instead of %zu", B.size(), A.size());
  auto near = [](const BLPoint& a, const BLPoint& b) { return fabs(a.x - b.x) < 0.02 && fabs(a.y - b.y) < 0.02; };
  auto text = [](const std::vector<Seg>& v) { std::string s; for (auto& g : v) s += strf(g.q ? "(%g,%g q %g,%g) " : "(%g,%g) ", g.a.x, g.a.y, g.c.x, g.c.y); return s; };
  for (size_t c = 0; c < A.size(); c++) { auto& a = A[c]; auto& b = B[c]; if (a.size() != b.size()) return strf("contour %zu has %zu segments instead of %zu: ", c, b.size(), a.size()) + text(b) + " instead of " + text(a); bool ok = a.empty(); for (size_t sh = 0; sh < a.size() && !ok; sh++) { ok = true; for (size_t k = 0; k < a.size() && ok; k++) { auto& u = a[k]; auto& v = b[(k + sh) % a.size()]; ok = near(u.a, v.a) && near(u.b, v.b) && u.q == v.q && (!u.q || near(u.c, v.c)); } } if (!ok) return strf("contour %zu differs: ", c) + text(b) + " instead of " + text(a); }
  return "";
}
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_heap(r); T.strategy = 3; T.sync_den = 0; T.alloc_limit = r.pick({u64(2) << 20, u64(16) << 20, u64(48) << 20}); T.max_events = 400000000;
  u32 mode = r.below(20); if (mode < 8) { if (r.chance(2, 3)) T.fault[F_ALLOC] = r.pick({600u, 3000u, 12000u}); u32 den = r.pick({0u, 1500u, 6000u}); for (u32 k : {F_OPEN, F_READ_ERR, F_READ_EINTR, F_SEEK, F_STAT, F_CLOSE, F_MMAP}) if (r.chance(1, 2)) T.fault[k] = den; T.fault[F_READ_SHORT] = r.pick({0u, 30000u}); }
  tuning_applied(); u32 nops = u32(r.range(1, 4)); u64 wseed = r.next(); set_nops(nops); std::string ds; u64 oh = 1; faults_on(true);
  for (u32 i = 0; i < nops; i++) { if (!op_enabled(i)) continue; op_begin(i); Rng q(mix3(wseed, 0xF03, i)); faults_here(false); fg::Font f = q.chance(1, 5) ? fg::real_font(q) : fg::random_font(q); ds += f.desc; Ask plan = make_plan(q, f);
    if (mode < 8) {
      Input in(f.data); fs::put(kPath, f.data.data(), f.data.size()); int source = int(q.below(4)); u64 rs = q.next(); if (source == 2) f.face_index = 0; auto ref = ask(plan, f, &in, 0, 0);
      { BLFontData d; BLFontFace face; BLResult e = d.create_from_data(in.p, in.n); if (!e) e = face.create_from_data(d, f.face_index); if (e) fail("intact:face", strf("create_from_data() = 0x%x for an intact font: ", e) + f.desc); if (d.face_count() != f.face_count) fail("intact:face-count", strf("%u faces are reported: ", d.face_count()) + f.desc); if (f.exact) check_model(f, face, q); if (f.layout) check_layout(f, face, q); }
      u64 mark = heap_mark(); { Cpu cpu(plan.cpu); Probe p(plan, &in, f, source, rs); size_t skip = source == 2 ? 1 : 0, errs = 0;
        for (size_t k = 0; k < p.steps.size(); k++) { Step& s = p.steps[k]; for (int attempt = 0;; attempt++) { bool clean = attempt > 3; u64 f0 = io_faults(); scrub_stack(u8(q.next())); Hash h; faults_here(!clean); BLResult e = s.f(h); faults_here(false); const Result& R = ref[k + skip];
            if (e == R.e && (h.h == R.h || (source == 2 && k == 0))) break;
            if (e == R.e || e == BL_SUCCESS) fail(strf("intact:%s", s.name), strf("'%s' gives a different result than without faults (0x%x, expected 0x%x), step %zu, attempt %d: ", s.name, e, R.e, k, attempt) + f.desc);
            if (io_faults() == f0) fail(strf("intact:error:%s", s.name), strf("'%s' = 0x%x (expected 0x%x) without a fault, step %zu, attempt %d: ", s.name, e, R.e, k, attempt) + f.desc);
            errs++; if (clean) harness_error("a clean attempt had a fault"); } }
        if (errs) { count("failed_steps", errs); note_nontrivial(); } }
      fs::remove(kPath); leak_check(mark, ("using " + f.desc).c_str()); if (f.exact) count("exact_fonts"); else count("intact_fonts"); ds += strf("source %d; ", source);
    } else {
      fg::Font other = q.chance(1, 4) ? fg::real_font(q) : fg::random_font(q); fg::Font b = f; std::string dd = f.desc + ", damage: "; fg::damage(q, b, other, &dd); ds += " {" + dd + "} "; std::vector<Result> o[2]; u64 g = T.garbage; int source = int(q.below(2));
      for (int k = 0; k < 2; k++) { T.garbage = mix2(g, u64(k) + q.next()); scrub_stack(u8(k ? 0xFF : 0x00)); u64 mark = heap_mark(); { Input in(b.data); o[k] = ask(plan, b, &in, source, 0); } leak_check(mark, ("using a damaged font: " + dd).c_str()); }
      T.garbage = g; for (size_t k = 0; k < o[0].size(); k++) if (o[0][k].e != o[1][k].e || o[0][k].h != o[1][k].h) { Probe p(plan, nullptr, b, source, 0); fail(strf("damaged:unstable:%s", p.steps[k].name), strf("'%s' (step %zu) differs between two runs on the same bytes (0x%x, 0x%x), it depends on the content of uninitialised memory: ", p.steps[k].name, k, o[0][k].e, o[1][k].e) + dd); }
      bool ok = !o[0][1].e; count(ok ? "damaged_accepted" : "damaged_refused"); for (auto& x : o[0]) oh = mix2(oh, mix2(x.e, x.h)); note_nontrivial(); }
    faults_here(true); op_end();
  }
  faults_on(false); if (fs::open_fds()) fail("fd-leak", "file descriptors are open"); sample(ds.substr(0, 1200)); out(mix2(oh, hash_bytes(ds.data(), ds.size())));
}
static int reg = (register_check({"F03",
  "A run takes 1 to 4 fonts: generated ones (every supported cmap format, glyf with simple and compound glyphs, CFF with subroutines and CID, kern, names, OS/2, GDEF, GSUB and GPOS with every lookup type, collections) and real ones. It (a) loads them intact from memory or through the simulated disk (read or mapped) under failing and interrupted I/O and failing allocations and asks about 40 things of the face and the font (information, names, coverage, mapping, shaping, positioning, kerning, lookups, bounds, advances, outlines, drawing), or (b) damages tables (extreme and size-related fields, cuts, foreign and missing tables, noise; the damaged table lies at the end of the input in most cases) and asks the same twice with different content of fresh memory and stack. Checked: characters, advances, kerning, outlines and names of generated fonts against what they were generated from; every answer under faults equals the one without faults or is an error that a fault explains, and can be repeated; no access outside of any object (address sanitizer and red zones), equal answers of both passes over damaged fonts, no leak. Non-trivial: a step failed because of a fault, or a font was damaged.",
  "real: font data, faces, OpenType tables, shaping, glyph buffers, outlines, text rendering, file system layer; simulated: POSIX file calls, disk, heap; the CPU features which choose the glyph decoder are set by the run",
  run, nullptr}), 0);
