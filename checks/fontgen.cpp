#include "fontgen.h"
#include <math.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
asm(".section .rodata\n"
#define RES(S, F) " .global " S "\n .global " S "_end\n .balign 16\n" S ":\n .incbin \"" DATA_DIR "/" F "\"\n" S "_end:\n .byte 0\n"
    RES("fg_abee", "ABeeZee-Regular.ttf") RES("fg_orbi", "Orbitron-Regular.ttf") RES("fg_cfft", "CFFTest.otf") RES("fg_glyft", "glyfTest.ttf") RES("fg_fa", "FontAwesome.otf") RES("fg_sans", "OpenSans-Regular.ttf")
    " .text\n");
extern "C" const unsigned char fg_abee[], fg_abee_end[], fg_orbi[], fg_orbi_end[], fg_cfft[], fg_cfft_end[], fg_glyft[], fg_glyft_end[], fg_fa[], fg_fa_end[], fg_sans[], fg_sans_end[];
namespace fg {
namespace {
constexpr u32 tag(const char* s) { return u32(u8(s[0])) << 24 | u32(u8(s[1])) << 16 | u32(u8(s[2])) << 8 | u8(s[3]); }
struct W { Bytes b; W& u8_(u32 v) { b.push_back(u8(v)); return *this; } W& u16_(u32 v) { b.push_back(u8(v >> 8)); b.push_back(u8(v)); return *this; } W& u32_(u32 v) { return u16_(v >> 16).u16_(v & 0xFFFF); }
  struct Kid { size_t pos; Bytes d; bool wide; }; std::vector<Kid> kids;
  W& off(Bytes d) { kids.push_back({n(), std::move(d), false}); return u16_(0); } W& off32(Bytes d) { kids.push_back({n(), std::move(d), true}); return u32_(0); }   // offsets to sub-tables, which done() appends
  Bytes done() { for (auto& k : kids) { if (n() & 1) u8_(0); if (k.wide) set32(k.pos, u32(n())); else set16(k.pos, u32(n())); raw(k.d); } kids.clear(); return b; }
  W& raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); return *this; } void set16(size_t p, u32 v) { b[p] = u8(v >> 8); b[p + 1] = u8(v); } void set32(size_t p, u32 v) { set16(p, v >> 16); set16(p + 2, v & 0xFFFF); } size_t n() const { return b.size(); } };
using T16 = W;
void put16(Bytes& b, size_t p, u32 v) { b[p] = u8(v >> 8); b[p + 1] = u8(v); }
u32 get16(const Bytes& b, size_t p) { return u32(b[p]) << 8 | b[p + 1]; }
u32 get32(const Bytes& b, size_t p) { return get16(b, p) << 16 | get16(b, p + 2); }

// --- cmap
Bytes cmap_sub(Rng& r, u32 fmt, std::map<u32, u32>& m) {
  W w;
  if (fmt == 0) { for (auto it = m.begin(); it != m.end();) if (it->first > 255 || it->second > 255) it = m.erase(it); else ++it; w.u16_(0).u16_(262).u16_(0); for (u32 c = 0; c < 256; c++) w.u8_(m.count(c) ? m[c] : 0); }
  else if (fmt == 6 || fmt == 10) { u32 lim = fmt == 6 ? 0xFFFFu : 0x10FFFFu; for (auto it = m.begin(); it != m.end();) if (it->first >= lim) it = m.erase(it); else ++it; if (m.empty()) return cmap_sub(r, 0, m); u32 first = m.begin()->first; for (auto it = m.begin(); it != m.end();) if (it->first >= lim || it->first - first > 600) it = m.erase(it); else ++it; u32 n = m.rbegin()->first - first + 1;
    if (fmt == 6) w.u16_(6).u16_(10 + n * 2 + 12).u16_(0).u16_(first).u16_(n); else w.u16_(10).u16_(0).u32_(20 + n * 2 + 8).u32_(0).u32_(first).u32_(n); for (u32 i = 0; i < n; i++) w.u16_(m.count(first + i) ? m[first + i] : 0); for (int i = 0; i < (fmt == 6 ? 12 : 8); i++) w.u8_(0); }
  else if (fmt == 4) { for (auto it = m.begin(); it != m.end();) if (it->first >= 0xFFFF) it = m.erase(it); else ++it; struct S { u32 a, b; bool arr; }; std::vector<S> s; for (auto& kv : m) { if (!s.empty() && kv.first == s.back().b + 1 && !r.chance(1, 6)) { if (!s.back().arr && kv.second - m[s.back().a] != kv.first - s.back().a) s.back().arr = true; s.back().b = kv.first; } else s.push_back({kv.first, kv.first, r.chance(1, 4)}); }
    u32 n = u32(s.size()) + 1; w.u16_(4).u16_(0).u16_(0).u16_(n * 2).u16_(0).u16_(0).u16_(0); for (auto& x : s) w.u16_(x.b); w.u16_(0xFFFF).u16_(0); for (auto& x : s) w.u16_(x.a); w.u16_(0xFFFF); for (auto& x : s) w.u16_(x.arr ? 0 : m[x.a] - x.a); w.u16_(1);
    W arr; size_t base = w.n(); for (size_t i = 0; i < s.size(); i++) { if (!s[i].arr) { w.u16_(0); continue; } size_t pos = base + i * 2, at = base + n * 2 + arr.n(); w.u16_(u32(at - pos)); for (u32 c = s[i].a; c <= s[i].b; c++) arr.u16_(m[c]); } w.u16_(0); w.raw(arr.b); w.set16(2, u32(w.n())); }
  else { struct G { u32 a, b, g; }; std::vector<G> g; for (auto& kv : m) { bool cont = !g.empty() && kv.first == g.back().b + 1 && (fmt == 13 ? kv.second == g.back().g : kv.second == g.back().g + (kv.first - g.back().a)); if (cont) g.back().b = kv.first; else g.push_back({kv.first, kv.first, kv.second}); }
    w.u16_(fmt).u16_(0).u32_(u32(16 + g.size() * 12)).u32_(0).u32_(u32(g.size())); for (auto& x : g) w.u32_(x.a).u32_(x.b).u32_(x.g); }
  return w.b;
}
Bytes make_cmap(Rng& r, Font& f) {
  std::map<u32, u32> all; u32 base = r.pick({0x20u, 0x20u, 0x41u, 0x61u, 0x400u, 0xFE00u, 0xE000u}); u32 c = base; bool wide = r.chance(1, 3); u32 n = 1 + r.below(60);
  for (u32 i = 0; i < n; i++) { u32 run = 1 + r.below(6), g = r.below(f.nglyphs); bool seq = r.chance(1, 2); for (u32 k = 0; k < run; k++) { u32 gl = seq ? (g + k) % f.nglyphs : r.below(f.nglyphs); if (gl) all[c] = gl; c++; } c += r.below(r.pick({1u, 3u, 40u})); if (wide && r.chance(1, 8)) c = std::max(c, r.pick({0x1F600u, 0x20000u, 0x10FF00u})); if (c > 0x10FFF0) break; } if (all.empty()) all[base + 1] = 1 % f.nglyphs ? 1 : 0;
  for (auto it = all.begin(); it != all.end();) if (!it->second) it = all.erase(it); else ++it; if (all.empty() || f.nglyphs < 2) { f.exact = false; }
  u32 nsub = 1 + r.below(3); struct Enc { u32 p, e; Bytes d; }; std::vector<Enc> encs; u32 best = 0; std::string ds;
  for (u32 i = 0; i < nsub; i++) { auto m = all; u32 fmt = r.pick({4u, 4u, 12u, 12u, 6u, 10u, 13u, 0u}); if (m.empty()) fmt = 0; u32 p = r.pick({3u, 3u, 0u, 1u}), e = p == 3 ? r.pick({0u, 1u, 1u, 10u}) : p == 0 ? r.below(5) : 0; u32 score = p == 3 ? (e == 0 ? 2 : 0x20000 + e) : p == 0 ? 0x10000 + e : fmt == 0 ? 1 : 0; Bytes d;
    if (fmt == 13) for (auto& kv : m) kv.second = 1 + (kv.first >> 3) % std::max(1u, f.nglyphs - 1); d = cmap_sub(r, fmt, m); encs.push_back({p, e, d}); ds += strf("%u/%u:f%u ", p, e, fmt); if (score > best) { best = score; f.cmap = m; } }
  if (!best) { f.cmap.clear(); } f.desc += "cmap[" + ds + "] "; T16 t; t.u16_(0).u16_(u32(encs.size())); for (auto& e : encs) { t.u16_(e.p).u16_(e.e); t.off32(e.d); } return t.done();
}
// --- glyf
void make_glyf(Rng& r, Font& f, Bytes& glyf, Bytes& loca) {
  f.glyphs.resize(f.nglyphs); W g; std::vector<u32> offs; bool longloca = r.chance(1, 2);
  for (u32 i = 0; i < f.nglyphs; i++) { offs.push_back(u32(g.n())); Glyph& G = f.glyphs[i]; u32 kind = r.below(8);
    if (kind == 0) continue;
    if (kind == 1 && i > 1) { u32 n = 1 + r.below(3); g.u16_(0xFFFF).u16_(u32(-50)).u16_(u32(-50)).u16_(900).u16_(900); for (u32 k = 0; k < n; k++) { Comp c{r.below(i), r.range(-100, 100), r.range(-100, 100)}; bool words = r.chance(1, 2); G.comps.push_back(c); g.u16_((words ? 1 : 0) | 2 | (k + 1 < n ? 0x20 : 0) | (r.chance(1, 3) ? 0x200 : 0)).u16_(c.glyph); if (words) g.u16_(u32(c.dx)).u16_(u32(c.dy)); else g.u8_(u32(c.dx)).u8_(u32(c.dy)); } if (g.n() & 1) g.u8_(0); continue; }
    u32 nc = 1 + r.below(3); int px = 0, py = 0; std::vector<Pt> flat; std::vector<u32> ends; int x0 = 32767, y0 = 32767, x1 = -32768, y1 = -32768;
    for (u32 c = 0; c < nc; c++) { u32 np = 3 + r.below(r.pick({2u, 8u, 40u})); std::vector<Pt> P; bool mostly_on = r.chance(1, 3); for (u32 k = 0; k < np; k++) { Pt p{r.chance(1, 4) ? px : r.chance(1, 2) ? px + r.range(-200, 200) : r.range(-1000, 1500), r.chance(1, 4) ? py : r.chance(1, 2) ? py + r.range(-200, 200) : r.range(-1000, 1500), mostly_on || r.chance(1, 2)}; px = p.x; py = p.y; P.push_back(p); flat.push_back(p); x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } ends.push_back(u32(flat.size()) - 1); G.contours.push_back(P); }
    g.u16_(nc).u16_(u32(x0)).u16_(u32(y0)).u16_(u32(x1)).u16_(u32(y1)); for (u32 e : ends) g.u16_(e); u32 ins = r.chance(1, 4) ? r.below(9) : 0; g.u16_(ins); for (u32 k = 0; k < ins; k++) g.u8_(u32(r.next()));
    std::vector<u8> fl; W xs, ys; int lx = 0, ly = 0; for (auto& p : flat) { u8 q = p.on ? 1 : 0; int dx = p.x - lx, dy = p.y - ly; lx = p.x; ly = p.y; if (dx == 0 && !r.chance(1, 5)) q |= 0x10; else if (abs(dx) < 256 && !r.chance(1, 8)) { q |= 2 | (dx > 0 || (dx == 0 && r.chance(1, 2)) ? 0x10 : 0); xs.u8_(u32(abs(dx))); } else xs.u16_(u32(dx)); if (dy == 0 && !r.chance(1, 5)) q |= 0x20; else if (abs(dy) < 256 && !r.chance(1, 8)) { q |= 4 | (dy > 0 || (dy == 0 && r.chance(1, 2)) ? 0x20 : 0); ys.u8_(u32(abs(dy))); } else ys.u16_(u32(dy)); fl.push_back(q); }
    for (size_t k = 0; k < fl.size();) { size_t run = 1; while (k + run < fl.size() && fl[k + run] == fl[k] && run < 250) run++; if (run > 1 && r.chance(2, 3)) { g.u8_(fl[k] | 8u).u8_(u32(run - 1)); k += run; } else { g.u8_(fl[k]); k++; } } g.raw(xs.b).raw(ys.b); if (g.n() & 1) g.u8_(0); if (r.chance(1, 6)) g.u16_(0); }
  offs.push_back(u32(g.n())); if (g.b.empty()) g.u32_(0); W l; for (u32 o : offs) if (longloca) l.u32_(o); else l.u16_(o / 2); glyf = g.b; loca = l.b; put16(f.tables[0].data, 50, longloca);
}
// --- CFF
Bytes cff_index(const std::vector<Bytes>& v) { W w; w.u16_(u32(v.size())); if (v.empty()) return w.b; u32 tot = 1; for (auto& b : v) tot += u32(b.size()); u32 sz = tot < 256 ? 1 : tot < 65536 ? 2 : 3; w.u8_(sz); u32 o = 1; auto put = [&](u32 x) { for (u32 k = sz; k--;) w.u8_(x >> (8 * k)); }; put(o); for (auto& b : v) { o += u32(b.size()); put(o); } for (auto& b : v) w.raw(b); return w.b; }
void cs_num(Rng& r, W& w, int v, bool integer = false) { if (!integer && r.chance(1, 12)) { w.u8_(255).u16_(u32(v)).u16_(r.chance(1, 2) ? 0 : 0x8000); return; } if (v >= -107 && v <= 107 && !r.chance(1, 10)) w.u8_(u32(v + 139)); else if (v >= 108 && v <= 1131) { v -= 108; w.u8_(247 + u32(v >> 8)).u8_(u32(v)); } else if (v <= -108 && v >= -1131) { v = -v - 108; w.u8_(251 + u32(v >> 8)).u8_(u32(v)); } else w.u8_(28).u16_(u32(v)); }
void dict_int(W& w, int v) { w.u8_(29).u32_(u32(v)); }
// Random path operators; `depth` limits calls of subroutines.
Bytes charstring(Rng& r, u32 nl, u32 ng, int depth, bool glyph) {
  W w; std::set<u32> stored; auto lit = [&](int v, bool integer = false) { cs_num(r, w, v, integer); }; auto esc = [&](u32 op) { w.u8_(12).u8_(op); }; auto any = [&] { lit(r.range(-120, 120)); };
  auto num = [&] { // a number, or an expression that leaves one
    if (!r.chance(1, 20)) { any(); return; }
    switch (r.below(15)) {
      case 0: any(); any(); esc(10); break; case 1: any(); any(); esc(11); break; case 2: lit(r.range(-10, 10)); lit(r.range(-12, 12)); esc(24); break; case 3: any(); lit(r.pick({-4, 2, 3, 7, 16}), true); esc(12); break;
      case 4: any(); esc(14); break; case 5: any(); esc(9); break; case 6: lit(r.range(0, 1000)); esc(26); break; case 7: any(); any(); esc(28); esc(18); break; case 8: lit(r.range(-60, 60)); esc(27); esc(10); break;
      case 9: any(); any(); if (r.chance(1, 4)) lit(r.range(-2, 2)), lit(r.range(-2, 2)); else any(), any(); esc(22); break;
      case 10: if (r.chance(1, 2)) lit(5), lit(r.pick({5, 6})); else any(), any(); esc(15); break; case 11: lit(r.range(-1, 1), true); if (r.chance(1, 3)) esc(5); else { lit(r.range(-1, 1), true); esc(r.pick({3u, 4u})); } break;
      case 12: { u32 n = 2 + r.below(3); for (u32 i = 0; i < n; i++) any(); lit(r.range(-1, int(n) - 1), true); esc(29); for (u32 i = 0; i < n; i++) { esc(28); esc(18); } break; }
      case 13: { u32 n = 2 + r.below(4); for (u32 i = 0; i < n; i++) any(); lit(int(n), true); lit(r.range(-7, 7), true); esc(30); for (u32 i = 1; i < n; i++) esc(18); break; }
      default: { u32 k = r.below(32); if (stored.count(k) && r.chance(1, 2)) { lit(int(k), true); esc(21); break; } any(); lit(int(k), true); esc(20); stored.insert(k); lit(int(k), true); esc(21); break; } } };
  auto nums = [&](u32 n) { for (u32 i = 0; i < n; i++) num(); if (n >= 2 && r.chance(1, 30)) { lit(2 + int(r.below(n - 1)), true); lit(r.range(-5, 5), true); esc(30); } }; u32 hints = 0;
  auto bias = [](u32 n) { return n < 1240 ? 107 : n < 33900 ? 1131 : 32768; };
  if (glyph) { if (r.chance(1, 2)) num(); if (r.chance(1, 2)) { u32 h = 1 + r.below(4); nums(h * 2); hints += h; bool hm = r.chance(1, 2); w.u8_(hm ? 18 : 1); if (r.chance(1, 2)) { u32 v = 1 + r.below(9); nums(v * 2); hints += v; if (!(hm && r.chance(1, 2))) w.u8_(hm ? 23 : 3); else { w.u8_(r.chance(1, 2) ? 19 : 20); for (u32 k = 0; k < (hints + 7) / 8; k++) w.u8_(u32(r.next())); } } } num(); num(); w.u8_(21); }
  u32 n = 1 + r.below(8); for (u32 i = 0; i < n; i++) switch (r.below(17)) {
    case 0: if (glyph) { nums(2); w.u8_(21); } break; case 1: if (glyph) { num(); w.u8_(22); } break; case 2: if (glyph) { num(); w.u8_(4); } break;
    case 3: nums(2 * (1 + r.below(6))); w.u8_(5); break; case 4: nums(1 + r.below(7)); w.u8_(6); break; case 5: nums(1 + r.below(7)); w.u8_(7); break;
    case 6: nums(6 * (1 + r.below(4))); w.u8_(8); break; case 7: nums(6 * (1 + r.below(3)) + 2); w.u8_(24); break; case 8: nums(2 * (1 + r.below(4)) + 6); w.u8_(25); break;
    case 9: nums(4 * (1 + r.below(4)) + r.below(2)); w.u8_(26); break; case 10: nums(4 * (1 + r.below(4)) + r.below(2)); w.u8_(27); break; case 11: nums(4 * (1 + r.below(4)) + (r.chance(1, 3) ? 1 : 0)); w.u8_(r.chance(1, 2) ? 30 : 31); break;
    case 12: nums(13); w.u8_(12).u8_(35); break; case 13: nums(7); w.u8_(12).u8_(34); break; case 14: if (r.chance(1, 2)) { nums(9); w.u8_(12).u8_(36); } else { nums(11); w.u8_(12).u8_(37); } break;
    case 15: if (depth > 0 && nl) { cs_num(r, w, int(r.below(nl)) - bias(nl), true); w.u8_(10); } break;
    default: if (depth > 0 && ng) { cs_num(r, w, int(r.below(ng)) - bias(ng), true); w.u8_(29); } }
  w.u8_(glyph ? 14 : 11); return w.b;
}
Bytes make_cff(Rng& r, Font& f) {
  bool cid = r.chance(1, 3); u32 nfd = cid ? 1 + r.below(3) : 1; u32 ng = r.below(4); std::vector<Bytes> gs; for (u32 i = 0; i < ng; i++) gs.push_back(charstring(r, 0, 0, 0, false)); u32 nl = r.below(4);
  std::vector<Bytes> cs; for (u32 i = 0; i < f.nglyphs; i++) cs.push_back(charstring(r, nl, ng, 2, true));
  auto priv = [&](u32 size_known) { W p; dict_int(p, 500); p.u8_(20); dict_int(p, 600); p.u8_(21); if (nl) { dict_int(p, int(size_known)); p.u8_(19); } return p.b; };
  std::vector<Bytes> ls; for (u32 i = 0; i < nl; i++) ls.push_back(charstring(r, 0, ng, 1, false)); if (nl && ng) ls[0] = charstring(r, 0, ng, 1, false);
  f.cs = cs; f.lsubr = ls; f.gsubr = gs; Bytes P = priv(0); P = priv(u32(P.size())); Bytes L = nl ? cff_index(ls) : Bytes(); Bytes head = {1, 0, 4, 4}, name = cff_index({{'S', 'i', 'm'}}), str = cff_index(cid ? std::vector<Bytes>{{'A', 'd', 'o', 'b', 'e'}, {'I', 'd'}} : std::vector<Bytes>{}), gsub = cff_index(gs), csi = cff_index(cs);
  auto top = [&](u32 o_cs, u32 o_priv, u32 o_fda, u32 o_fds) { W t; if (cid) { dict_int(t, 391); dict_int(t, 392); dict_int(t, 0); t.u8_(12).u8_(30); } dict_int(t, int(o_cs)); t.u8_(17); if (!cid) { dict_int(t, int(P.size())); dict_int(t, int(o_priv)); t.u8_(18); } else { dict_int(t, int(o_fda)); t.u8_(12).u8_(36); dict_int(t, int(o_fds)); t.u8_(12).u8_(37); } return cff_index({t.b}); };
  size_t base = head.size() + name.size() + top(0, 0, 0, 0).size() + str.size() + gsub.size(); u32 o_cs = u32(base), o_priv = u32(o_cs + csi.size()), o_fda = u32(o_priv + P.size() + L.size());
  std::vector<Bytes> fds; for (u32 i = 0; i < nfd; i++) { W d; dict_int(d, int(P.size())); dict_int(d, int(o_priv)); d.u8_(18); fds.push_back(d.b); } Bytes fda = cff_index(fds); u32 o_fds = u32(o_fda + fda.size()); W sel; if (r.chance(1, 2)) { sel.u8_(0); for (u32 i = 0; i < f.nglyphs; i++) sel.u8_(r.below(nfd)); } else { u32 k = 1 + r.below(std::min(3u, f.nglyphs)); sel.u8_(3).u16_(k); for (u32 i = 0; i < k; i++) sel.u16_(i).u8_(r.below(nfd)); sel.u16_(f.nglyphs); }
  W w; w.raw(head).raw(name).raw(top(o_cs, o_priv, o_fda, o_fds)).raw(str).raw(gsub).raw(csi).raw(P).raw(L); if (cid) w.raw(fda).raw(sel.b); f.desc += cid ? "CID " : "CFF "; return w.b;
}
// --- kern
Bytes make_kern(Rng& r, Font& f) {
  W k; bool mac = r.chance(1, 3); u32 n = 1 + r.below(2); if (mac) k.u32_(0x00010000).u32_(n); else k.u16_(0).u16_(n); std::map<std::pair<u32, u32>, int> tot;
  for (u32 i = 0; i < n; i++) { u32 fmt = r.pick({0u, 0u, 2u, 3u}); W s; std::map<std::pair<u32, u32>, int> v; u32 hs = mac ? 8 : 6;
    if (fmt == 0) { u32 np = 1 + r.below(r.pick({5u, 60u, 300u})); for (u32 p = 0; p < np; p++) v[{r.below(f.nglyphs), r.below(f.nglyphs)}] = r.range(-200, 200); std::vector<std::pair<std::pair<u32, u32>, int>> L(v.begin(), v.end()); if (r.chance(1, 3)) { u32 sw = 1 + r.below(r.pick({2u, 20u, 400u})); for (u32 q = 0; q < sw; q++) std::swap(L[r.below(u32(L.size()))], L[r.below(u32(L.size()))]); f.desc += "kern-unsorted "; } s.u16_(u32(L.size())).u16_(0).u16_(0).u16_(0); for (auto& e : L) s.u16_(e.first.first).u16_(e.first.second).u16_(u32(e.second)); }
    else if (fmt == 2) { u32 lf = r.below(f.nglyphs), ln = 1 + r.below(f.nglyphs - lf), rf = r.below(f.nglyphs), rn = 1 + r.below(f.nglyphs - rf), lc = 1 + r.below(3), rc = 1 + r.below(3); size_t o_l = hs + 8, o_r = o_l + 4 + ln * 2, o_k = o_r + 4 + rn * 2; std::vector<int> vals; for (u32 q = 0; q < lc * rc; q++) vals.push_back(r.range(-200, 200)); std::vector<u32> L, R; for (u32 q = 0; q < ln; q++) L.push_back(r.below(lc)); for (u32 q = 0; q < rn; q++) R.push_back(r.below(rc));
      s.u16_(rc * 2).u16_(u32(o_l)).u16_(u32(o_r)).u16_(u32(o_k)); s.u16_(lf).u16_(ln); for (u32 x : L) s.u16_(u32(o_k + x * rc * 2)); s.u16_(rf).u16_(rn); for (u32 x : R) s.u16_(x * 2); for (int x : vals) s.u16_(u32(x)); f.exact = false; }
    else { u32 gc = std::min(f.nglyphs, 255u), kc = 1 + r.below(10), lc = 1 + r.below(4), rc = 1 + r.below(4); s.u16_(gc).u8_(kc).u8_(lc).u8_(rc).u8_(0); std::vector<int> vals; for (u32 q = 0; q < kc; q++) { vals.push_back(r.range(-200, 200)); s.u16_(u32(vals.back())); } std::vector<u32> L, R, I; for (u32 q = 0; q < gc; q++) { L.push_back(r.below(lc)); s.u8_(L.back()); } for (u32 q = 0; q < gc; q++) { R.push_back(r.below(rc)); s.u8_(R.back()); } for (u32 q = 0; q < lc * rc; q++) { I.push_back(r.below(kc)); s.u8_(I.back()); } for (u32 a = 0; a < gc; a++) for (u32 b = 0; b < gc; b++) v[{a, b}] = vals[I[L[a] * rc + R[b]]]; }
    bool over = !mac && i > 0 && r.chance(1, 4); if (fmt != 2) for (auto& e : v) { if (over) tot[e.first] = e.second; else tot[e.first] += e.second; }
    if (mac) k.u32_(u32(hs + s.n())).u8_(0).u8_(fmt).u16_(0); else k.u16_(0).u16_(u32(hs + s.n())).u8_(fmt).u8_(1u | (over ? 8u : 0u)); k.raw(s.b); f.desc += strf("kern%u ", fmt); }
  f.kern = tot; return k.b;
}
// --- GDEF, GSUB, GPOS
Bytes coverage(Rng& r, const std::set<u32>& s) { W w; if (r.chance(1, 2)) { w.u16_(1).u16_(u32(s.size())); for (u32 g : s) w.u16_(g); } else { std::vector<std::pair<u32, u32>> R; for (u32 g : s) if (!R.empty() && R.back().second + 1 == g) R.back().second = g; else R.push_back({g, g}); w.u16_(2).u16_(u32(R.size())); u32 i = 0; for (auto& x : R) { w.u16_(x.first).u16_(x.second).u16_(i); i += x.second - x.first + 1; } } return w.b; }
std::set<u32> some(Rng& r, u32 n, u32 maxn) { std::set<u32> s; u32 k = 1 + r.below(maxn); for (u32 i = 0; i < k; i++) s.insert(r.below(n)); return s; }
Bytes classdef(Rng& r, u32 n, u32 classes, std::map<u32, u32>* m = nullptr) { W w; if (r.chance(1, 2)) { u32 st = r.below(n), c = 1 + r.below(n - st); w.u16_(1).u16_(st).u16_(c); for (u32 i = 0; i < c; i++) { u32 k = r.below(classes); w.u16_(k); if (m) (*m)[st + i] = k; } } else { std::vector<std::pair<u32, u32>> R; u32 g = r.below(3); while (g < n && R.size() < 8) { u32 e = std::min(n - 1, g + r.below(4)); R.push_back({g, e}); g = e + 1 + r.below(4); } if (R.empty()) R.push_back({0, 0}); w.u16_(2).u16_(u32(R.size())); for (auto& x : R) { u32 k = r.below(classes); w.u16_(x.first).u16_(x.second).u16_(k); if (m) for (u32 y = x.first; y <= x.second; y++) (*m)[y] = k; } } return w.b; }
void slr(Rng& r, W& w, u32 cnt, u32 seqlen, u32 nlook) { for (u32 i = 0; i < cnt; i++) w.u16_(r.below(seqlen)).u16_(r.below(nlook)); }
Bytes rule(Rng& r, u32 n, u32 nlook, bool chained) { W w; if (chained) { u32 b = r.below(3); w.u16_(b); for (u32 i = 0; i < b; i++) w.u16_(r.below(n)); } u32 g = 1 + r.below(3), c = r.below(3); if (!chained) { w.u16_(g).u16_(c); for (u32 i = 1; i < g; i++) w.u16_(r.below(n)); slr(r, w, c, g, nlook); } else { w.u16_(g); for (u32 i = 1; i < g; i++) w.u16_(r.below(n)); u32 l = r.below(3); w.u16_(l); for (u32 i = 0; i < l; i++) w.u16_(r.below(n)); w.u16_(c); slr(r, w, c, g, nlook); } return w.b; }
Bytes rule_set(Rng& r, u32 n, u32 nlook, bool chained) { T16 t; u32 k = 1 + r.below(3); t.u16_(k); for (u32 i = 0; i < k; i++) t.off(rule(r, n, nlook, chained)); return t.done(); }
Bytes context(Rng& r, u32 fmt, u32 n, u32 nlook, bool chained) {
  T16 t; t.u16_(fmt); if (fmt == 1) { auto s = some(r, n, 6); t.off(coverage(r, s)); t.u16_(u32(s.size())); for (size_t i = 0; i < s.size(); i++) t.off(rule_set(r, n, nlook, chained)); }
  else if (fmt == 2) { auto s = some(r, n, 6); u32 cl = 1 + r.below(4); t.off(coverage(r, s)); if (chained) t.off(classdef(r, n, cl)); t.off(classdef(r, n, cl)); if (chained) t.off(classdef(r, n, cl)); t.u16_(cl); for (u32 i = 0; i < cl; i++) if (r.chance(1, 4)) t.u16_(0); else t.off(rule_set(r, cl, nlook, chained)); }
  else { u32 g = 1 + r.below(3), c = r.below(3); if (!chained) { t.u16_(g).u16_(c); for (u32 i = 0; i < g; i++) t.off(coverage(r, some(r, n, 8))); slr(r, t, c, g, nlook); } else { u32 b = r.below(3), l = r.below(3); t.u16_(b); for (u32 i = 0; i < b; i++) t.off(coverage(r, some(r, n, 8))); t.u16_(g); for (u32 i = 0; i < g; i++) t.off(coverage(r, some(r, n, 8))); t.u16_(l); for (u32 i = 0; i < l; i++) t.off(coverage(r, some(r, n, 8))); t.u16_(c); slr(r, t, c, g, nlook); } }
  return t.done();
}
u32 bits(u32 v) { return u32(__builtin_popcount(v)); }
std::vector<int> vrec(Rng& r, W& w, u32 vf) { std::vector<int> v; for (u32 i = 0; i < bits(vf & 0xFF); i++) { v.push_back(int(r.range(-100, 100))); w.u16_(u32(v.back())); } return v; }
Bytes anchor(Rng& r) { W w; u32 f = 1 + r.below(2); w.u16_(f).u16_(u32(r.range(-99, 99))).u16_(u32(r.range(-99, 99))); if (f == 2) w.u16_(r.below(9)); return w.b; }
Bytes gsub_sub(Rng& r, u32 type, u32 n, u32 nlook, Look& m) {
  T16 t; auto s = some(r, n, 10); u32 k = u32(s.size()); std::vector<u32> c(s.begin(), s.end()); m.cov = s; m.known = type <= 4 || type == 8;
  switch (type) {
    case 1: if (r.chance(1, 2)) { t.u16_(1).off(coverage(r, s)); int d = int(r.range(-3, 3)); t.u16_(u32(d)); for (u32 g : c) m.seq[g] = {u32(int(g) + d) & 0xFFFF}; } else { t.u16_(2).off(coverage(r, s)); t.u16_(k); for (u32 i = 0; i < k; i++) { u32 g = r.below(n); t.u16_(g); m.seq[c[i]] = {g}; } } break;
    case 2: case 3: t.u16_(1).off(coverage(r, s)); t.u16_(k); for (u32 i = 0; i < k; i++) { W q; u32 cn = (type == 2 ? (r.chance(1, 12) ? r.below(200) : r.below(4)) : 1 + r.below(3)); q.u16_(cn); auto& v = m.seq[c[i]]; for (u32 j = 0; j < cn; j++) { u32 g = r.below(n); q.u16_(g); if (type == 2 || j == 0) v.push_back(g); } t.off(q.b); } break;
    case 4: t.u16_(1).off(coverage(r, s)); t.u16_(k); for (u32 i = 0; i < k; i++) { T16 q; u32 cn = 1 + r.below(3); q.u16_(cn); for (u32 j = 0; j < cn; j++) { W l; u32 mm = 2 + r.below(3), lg = r.below(n); l.u16_(lg).u16_(mm); std::vector<u32> v{lg}; for (u32 x = 1; x < mm; x++) { u32 g = r.chance(1, 2) ? c[r.below(k)] : r.below(n); l.u16_(g); v.push_back(g); } q.off(l.b); m.lig[c[i]].push_back(v); } t.off(q.done()); } break;
    case 5: case 6: return context(r, 1 + r.below(3), n, nlook, type == 6);
    default: { u32 b = r.below(3), l = r.below(3); t.u16_(1).off(coverage(r, s)); auto covs = [&](u32 cn, std::vector<std::set<u32>>& v) { t.u16_(cn); for (u32 i = 0; i < cn; i++) { v.push_back(some(r, n, std::max(8u, n))); t.off(coverage(r, v.back())); } }; covs(b, m.back); covs(l, m.ahead); t.u16_(k); for (u32 i = 0; i < k; i++) { u32 g = r.below(n); t.u16_(g); m.seq[c[i]] = {g}; } } }
  return t.done();
}
Bytes gpos_sub(Rng& r, u32 type, u32 n, u32 nlook, Look& m) {
  T16 t; auto s = some(r, n, 10); u32 k = u32(s.size()); std::vector<u32> c(s.begin(), s.end()); u32 vf = r.pick({1u, 4u, 5u, 15u, 2u, 8u, 0x44u}); m.cov = s; m.vf1 = vf; m.known = type <= 2;
  switch (type) {
    case 1: if (r.chance(1, 2)) { t.u16_(1).off(coverage(r, s)); t.u16_(vf); auto v = vrec(r, t, vf); for (u32 g : c) m.single[g] = v; } else { t.u16_(2).off(coverage(r, s)); t.u16_(vf).u16_(k); for (u32 i = 0; i < k; i++) m.single[c[i]] = vrec(r, t, vf); } break;
    case 2: { u32 v2 = r.pick({0u, 0u, 1u, 4u, 15u}); if (v2) m.known = false; if (r.chance(1, 2)) { t.u16_(1).off(coverage(r, s)); t.u16_(vf).u16_(v2).u16_(k); for (u32 i = 0; i < k; i++) { auto p = some(r, n, std::max(6u, n / 2)); W q; q.u16_(u32(p.size())); for (u32 g : p) { q.u16_(g); m.pair[{c[i], g}] = vrec(r, q, vf); vrec(r, q, v2); } t.off(q.b); } } else { u32 c1 = 1 + r.below(3), c2 = 1 + r.below(3); t.u16_(2).off(coverage(r, s)); t.u16_(vf).u16_(v2); t.off(classdef(r, n, c1, &m.cd1)); t.off(classdef(r, n, c2, &m.cd2)); t.u16_(c1).u16_(c2); for (u32 i = 0; i < c1 * c2; i++) { m.cls[{i / c2, i % c2}] = vrec(r, t, vf); vrec(r, t, v2); } } break; }
    case 3: t.u16_(1).off(coverage(r, s)); t.u16_(k); for (u32 i = 0; i < k; i++) { if (r.chance(1, 4)) t.u16_(0); else t.off(anchor(r)); if (r.chance(1, 4)) t.u16_(0); else t.off(anchor(r)); } break;
    case 4: case 6: case 5: { auto b = some(r, n, 6); u32 cl = 1 + r.below(3); t.u16_(1).off(coverage(r, s)); t.off(coverage(r, b)); t.u16_(cl); T16 m; m.u16_(k); for (u32 i = 0; i < k; i++) { m.u16_(r.below(cl)); m.off(anchor(r)); } t.off(m.done()); T16 ba; ba.u16_(u32(b.size())); for (size_t i = 0; i < b.size(); i++) { if (type == 5) { T16 la; u32 cc = 1 + r.below(2); la.u16_(cc); for (u32 c = 0; c < cc * cl; c++) la.off(anchor(r)); ba.off(la.done()); } else for (u32 c = 0; c < cl; c++) ba.off(anchor(r)); } t.off(ba.done()); break; }
    default: return context(r, 1 + r.below(3), n, nlook, type == 8);
  }
  return t.done();
}
Bytes layout_table(Rng& r, Font& f, bool gsub) {
  u32 nlook = r.chance(1, 10) ? 30 + r.below(40) : 1 + r.below(5), n = f.nglyphs; T16 ll; ll.u16_(nlook); std::string ds; Layout& L = f.lay[gsub ? 0 : 1]; L.present = true;
  for (u32 i = 0; i < nlook; i++) { u32 type = gsub ? r.pick({1u, 1u, 2u, 3u, 4u, 4u, 5u, 6u, 8u}) : r.pick({1u, 2u, 2u, 3u, 4u, 5u, 6u, 7u, 8u}); bool ext = r.chance(1, 6); u32 ns = nlook > 10 || r.chance(1, 2) ? 1 : 1 + r.below(3), fl = r.pick({0u, 0u, 0u, 2u, 4u, 8u, 16u, 0x100u, 1u}); T16 l; Look lk; l.u16_(ext ? (gsub ? 7u : 9u) : type).u16_(fl).u16_(ns); for (u32 k = 0; k < ns; k++) { Look m; Bytes d = gsub ? gsub_sub(r, type, n, nlook, m) : gpos_sub(r, type, n, nlook, m); if (!k) lk = m; if (ext) { W e; e.u16_(1).u16_(type).u32_(8).raw(d); d = e.b; } l.off(d); } ll.off(l.done()); ds += strf("%u%s%s ", type, ext ? "e" : "", ns > 1 ? "+" : ""); lk.gsub = gsub; lk.type = type; if (ns > 1 || fl & 0xFFFE) lk.known = false; L.looks.push_back(lk); }
  u32 nf = 1 + r.below(3); T16 fl; fl.u16_(nf); static const char* tg[] = {"aalt", "calt", "ccmp", "clig", "kern", "liga", "mark", "mkmk", "rlig", "smcp"}; std::vector<std::string> ft; for (u32 i = 0; i < nf; i++) ft.push_back(tg[r.below(10)]); std::sort(ft.begin(), ft.end()); for (u32 i = 0; i < nf; i++) { W q; u32 c = 1 + r.below(nlook); q.u16_(0).u16_(c); Feat ff; ff.tag = tag(ft[i].c_str()); for (u32 k = 0; k < c; k++) { u32 x = r.below(nlook); q.u16_(x); ff.lookups.push_back(x); } L.feats.push_back(ff); fl.u32_(ff.tag); fl.off(q.b); }
  struct Lang { u32 req = 0xFFFF; std::vector<u32> v; }; auto lang = [&](Lang& o) { W q; u32 c = r.below(nf + 1); o.req = r.chance(1, 5) ? r.below(nf) : 0xFFFF; q.u16_(0).u16_(o.req).u16_(c); for (u32 k = 0; k < c; k++) { o.v.push_back(r.below(nf)); q.u16_(o.v.back()); } return q.b; };
  // Latin text uses the script 'latn' if there is one and 'DFLT' otherwise, and the default language of it.
  u32 nsc = 1 + r.below(2); T16 sl; sl.u16_(nsc); for (u32 i = 0; i < nsc; i++) { T16 sc; Lang d, o; L.has_lang = !r.chance(1, 6); if (!L.has_lang) sc.u16_(0); else sc.off(lang(d)); L.required = d.req; L.lang = d.v; u32 nl = r.below(2); sc.u16_(nl); for (u32 k = 0; k < nl; k++) { sc.u32_(tag("TRK ")); sc.off(lang(o)); } sl.u32_(tag(i == 0 ? "DFLT" : "latn")); sl.off(sc.done()); }
  T16 t; bool v11 = r.chance(1, 4); t.u32_(v11 ? 0x00010001 : 0x00010000).off(sl.done()); t.off(fl.done()); t.off(ll.done()); if (v11) t.u32_(0); f.desc += (gsub ? "GSUB[" : "GPOS[") + ds + "] "; Bytes o = t.done(); if (o.size() > 60000) { L.present = false; L.looks.clear(); } return o;
}
Bytes make_gdef(Rng& r, Font& f) { T16 t; u32 v = r.pick({0x00010000u, 0x00010000u, 0x00010002u, 0x00010003u}); t.u32_(v); if (r.chance(3, 4)) t.off(classdef(r, f.nglyphs, 5)); else t.u16_(0); t.u16_(0).u16_(0); if (r.chance(1, 2)) t.off(classdef(r, f.nglyphs, 4)); else t.u16_(0); if (v >= 0x00010002) t.u16_(0); if (v >= 0x00010003) t.u32_(0); return t.done(); }
Bytes make_name(Rng& r, Font& f) {
  static const char* fam[] = {"Sim Sans", "A", "Font With A Rather Long Family Name Indeed", "S\xC3\xADm \xC3\x9F" "ans", "\xE6\x96\x87\xE5\xAD\x97 Sim \xF0\x9D\x94\xB8", "Sim Bold"}, *sub[] = {"Regular", "Bold Italic", "X", "Bold"};
  u32 plat = r.pick({3u, 3u, 1u, 0u}); f.family = fam[plat == 1 ? r.below(3) : r.below(6)]; f.subfamily = sub[r.below(4)]; f.full = f.family + " " + f.subfamily; f.ps = "Sim-" + f.subfamily.substr(0, 1);
  struct R { u32 p, e, l, id; std::string s; bool bad = false; }; std::vector<R> v; auto add = [&](u32 id, const std::string& s) { v.push_back({plat, plat == 3 ? 1u : plat == 0 ? 3u : 0u, plat == 3 ? 0x409u : 0u, id, s}); };
  add(0, "copyright"); add(1, f.family); add(2, f.subfamily); add(4, f.full); add(6, f.ps); if (r.chance(1, 3)) { add(16, f.family = "Typo " + f.family); add(17, f.subfamily = r.pick({f.subfamily, std::string("Semibold Wide")})); if (r.chance(1, 2)) { add(21, "WWS family"); add(22, "WWS subfamily"); } }
  if (plat == 3 && r.chance(1, 2)) { // the same names for other platforms and languages, which are not preferred over American English
    size_t n = v.size(); for (size_t i = 0; i < n; i++) for (int k = 0; k < 3; k++) if (r.chance(1, 3)) { static const u32 o[][3] = {{3, 1, 0x809}, {3, 1, 0x407}, {3, 1, 0x411}, {1, 0, 0}, {1, 0, 2}, {0, 3, 0}, {3, 10, 0x409}, {1, 1, 11}}; auto& q = o[r.below(8)]; if (v[i].id == 2 && q[0] == 1) continue; v.push_back({q[0], q[1], q[2], v[i].id, "other " + std::to_string(i * 3 + size_t(k))}); }
    std::stable_sort(v.begin(), v.end(), [](const R& a, const R& b) { return std::tie(a.p, a.e, a.l, a.id) < std::tie(b.p, b.e, b.l, b.id); }); if (r.chance(1, 4)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(u32(i))]); }
  auto encode = [&](const R& x) { Bytes e; const u8* p = (const u8*)x.s.data(); const u8* end = p + x.s.size(); while (p < end) { u32 c = *p++; int more = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0; if (more) c &= 0x3Fu >> more; for (; more; more--) c = c << 6 | (*p++ & 0x3F); auto u = [&](u32 z) { e.push_back(u8(z >> 8)); e.push_back(u8(z)); }; if (x.p == 1) e.push_back(u8(c)); else if (c < 0x10000) u(c); else { c -= 0x10000; u(0xD800 + (c >> 10)); u(0xDC00 + (c & 0x3FF)); } } return e; };
  bool share = r.chance(1, 2), pad = r.chance(1, 6); u32 tags = r.chance(1, 4) ? 1 + r.below(3) : 0, fmt = tags ? 1 : 0; W w, str; u32 so = u32(6 + v.size() * 12 + (fmt ? 2 + tags * 4 : 0)); if (r.chance(1, 5)) { str.u32_(0x21212121); }
  w.u16_(fmt).u16_(u32(v.size())).u16_(so); for (auto& x : v) { Bytes e = encode(x); if (pad && x.p != 1) { e.push_back(0); e.push_back(0); } auto at = share ? std::search(str.b.begin(), str.b.end(), e.begin(), e.end()) : str.b.end(); u32 off = u32(at - str.b.begin()); if (at == str.b.end()) str.raw(e); w.u16_(x.p).u16_(x.e).u16_(x.l).u16_(x.id).u16_(u32(e.size())).u16_(off); }
  if (fmt) { w.u16_(tags); for (u32 i = 0; i < tags; i++) { w.u16_(4).u16_(u32(str.n())); str.u32_(0x00640065); } } w.raw(str.b); if (f.family.size() >= f.subfamily.size() && f.family.compare(f.family.size() - f.subfamily.size(), std::string::npos, f.subfamily) == 0) f.subfamily.clear(); return w.b;
}
}
// Type 2 charstrings (Adobe technical note 5177), y grows downwards in the result.
static double g_transient[32];
static void cff_exec(const Font& f, const Bytes& p, std::vector<double>& s, double& x, double& y, bool& open, u32& hints, bool& end, BLPath& out) {
  double X1, Y1, X2, Y2; auto L = [&](double dx, double dy) { x += dx; y += dy; out.line_to(x, -y); }; auto C = [&](double a, double b, double c, double d, double e, double g) { X1 = x + a; Y1 = y + b; X2 = X1 + c; Y2 = Y1 + d; x = X2 + e; y = Y2 + g; out.cubic_to(X1, -Y1, X2, -Y2, x, -y); };
  auto M = [&](double dx, double dy) { if (open) out.close(); open = true; x += dx; y += dy; out.move_to(x, -y); s.clear(); };
  for (size_t i = 0; i < p.size() && !end;) { u32 b = p[i++]; if (b >= 32 || b == 28) { int v; if (b == 28) { v = int16_t(p[i] << 8 | p[i + 1]); i += 2; s.push_back(v); } else if (b < 247) s.push_back(int(b) - 139); else if (b < 251) s.push_back(int(b - 247) * 256 + p[i++] + 108); else if (b < 255) s.push_back(-int(b - 251) * 256 - p[i++] - 108); else { s.push_back(int32_t(get32(p, i)) / 65536.0); i += 4; } continue; }
    size_t n = s.size(), k = 0; switch (b) {
      case 1: case 3: case 18: case 23: hints += u32(n / 2); break; case 19: case 20: hints += u32(n / 2); i += (hints + 7) / 8; break;
      case 21: M(s[n - 2], s[n - 1]); break; case 22: M(s[n - 1], 0); break; case 4: M(0, s[n - 1]); break;
      case 5: for (; k + 2 <= n; k += 2) L(s[k], s[k + 1]); break; case 6: case 7: for (bool h = b == 6; k < n; k++, h = !h) L(h ? s[k] : 0, h ? 0 : s[k]); break;
      case 8: case 24: for (; k + 6 <= n; k += 6) C(s[k], s[k + 1], s[k + 2], s[k + 3], s[k + 4], s[k + 5]); if (b == 24) L(s[k], s[k + 1]); break;
      case 25: for (; k + 6 < n; k += 2) L(s[k], s[k + 1]); C(s[k], s[k + 1], s[k + 2], s[k + 3], s[k + 4], s[k + 5]); break;
      case 26: case 27: { double o = n & 1 ? s[k++] : 0; for (; k + 4 <= n; k += 4, o = 0) if (b == 26) C(o, s[k], s[k + 1], s[k + 2], 0, s[k + 3]); else C(s[k], o, s[k + 1], s[k + 2], s[k + 3], 0); break; }
      case 30: case 31: { bool h = b == 31; for (; k + 4 <= n; k += 4, h = !h) { double l = n - k == 5 ? s[k + 4] : 0; if (h) C(s[k], 0, s[k + 1], s[k + 2], l, s[k + 3]); else C(0, s[k], s[k + 1], s[k + 2], s[k + 3], l); } break; }
      case 12: { auto pop = [&] { double v = s.back(); s.pop_back(); return v; }; auto A = [&](auto fn) { double b = pop(), a = pop(); s.push_back(fn(a, b)); }; bool path = false;
        switch (p[i]) {
          case 3: A([](double a, double b) { return double(a != 0 && b != 0); }); break; case 4: A([](double a, double b) { return double(a != 0 || b != 0); }); break; case 5: s.back() = s.back() == 0; break;
          case 9: s.back() = fabs(s.back()); break; case 10: A([](double a, double b) { return a + b; }); break; case 11: A([](double a, double b) { return a - b; }); break; case 12: A([](double a, double b) { return a / b; }); break; case 24: A([](double a, double b) { return a * b; }); break;
          case 14: s.back() = -s.back(); break; case 15: A([](double a, double b) { return double(a == b); }); break; case 18: pop(); break; case 26: s.back() = sqrt(s.back()); break; case 27: s.push_back(s.back()); break; case 28: std::swap(s[n - 1], s[n - 2]); break;
          case 20: { int at = int(pop()); g_transient[at] = pop(); break; } case 21: s.back() = g_transient[int(s.back())]; break;
          case 22: { double v2 = pop(), v1 = pop(), s2 = pop(), s1 = pop(); s.push_back(v1 <= v2 ? s1 : s2); break; }
          case 29: { int at = int(pop()); s.push_back(s[s.size() - 1 - size_t(at < 0 ? 0 : at)]); break; }
          case 30: { int j = int(pop()), m = int(pop()); std::vector<double> t(s.end() - m, s.end()); for (int q = 0; q < m; q++) s[s.size() - size_t(m) + size_t(((q + j) % m + m) % m)] = t[size_t(q)]; break; }
          default: path = true; }
        if (!path) { i++; continue; }
        switch (p[i++]) {
        case 35: C(s[0], s[1], s[2], s[3], s[4], s[5]); C(s[6], s[7], s[8], s[9], s[10], s[11]); break; case 34: C(s[0], 0, s[1], s[2], s[3], 0); C(s[4], 0, s[5], -s[2], s[6], 0); break;
        case 36: C(s[0], s[1], s[2], s[3], s[4], 0); C(s[5], 0, s[6], s[7], s[8], -(s[1] + s[3] + s[7])); break;
        case 37: { double dx = s[0] + s[2] + s[4] + s[6] + s[8], dy = s[1] + s[3] + s[5] + s[7] + s[9]; bool h = fabs(dx) > fabs(dy); C(s[0], s[1], s[2], s[3], s[4], s[5]); C(s[6], s[7], s[8], s[9], h ? s[10] : -dx, h ? -dy : s[10]); break; } } break; }
      case 10: case 29: { const auto& S = b == 10 ? f.lsubr : f.gsubr; u32 id = u32(int(s.back()) + 107); s.pop_back(); cff_exec(f, S[id], s, x, y, open, hints, end, out); continue; }
      case 11: return; case 14: end = true; break; }
    s.clear(); }
}
void cff_outline(const Font& f, u32 g, BLPath& out) { std::vector<double> s; memset(g_transient, 0, sizeof g_transient); double x = 0, y = 0; bool open = false, end = false; u32 hints = 0; cff_exec(f, f.cs[g], s, x, y, open, hints, end, out); if (open) out.close(); }
void serialize(Rng& r, Font& f, bool ttc) {
  std::vector<Table*> order; for (auto& t : f.tables) order.push_back(&t); std::vector<Table*> phys = order; for (size_t i = phys.size(); i > 1; i--) std::swap(phys[i - 1], phys[r.below(u32(i))]); std::sort(order.begin(), order.end(), [](Table* a, Table* b) { return a->tag < b->tag; });
  u32 nf = ttc ? 2 : 1; W w; if (ttc) { w.u32_(tag("ttcf")).u32_(0x00010000).u32_(nf); for (u32 i = 0; i < nf; i++) w.u32_(0); } size_t dirs[2]; for (u32 i = 0; i < nf; i++) { if (ttc) w.set32(12 + i * 4, u32(w.n())); dirs[i] = w.n(); w.u32_(f.version).u16_(u32(order.size())).u16_(0).u16_(0).u16_(0); for (Table* t : order) w.u32_(t->tag).u32_(0).u32_(0).u32_(0); }
  for (Table* t : phys) { while (w.n() & 3) w.u8_(0); u32 at = u32(w.n()); w.raw(t->data); for (u32 i = 0; i < nf; i++) for (size_t k = 0; k < order.size(); k++) if (order[k] == t) { w.set32(dirs[i] + 12 + k * 16 + 8, at); w.set32(dirs[i] + 12 + k * 16 + 12, u32(t->data.size())); } }
  f.data = w.b; f.face_count = nf; f.face_index = ttc ? r.below(nf) : 0;
}
Font random_font(Rng& r) {
  Font f; f.exact = true; f.nglyphs = 2 + r.below(r.pick({4u, 30u, 120u})); f.upem = r.pick({1000u, 2048u, 1024u, 16u, 16384u}); u32 nlong = 1 + r.below(f.nglyphs);
  { W h; h.u32_(0x00010000).u32_(0x00010000).u32_(0).u32_(0x5F0F3CF5).u16_(3).u16_(f.upem).u32_(0).u32_(0).u32_(0).u32_(0).u16_(u32(-100)).u16_(u32(-200)).u16_(1000).u16_(900).u16_(0).u16_(8).u16_(2).u16_(0).u16_(0); f.tables.push_back({tag("head"), h.b}); }
  { W h; f.cff = r.chance(1, 3); if (f.cff) h.u32_(0x00005000).u16_(f.nglyphs); else { h.u32_(0x00010000).u16_(f.nglyphs); for (int i = 0; i < 13; i++) h.u16_(2); } f.tables.push_back({tag("maxp"), h.b}); }
  { W h; h.u32_(0x00010000).u16_(800).u16_(u32(-200)).u16_(90).u16_(1000).u16_(0).u16_(0).u16_(900).u16_(1).u16_(0).u16_(0); for (int i = 0; i < 4; i++) h.u16_(0); h.u16_(0).u16_(nlong); f.tables.push_back({tag("hhea"), h.b}); }
  { W h; u32 last = 0; for (u32 i = 0; i < f.nglyphs; i++) { if (i < nlong) { last = r.below(1500); h.u16_(last).u16_(u32(r.range(-50, 50))); } else h.u16_(u32(r.range(-50, 50))); f.adv.push_back(u16(last)); } f.tables.push_back({tag("hmtx"), h.b}); }
  f.tables.push_back({tag("cmap"), make_cmap(r, f)}); f.tables.push_back({tag("name"), make_name(r, f)});
  if (f.cff) { f.version = tag("OTTO"); f.tables.push_back({tag("CFF "), make_cff(r, f)}); } else { Bytes g, l; make_glyf(r, f, g, l); f.tables.push_back({tag("glyf"), g}); f.tables.push_back({tag("loca"), l}); }
  if (r.chance(2, 3)) { W o; u32 v = r.below(5); o.u16_(v).u16_(500).u16_(r.pick({400u, 700u, 4u})).u16_(5).u16_(0); for (int i = 0; i < 11; i++) o.u16_(u32(r.range(0, 300))); for (int i = 0; i < 10; i++) o.u8_(r.below(5)); for (int i = 0; i < 4; i++) o.u32_(u32(r.next())); o.u32_(0).u16_(r.pick({0u, 1u, 128u, 512u})).u16_(0x20).u16_(0xFFFF).u16_(700).u16_(u32(-300)).u16_(50).u16_(900).u16_(300); if (v >= 1) o.u32_(1).u32_(0); if (v >= 2) o.u16_(500).u16_(700).u16_(0).u16_(32).u16_(2); f.tables.push_back({tag("OS/2"), o.b}); }
  if (r.chance(2, 3)) { W p; p.u32_(0x00030000).u32_(0).u16_(u32(-80)).u16_(50).u32_(0).u32_(0).u32_(0).u32_(0).u32_(0); f.tables.push_back({tag("post"), p.b}); }
  bool lay = r.chance(1, 2); if (!lay && r.chance(2, 3)) f.tables.push_back({tag("kern"), make_kern(r, f)});
  if (lay) { f.layout = true; if (r.chance(2, 3)) f.tables.push_back({tag("GDEF"), make_gdef(r, f)}); u32 w = 1 + r.below(3); if (w & 1) f.tables.push_back({tag("GSUB"), layout_table(r, f, true)}); if (w & 2) f.tables.push_back({tag("GPOS"), layout_table(r, f, false)}); }
  f.desc = strf("font(%u glyphs, upem %u, %s) ", f.nglyphs, f.upem, f.cff ? "cff" : "glyf") + f.desc; for (auto& kv : f.cmap) f.chars.push_back(kv.first); serialize(r, f, r.chance(1, 8)); return f;
}
Font real_font(Rng& r) {
  struct S { const u8* a; const u8* b; const char* n; }; S all[] = {{fg_abee, fg_abee_end, "ABeeZee"}, {fg_orbi, fg_orbi_end, "Orbitron"}, {fg_cfft, fg_cfft_end, "CFFTest"}, {fg_glyft, fg_glyft_end, "glyfTest"}, {fg_fa, fg_fa_end, "FontAwesome"}, {fg_sans, fg_sans_end, "OpenSans"}};
  const S& s = all[r.below(6)]; Bytes b(s.a, s.b); Font f; f.desc = s.n; f.version = get32(b, 0); f.cff = f.version == tag("OTTO"); u32 n = get16(b, 4);
  static const char* drop[] = {"fpgm", "prep", "cvt ", "gasp", "hdmx", "LTSH", "DSIG", "FFTM", "VDMX", "EPAR"};
  for (u32 i = 0; i < n; i++) { u32 t = get32(b, 12 + i * 16), o = get32(b, 12 + i * 16 + 8), l = get32(b, 12 + i * 16 + 12); bool d = false; for (auto* x : drop) d |= t == tag(x); if (!d) f.tables.push_back({t, Bytes(b.begin() + o, b.begin() + o + l)}); if (t == tag("head")) f.upem = get16(b, o + 18); if (t == tag("maxp")) f.nglyphs = get16(b, o + 4); if (t == tag("GSUB") || t == tag("GPOS")) f.layout = true; }
  for (u32 c = 0x20; c < 0x7F; c++) f.chars.push_back(c); for (u32 c : {0xA0u, 0xE9u, 0x131u, 0x2013u, 0x20ACu, 0xFB01u, 0xF000u, 0xF100u, 0x391u, 0x414u}) f.chars.push_back(c); serialize(r, f, false); return f;
}
void damage(Rng& r, Font& f, const Font& other, std::string* ds) {
  u32 n = 1 + r.below(r.pick({1u, 1u, 3u, 8u})); static const char* hot[] = {"cmap", "glyf", "loca", "CFF ", "kern", "GSUB", "GPOS", "GDEF", "hmtx", "name", "hhea", "maxp", "head", "OS/2"};
  std::vector<size_t> idx; u32 want = tag(hot[r.below(14)]); for (u32 i = 0; i < n; i++) { size_t k = r.below(u32(f.tables.size())); if (r.chance(4, 5)) for (size_t j = 0; j < f.tables.size(); j++) if (f.tables[j].tag == want) k = j; idx.push_back(k); if (r.chance(1, 4)) want = tag(hot[r.below(14)]); }
  for (size_t k : idx) { Bytes& b = f.tables[k].data; u32 tg = f.tables[k].tag; if (b.empty()) continue; *ds += strf("%c%c%c%c:", tg >> 24, tg >> 16 & 255, tg >> 8 & 255, tg & 255); size_t head = std::min<size_t>(b.size(), r.pick({16u, 60u, 300u})); size_t at = r.chance(2, 3) ? r.below(u32(head)) : r.below(u32(b.size()));
    switch (r.below(10)) {
      case 0: b[at] ^= u8(1u << r.below(8)); *ds += strf("bit@%zu ", at); break; case 1: b[at] = u8(r.next()); *ds += strf("byte@%zu ", at); break;
      case 2: case 3: case 4: { at &= ~size_t(1); u32 sz = u32(b.size()); u32 v = r.pick({0u, 1u, 2u, 0xFFFFu, 0xFFFEu, 0x7FFFu, 0x8000u, sz & 0xFFFF, (sz - 1) & 0xFFFF, (sz - 2) & 0xFFFF, (sz - 4) & 0xFFFF, u32(r.next()) & 0xFFFF, r.below(64), f.nglyphs, f.nglyphs - 1, r.below(sz) & 0xFFFF}); if (at + 1 < b.size()) put16(b, at, v); *ds += strf("u16@%zu=%x ", at, v); break; }
      case 5: { at &= ~size_t(1); u32 v = r.pick({0u, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x10000u, u32(b.size()), u32(b.size()) - 1, u32(r.next()), 0xFFFFu}); for (u32 j = 0; j < 4 && at + j < b.size(); j++) b[at + j] = u8(v >> (8 * (3 - j))); *ds += strf("u32@%zu=%x ", at, v); break; }
      case 6: case 7: { size_t c = r.chance(1, 3) ? at : b.size() - r.below(u32(std::min<size_t>(b.size(), 24))); b.resize(c); *ds += strf("cut=%zu ", c); break; }
      case 8: { const Table* o = nullptr; for (auto& t : other.tables) if (t.tag == tg) o = &t; if (o) { b = o->data; *ds += "foreign "; } else { b.clear(); *ds += "gone "; } break; }
      default: { size_t m = 1 + r.below(24); for (size_t j = at; j < at + m && j < b.size(); j++) b[j] = u8(r.next()); *ds += strf("noise@%zu ", at); } } }
  for (size_t k = 0; k < f.tables.size();) if (f.tables[k].data.empty()) f.tables.erase(f.tables.begin() + long(k)); else k++;
  // The damaged table becomes the last one of the file in most cases, so that everything behind it is out of bounds.
  if (!f.tables.empty()) { u32 t = f.tables[std::min(idx.back(), f.tables.size() - 1)].tag; bool ttc = f.face_count > 1; for (int k = 0; k < 40; k++) { serialize(r, f, ttc); bool last = true; size_t end = 0; u32 lt = 0; Bytes& b = f.data; size_t dir = ttc ? get32(b, 12) : 0; u32 nt = get16(b, dir + 4); for (u32 i = 0; i < nt; i++) { size_t o = get32(b, dir + 12 + i * 16 + 8); if (o >= end) { end = o; lt = get32(b, dir + 12 + i * 16); } } last = lt == t; if (last || r.chance(1, 20)) break; } }
  if (r.chance(1, 8) && !f.data.empty()) { Bytes& b = f.data; size_t at = r.below(u32(std::min<size_t>(b.size(), 200))); if (r.chance(1, 2)) { b[at] = u8(r.next()); *ds += strf("file-byte@%zu ", at); } else if (at + 4 < b.size()) { u32 v = r.pick({0xFFFFFFFFu, 0x80000000u, u32(b.size()), u32(b.size()) - 1, u32(b.size()) - 12, 0u}); for (u32 j = 0; j < 4; j++) b[at + j] = u8(v >> (8 * (3 - j))); *ds += strf("file-u32@%zu=%x ", at, v); } }
  if (r.chance(1, 20) && f.data.size() > 4) { f.data.resize(r.below(u32(f.data.size()))); *ds += strf("file-cut=%zu ", f.data.size()); }
}
// --- what lookups do (subtables of one lookup, no flags)
static void add_value(GlyphPos& p, u32 vf, const std::vector<int>& v) { size_t i = 0; if (vf & 1) p.px += v[i++]; if (vf & 2) p.py += v[i++]; if (vf & 4) p.ax += v[i++]; if (vf & 8) p.ay += v[i++]; }
void apply_lookup(const Look& l, std::vector<u32>& g, std::vector<u32>& cl) {
  if (l.type == 8) { for (size_t i = g.size(); i-- > 0;) { if (!l.cov.count(g[i]) || i < l.back.size() || g.size() - 1 - i < l.ahead.size()) continue; bool ok = true; for (size_t k = 0; k < l.back.size(); k++) ok = ok && l.back[k].count(g[i - 1 - k]); for (size_t k = 0; k < l.ahead.size(); k++) ok = ok && l.ahead[k].count(g[i + 1 + k]); if (ok) g[i] = l.seq.at(g[i])[0]; } return; }
  std::vector<u32> og, oc;
  for (size_t i = 0; i < g.size();) {
    if (!l.cov.count(g[i])) { og.push_back(g[i]); oc.push_back(cl[i]); i++; continue; }
    if (l.type == 4) { const std::vector<u32>* m = nullptr; for (auto& v : l.lig.at(g[i])) { bool ok = i + v.size() <= g.size(); for (size_t k = 1; ok && k < v.size(); k++) ok = g[i + k] == v[k]; if (ok) { m = &v; break; } } oc.push_back(cl[i]); if (m) { og.push_back((*m)[0]); i += m->size(); } else og.push_back(g[i++]); continue; }
    for (u32 x : l.seq.at(g[i])) { og.push_back(x); oc.push_back(cl[i]); } i++;
  }
  g = og; cl = oc;
}
void apply_lookup(const Look& l, const std::vector<u32>& g, std::vector<GlyphPos>& p) {
  for (size_t i = 0; i < g.size(); i++) { if (!l.cov.count(g[i])) continue; if (l.type == 1) { add_value(p[i], l.vf1, l.single.at(g[i])); continue; } if (i + 1 == g.size()) continue;
    if (l.cls.empty()) { auto it = l.pair.find({g[i], g[i + 1]}); if (it != l.pair.end()) add_value(p[i], l.vf1, it->second); } else { auto c = [](const std::map<u32, u32>& m, u32 x) { auto it = m.find(x); return it == m.end() ? 0u : it->second; }; add_value(p[i], l.vf1, l.cls.at({c(l.cd1, g[i]), c(l.cd2, g[i + 1])})); } }
}
std::set<u32> plan_of(const Layout& l, const std::map<u32, u32>& st) { std::set<u32> o; if (!l.present || !l.has_lang) return o; auto add = [&](u32 i) { if (i >= l.feats.size()) return; auto it = st.find(l.feats[i].tag); if (it != st.end() && it->second) o.insert(l.feats[i].lookups.begin(), l.feats[i].lookups.end()); }; add(l.required); for (u32 i : l.lang) add(i); return o; }
}
