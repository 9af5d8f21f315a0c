#include "objs.h"
#include <cmath>
#include <atomic>
namespace objs {
using namespace rops;
static std::atomic<u32> ext_made{0}, ext_gone{0}, ext_twice{0};
struct ExtBlock { std::atomic<u32> gone{0}; void* p; };
static void ext_destroy(void* impl, void* data, void* user) noexcept { ExtBlock* b = (ExtBlock*)user; if (b->gone.fetch_add(1)) { ext_twice.fetch_add(1); return; } ext_gone.fetch_add(1); sim::user_free(b->p); }
static ExtBlock* ext_new(size_t n) { ExtBlock* b = new ExtBlock; b->p = sim::user_alloc(n); ext_made.fetch_add(1); return b; }
Ext ext_counts() { return {ext_made.load(), ext_gone.load()}; }
u32 ext_double() { return ext_twice.load(); }
void ext_reset() { ext_made = 0; ext_gone = 0; ext_twice = 0; }

struct H { u64 h = 0x1234567; void u(u64 v) { h = mix2(h, v); } void d(double v) { u64 b; memcpy(&b, &v, 8); if (v != v) b = 0x7FF8000000000000ull; u(b); } void f(float v) { d(double(v)); } void b(const void* p, size_t n) { u(n); u(hash_bytes(p, n)); } };
static BLTag rtag(Rng& r) { static const u32 t[] = {BL_MAKE_TAG('k','e','r','n'), BL_MAKE_TAG('l','i','g','a'), BL_MAKE_TAG('s','m','c','p'), BL_MAKE_TAG('s','s','0','1'), BL_MAKE_TAG('w','g','h','t'), BL_MAKE_TAG('w','d','t','h'), BL_MAKE_TAG('d','l','i','g'), BL_MAKE_TAG('c','a','l','t'), BL_MAKE_TAG('a','a','a','a'), BL_MAKE_TAG('z','z','z','z')};
  if (r.chance(1, 2)) return t[r.below(10)]; u32 v = 'Z'; for (int i = 0; i < 3; i++) v = v << 8 | u32('a' + r.below(26)); return v; }
// most features accept only 0 and 1 while the settings are stored inline, but any value otherwise
static u32 fval(Rng& r, BLTag t) { return r.below(2); }
static size_t rsize(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return r.below(8); case 3: return r.below(40); case 4: return r.below(300); default: return r.chance(1, 8) ? r.below(5000) : r.below(20); } }
static u32 rbit(Rng& r) { switch (r.below(6)) { case 0: return r.below(40); case 1: return r.below(600); case 2: return r.below(20000); case 3: return r.below(0x7FFFFFFFu); case 4: return 0xFFFFFFFFu - r.below(70); default: return r.below(128) * 64; } }

template<typename T> struct Ops;      // make, deep, digest, reads, prep
template<typename T> struct O : Obj {
  T v;
  const char* kind() const override { return Ops<T>::name(); }
  Ptr weak() const override { auto* o = new O<T>(); o->v.assign(v); return Ptr(o); }
  Ptr deep() const override { auto* o = new O<T>(); if (!Ops<T>::deep(o->v, v)) { delete o; return nullptr; } return Ptr(o); }
  Ptr fresh() const override { return Ptr(new O<T>()); }
  u64 digest() const override { return Ops<T>::digest(v); }
  u64 reads(u64 s) const override { Rng r(s); return Ops<T>::reads(v, r); }
  Op prep(u64 s, std::string* name) override { Rng r(s); std::string n; auto fn = Ops<T>::prep(v, r, n); if (name) *name = std::string(kind()) + "." + n; return [fn](Obj& o) { return fn(static_cast<O<T>&>(o).v); }; }
  void assign(const Obj& o) override { v.assign(static_cast<const O<T>&>(o).v); }
  void move_from(Obj& o) override { v.assign(std::move(static_cast<O<T>&>(o).v)); }
  void reset() override { v.reset(); }
};
#define FN(T) std::function<BLResult(T&)>

// ---- arrays -------------------------------------------------------------------------------------------
template<typename E> struct El;
template<> struct El<uint8_t> { static const char* n() { return "array<u8>"; } static uint8_t r(Rng& r) { return uint8_t(r.next()); } static void h(H& h, uint8_t v) { h.u(v); } static uint8_t deep(uint8_t v) { return v; } };
template<> struct El<uint16_t> { static const char* n() { return "array<u16>"; } static uint16_t r(Rng& r) { return uint16_t(r.next()); } static void h(H& h, uint16_t v) { h.u(v); } static uint16_t deep(uint16_t v) { return v; } };
template<> struct El<uint64_t> { static const char* n() { return "array<u64>"; } static uint64_t r(Rng& r) { return r.next(); } static void h(H& h, uint64_t v) { h.u(v); } static uint64_t deep(uint64_t v) { return v; } };
template<> struct El<double> { static const char* n() { return "array<double>"; } static double r(Rng& r) { return r.real(-9, 9); } static void h(H& h, double v) { h.d(v); } static double deep(double v) { return v; } };
template<> struct El<BLRgba32> { static const char* n() { return "array<rgba32>"; } static BLRgba32 r(Rng& r) { return BLRgba32(u32(r.next())); } static void h(H& h, BLRgba32 v) { h.u(v.value); } static BLRgba32 deep(BLRgba32 v) { return v; } };
template<> struct El<BLString> { static const char* n() { return "array<string>"; }
  static BLString r(Rng& r) { BLString s; size_t n = r.below(40); char c = char('a' + r.below(26)); s.assign(c, n); return s; } static void h(H& h, const BLString& v) { h.b(v.data(), v.size()); } static BLString deep(const BLString& v) { BLString s; s.append(v.data(), v.size()); return s; } };
static BLString rstr(Rng& r);
template<typename E> struct Ops<BLArray<E>> {
  typedef BLArray<E> A; static const char* name() { return El<E>::n(); }
  static bool deep(A& d, const A& s) { if (d.reserve(s.size())) return false; for (size_t i = 0; i < s.size(); i++) if (d.append(El<E>::deep(s.data()[i]))) return false; return true; }
  static u64 digest(const A& a) { H h; h.u(a.size()); for (size_t i = 0; i < a.size(); i++) El<E>::h(h, a.data()[i]); if (a.capacity() < a.size()) h.u(99); h.u(a.is_empty()); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; if (a.size()) { const E& x = a[r.below(u32(a.size()))]; h.u(a.index_of(x)); h.u(a.last_index_of(x)); } A b = a; h.u(b.equals(a)); return h.h; }
  static BLResult write(A& a, BLResult e, E* p, const std::vector<E>& w, size_t n) { if (e) return e; for (size_t i = 0; i < n; i++) new (&p[i]) E(w[i % w.size()]); return e; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    size_t sz = a.size(), at = sz ? r.below(u32(sz) + 1) : 0, at2 = sz ? r.below(u32(sz) + 1) : 0, k = rsize(r); BLRange rg{std::min(at, at2), std::max(at, at2)}; if (r.chance(1, 10)) rg.end = SIZE_MAX;
    E v = El<E>::r(r); std::vector<E> w; for (size_t i = 0; i < k; i++) w.push_back(El<E>::r(r)); A o; for (size_t i = 0; i < k; i++) o.append(w[i]);
    switch (r.below(26)) {
      case 0: n = "append"; return [=](A& a) { return a.append(v); };
      case 1: n = "prepend"; return [=](A& a) { return a.prepend(v); };
      case 2: n = "insert"; return [=](A& a) { return a.insert(at, v); };
      case 3: n = "append_data"; return [=](A& a) { return a.append_data(w.data(), k); };
      case 4: n = "prepend_data"; return [=](A& a) { return a.prepend_data(w.data(), k); };
      case 5: n = "insert_data"; return [=](A& a) { return a.insert_data(at, w.data(), k); };
      case 6: n = "replace_data"; return [=](A& a) { return a.replace_data(rg, w.data(), k); };
      case 7: n = "assign_data"; return [=](A& a) { return a.assign_data(w.data(), k); };
      case 8: n = "resize"; return [=](A& a) { return a.resize(k, v); };
      case 9: n = "reserve"; return [=](A& a) { return a.reserve(k * 3); };
      case 10: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 11: n = "truncate"; return [=](A& a) { return a.truncate(at); };
      case 12: n = "remove_range"; return [=](A& a) { return a.remove(rg); };
      case 13: if (!sz) { n = "clear"; return [](A& a) { return a.clear(); }; } n = "remove"; return [=](A& a) { return a.remove(at % a.size()); };
      case 14: n = "clear"; return [](A& a) { return a.clear(); };
      case 15: if (!sz) { n = "append"; return [=](A& a) { return a.append(v); }; } n = "replace"; return [=](A& a) { return a.replace(at % a.size(), v); };
      case 16: n = "assign_deep"; return [=](A& a) { return a.assign_deep(o); };
      case 17: n = "assign"; return [=](A& a) { return a.assign(o); };
      case 18: n = "make_mutable"; return [=](A& a) { E* p; BLResult e = a.make_mutable(&p); if (!e && a.size()) p[at % a.size()] = v; return e; };
      case 19: if (k) { BLModifyOp op = BLModifyOp(r.below(4)); n = strf("modify_op%u", op); return [=](A& a) { E* p; BLResult e = a.modify_op(op, k, &p); return write(a, e, p, w, k); }; } n = "clear"; return [](A& a) { return a.clear(); };
      case 20: if (k) { n = "insert_op"; return [=](A& a) { E* p; BLResult e = a.insert_op(at, k, &p); return write(a, e, p, w, k); }; } n = "clear"; return [](A& a) { return a.clear(); };
      case 21: n = "append_self"; return [=](A& a) { return a.append_data(a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 22: n = "insert_self"; return [=](A& a) { return a.insert_data(at, a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 23: n = "assign_self"; return [=](A& a) { return a.assign_data(a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 24: if (!sz) { n = "append"; return [=](A& a) { return a.append(v); }; } n = "append_own"; return [=](A& a) { return a.append(a.data()[at % a.size()]); };
      default: n = "replace_self"; return [=](A& a) { return a.replace_data(rg, a.data(), a.size() / 2); };
    }
  }
  static void make(A& a, Rng& r) { size_t n = rsize(r); for (size_t i = 0; i < n; i++) a.append(El<E>::r(r)); if (!std::is_same<E, BLString>::value && r.chance(1, 4)) { ExtBlock* b = ext_new(std::max<size_t>(n, 1) * sizeof(E)); E tmp = El<E>::r(r); for (size_t i = 0; i < n; i++) { E x = El<E>::r(r); memcpy((char*)b->p + i * sizeof(E), (void*)&x, sizeof(E)); }
    BLResult e = n ? a.assign_external_data((E*)b->p, n, n, r.chance(1, 2) ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, ext_destroy, b) : BLResult(1); if (e) ext_destroy(nullptr, nullptr, b); } }
};
// ---- string -------------------------------------------------------------------------------------------
static BLString rstr(Rng& r) { BLString s; size_t n = rsize(r); for (size_t i = 0; i < n; i++) s.append(char('a' + r.below(26))); return s; }
template<> struct Ops<BLString> {
  typedef BLString A; static const char* name() { return "string"; }
  static bool deep(A& d, const A& s) { return d.append(s.data(), s.size()) == BL_SUCCESS; }
  static u64 digest(const A& a) { H h; h.b(a.data(), a.size()); h.u(u64(a.data()[a.size()])); if (a.capacity() < a.size()) h.u(99); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; h.u(a.index_of('c')); h.u(a.last_index_of('c')); A b = a; h.u(b.equals(a)); h.u(u64(b.compare(a))); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    size_t sz = a.size(), at = sz ? r.below(u32(sz) + 1) : 0, at2 = sz ? r.below(u32(sz) + 1) : 0, k = rsize(r); BLRange rg{std::min(at, at2), std::max(at, at2)}; if (r.chance(1, 10)) rg.end = SIZE_MAX; char c = char('A' + r.below(26)); BLString o = rstr(r);
    switch (r.below(22)) {
      case 0: n = "append_c"; return [=](A& a) { return a.append(c, k); };
      case 1: n = "append"; return [=](A& a) { return a.append(o); };
      case 2: n = "append_self"; return [=](A& a) { return a.append(a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 3: n = "prepend"; return [=](A& a) { return a.prepend(o); };
      case 4: n = "prepend_c"; return [=](A& a) { return a.prepend(c, k); };
      case 5: n = "insert"; return [=](A& a) { return a.insert(at, o); };
      case 6: n = "insert_c"; return [=](A& a) { return a.insert(at, c, k); };
      case 7: n = "insert_self"; return [=](A& a) { return a.insert(at, a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 8: n = "remove"; return [=](A& a) { return a.remove(rg); };
      case 9: n = "truncate"; return [=](A& a) { return a.truncate(at); };
      case 10: n = "resize"; return [=](A& a) { return a.resize(k, c); };
      case 11: n = "reserve"; return [=](A& a) { return a.reserve(k * 2); };
      case 12: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 13: n = "assign_c"; return [=](A& a) { return a.assign(c, k); };
      case 14: n = "assign_deep"; return [=](A& a) { return a.assign_deep(o); };
      case 15: n = "assign_data"; return [=](A& a) { return a.assign(o.data(), o.size()); };
      case 16: n = "assign_self"; return [=](A& a) { return a.assign(a.data() + rg.start, std::min(rg.end, a.size()) - rg.start); };
      case 17: n = "clear"; return [=](A& a) { return a.clear(); };
      case 18: n = "make_mutable"; return [=](A& a) { char* p; BLResult e = a.make_mutable(&p); if (!e && a.size()) p[at % a.size()] = c; return e; };
      case 19: n = "assign_format"; return [=](A& a) { return a.assign_format("%s|%d|%s", o.data(), int(k), o.data()); };
      case 20: n = "append_format"; return [=](A& a) { return a.append_format("%s-%zu-%c", o.data(), k, c); };
      default: if (!k) { n = "clear"; return [=](A& a) { return a.clear(); }; } BLModifyOp op = BLModifyOp(r.below(4)); n = strf("modify_op%u", op); return [=](A& a) { char* p; BLResult e = a.modify_op(op, k, &p); if (!e) for (size_t i = 0; i < k; i++) p[i] = char(c + i % 5); return e; };
    }
  }
  static void make(A& a, Rng& r) { a = rstr(r); }
};
// ---- path ---------------------------------------------------------------------------------------------
static BLPath rpath(Rng& r) { BLPath p; random_path(r, p, 60, 60, int(r.below(12)), false); return p; }
static BLMatrix2D rmat(Rng& r) { BLMatrix2D m = BLMatrix2D::make_identity(); switch (r.below(5)) { case 0: break; case 1: m.translate(r.real(-9, 9), r.real(-9, 9)); break; case 2: m.scale(r.real(0.2, 3), r.real(0.2, 3)); break; case 3: m.rotate(r.real(-3, 3)); break; default: m.reset(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2), r.real(-2, 2), r.real(-9, 9), r.real(-9, 9)); } return m; }
template<> struct Ops<BLStrokeOptions>;
static BLStrokeOptions rstroke(Rng& r);
template<> struct Ops<BLPath> {
  typedef BLPath A; static const char* name() { return "path"; }
  static bool deep(A& d, const A& s) { size_t n = s.size(); if (!n) return true; uint8_t* c; BLPoint* v; if (d.modify_op(BL_MODIFY_OP_ASSIGN_FIT, n, &c, &v)) return false; memcpy(c, s.command_data(), n); memcpy(v, s.vertex_data(), n * sizeof(BLPoint)); return true; }
  static u64 digest(const A& a) { H h; h.u(a.size()); h.b(a.command_data(), a.size()); for (size_t i = 0; i < a.size(); i++) { h.d(a.vertex_data()[i].x); h.d(a.vertex_data()[i].y); }
    u32 fl = 0; h.u(a.get_info_flags(&fl)); h.u(fl); BLBox b(0, 0, 0, 0); BLResult e = a.get_control_box(&b); h.u(e); if (!e) { h.d(b.x0); h.d(b.y0); h.d(b.x1); h.d(b.y1); } e = a.get_bounding_box(&b); h.u(e); if (!e) { h.d(b.x0); h.d(b.y0); h.d(b.x1); h.d(b.y1); } if (a.capacity() < a.size()) h.u(99); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; u32 fl = 0; BLBox b(0, 0, 0, 0); for (int k = 0; k < 4; k++) switch (r.below(5)) { case 0: h.u(a.get_bounding_box(&b)); h.d(b.x0); h.d(b.y1); break; case 1: h.u(a.get_info_flags(&fl)); h.u(fl); break; case 2: h.u(a.hit_test(BLPoint(r.real(0, 60), r.real(0, 60)), BL_FILL_RULE_EVEN_ODD)); break;
      case 3: { size_t ix = 0; double dd = 0; h.u(a.get_closest_vertex(BLPoint(20, 20), 50, &ix, &dd)); h.u(ix); break; } default: { BLRange rg{0, 0}; h.u(a.get_figure_range(0, &rg)); h.u(rg.end); } } A b2 = a; h.u(b2.equals(a)); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    size_t sz = a.size(), at = sz ? r.below(u32(sz) + 1) : 0, at2 = sz ? r.below(u32(sz) + 1) : 0, k = rsize(r); BLRange rg{std::min(at, at2), std::max(at, at2)}; if (r.chance(1, 10)) rg.end = SIZE_MAX;
    auto P = [&]() { return BLPoint(r.real(-5, 65), r.real(-5, 65)); }; BLPoint p0 = P(), p1 = P(), p2 = P(); BLPath o = rpath(r); BLMatrix2D m = rmat(r); BLGeometryDirection dir = r.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; BLStrokeOptions so = rstroke(r); std::vector<BLPoint> poly; for (size_t i = 0; i < std::min<size_t>(k, 60); i++) poly.push_back(P());
    switch (r.below(40)) {
      case 0: case 1: n = "move_to"; return [=](A& a) { return a.move_to(p0); };
      case 2: case 3: n = "line_to"; return [=](A& a) { return a.line_to(p0); };
      case 4: n = "poly_to"; return [=](A& a) { return a.poly_to(poly.data(), poly.size()); };
      case 5: n = "quad_to"; return [=](A& a) { return a.quad_to(p0, p1); };
      case 6: n = "cubic_to"; return [=](A& a) { return a.cubic_to(p0, p1, p2); };
      case 7: n = "conic_to"; return [=](A& a) { return a.conic_to(p0, p1, 0.7); };
      case 8: n = "smooth_quad_to"; return [=](A& a) { return a.smooth_quad_to(p0); };
      case 9: n = "smooth_cubic_to"; return [=](A& a) { return a.smooth_cubic_to(p0, p1); };
      case 10: { bool f = r.chance(1, 2); n = "arc_to"; return [=](A& a) { return a.arc_to(p0, BLPoint(9, 5), 0.3, 2.2, f); }; }
      case 11: n = "arc_quadrant_to"; return [=](A& a) { return a.arc_quadrant_to(p0, p1); };
      case 12: n = "elliptic_arc_to"; return [=](A& a) { return a.elliptic_arc_to(BLPoint(12, 7), 0.5, true, false, p0); };
      case 13: n = "close"; return [=](A& a) { return a.close(); };
      case 14: n = "add_rect"; return [=](A& a) { return a.add_rect(BLRect(p0.x, p0.y, 9, 7), dir); };
      case 15: n = "add_box"; return [=](A& a) { return a.add_box(BLBox(p0.x, p0.y, p1.x, p1.y), dir); };
      case 16: n = "add_circle"; return [=](A& a) { return a.add_circle(BLCircle(p0.x, p0.y, 9), dir); };
      case 17: n = "add_ellipse"; return [=](A& a) { return a.add_ellipse(BLEllipse(p0.x, p0.y, 9, 5), m, dir); };
      case 18: n = "add_round_rect"; return [=](A& a) { return a.add_round_rect(BLRoundRect(p0.x, p0.y, 20, 18, 4), dir); };
      case 19: n = "add_pie"; return [=](A& a) { return a.add_pie(BLArc(p0.x, p0.y, 9, 8, 0.2, 1.9), m, dir); };
      case 20: n = "add_chord"; return [=](A& a) { return a.add_chord(BLArc(p0.x, p0.y, 9, 8, 0.2, 1.9), dir); };
      case 21: n = "add_polyline"; return [=](A& a) { return a.add_polyline(poly.data(), poly.size(), dir); };
      case 22: n = "add_polygon"; return [=](A& a) { return a.add_polygon(poly.data(), poly.size(), m, dir); };
      case 23: n = "add_path"; return [=](A& a) { return a.add_path(o); };
      case 24: n = "add_path_m"; return [=](A& a) { return a.add_path(o, m); };
      case 25: n = "add_path_self"; return [=](A& a) { return a.add_path(a, rg); };
      case 26: n = "add_path_self_m"; return [=](A& a) { return a.add_path(a, rg, m); };
      case 27: { BLPathReverseMode rm = r.chance(1, 2) ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE; n = "add_reversed_path"; return [=](A& a) { return a.add_reversed_path(o, rm); }; }
      case 28: n = "add_reversed_self"; return [=](A& a) { return a.add_reversed_path(a, BL_PATH_REVERSE_MODE_COMPLETE); };
      case 29: n = "add_stroked_path"; return [=](A& a) { return a.add_stroked_path(o, so, bl_default_approximation_options); };
      case 30: n = "remove_range"; return [=](A& a) { return a.remove_range(rg); };
      case 31: n = "translate"; return [=](A& a) { return a.translate(rg, p0); };
      case 32: n = "transform"; return [=](A& a) { return a.transform(m); };
      case 33: n = "fit_to"; return [=](A& a) { return a.fit_to(BLRect(1, 2, 30, 40), 0); };
      case 34: n = "clear"; return [=](A& a) { return a.clear(); };
      case 35: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 36: n = "reserve"; return [=](A& a) { return a.reserve(k); };
      case 37: n = "assign_deep"; return [=](A& a) { return a.assign_deep(o); };
      case 38: if (!sz) { n = "move_to"; return [=](A& a) { return a.move_to(p0); }; } n = "set_vertex_at"; return [=](A& a) { return a.set_vertex_at(at % a.size(), BL_PATH_CMD_PRESERVE, p0); };
      default: n = "add_stroked_self"; return [=](A& a) { if (a.size() > 80) return a.clear(); return a.add_stroked_path(a, so, bl_default_approximation_options); };
    }
  }
  static void make(A& a, Rng& r) { if (r.chance(7, 8)) a = rpath(r); }
};
// ---- stroke options -----------------------------------------------------------------------------------
static BLStrokeOptions rstroke(Rng& r) { BLStrokeOptions s; s.width = r.real(0.2, 7); s.miter_limit = r.real(1, 9); s.join = uint8_t(r.below(BL_STROKE_JOIN_MAX_VALUE + 1)); s.start_cap = uint8_t(r.below(BL_STROKE_CAP_MAX_VALUE + 1)); s.end_cap = uint8_t(r.below(BL_STROKE_CAP_MAX_VALUE + 1)); s.dash_offset = r.unit(); int n = r.below(4); for (int i = 0; i < n; i++) s.dash_array.append(r.real(1, 6)); return s; }
template<> struct Ops<BLStrokeOptions> {
  typedef BLStrokeOptions A; static const char* name() { return "stroke_options"; }
  static bool deep(A& d, const A& s) { d.hints = s.hints; d.width = s.width; d.miter_limit = s.miter_limit; d.dash_offset = s.dash_offset; return Ops<BLArray<double>>::deep(d.dash_array, s.dash_array); }
  static u64 digest(const A& a) { H h; h.u(a.start_cap); h.u(a.end_cap); h.u(a.join); h.u(a.transform_order); h.d(a.width); h.d(a.miter_limit); h.d(a.dash_offset); h.u(Ops<BLArray<double>>::digest(a.dash_array)); return h.h; }
  static u64 reads(const A& a, Rng& r) { A b = a; return b.equals(a); }
  static FN(A) prep(const A& a, Rng& r, std::string& n) { BLStrokeOptions o = rstroke(r); std::string nn; auto f = Ops<BLArray<double>>::prep(a.dash_array, r, nn);
    switch (r.below(4)) { case 0: n = "width"; return [=](A& a) { a.width = o.width; a.join = o.join; return BLResult(0); }; case 1: n = "assign"; return [=](A& a) { return a.assign(o); }; case 2: n = "copy_ctor"; return [=](A& a) { BLStrokeOptions c(o); a = c; return BLResult(0); }; default: n = "dash." + nn; return [=](A& a) { return f(a.dash_array); }; } }
  static void make(A& a, Rng& r) { a = rstroke(r); }
};
// ---- gradient -----------------------------------------------------------------------------------------
template<> struct Ops<BLGradient> {
  typedef BLGradient A; static const char* name() { return "gradient"; }
  static bool deep(A& d, const A& s) { double v[BL_GRADIENT_VALUE_MAX_VALUE + 1]; for (size_t k = 0; k <= BL_GRADIENT_VALUE_MAX_VALUE; k++) v[k] = s.value(k); BLMatrix2D m = s.transform(); return bl_gradient_create(&d, s.type(), v, s.extend_mode(), s.stops(), s.size(), s.has_transform() ? &m : nullptr) == BL_SUCCESS && d.set_values(0, v, BL_GRADIENT_VALUE_MAX_VALUE + 1) == BL_SUCCESS; }
  static void hm(H& h, const BLMatrix2D& m) { for (double x : m.m) h.d(x); }
  static u64 digest(const A& a) { H h; h.u(a.type()); h.u(a.extend_mode()); for (size_t k = 0; k <= BL_GRADIENT_VALUE_MAX_VALUE; k++) h.d(a.value(k)); h.u(a.size()); for (size_t i = 0; i < a.size(); i++) { h.d(a.stops()[i].offset); h.u(a.stops()[i].rgba.value); } hm(h, a.transform()); if (a.capacity() < a.size()) h.u(99); return h.h; }
  static u64 reads(const A& a, Rng& r) { BLImage im; if (im.create(16, 8, BL_FORMAT_PRGB32)) return 1; BLContext c; if (c.begin(im)) return 2; c.clear_all(); c.set_comp_op(BL_COMP_OP_SRC_COPY); if (r.chance(1, 3)) c.set_gradient_quality(BL_GRADIENT_QUALITY_DITHER); c.fill_all(a); c.end(); return hash_image(im); }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    size_t sz = a.size(), at = sz ? r.below(u32(sz)) : 0, k = rsize(r); double o = r.chance(1, 4) ? double(r.below(2)) : r.below(8) / 8.0, o2 = r.unit(); BLRgba32 c{u32(r.next())}; BLRgba64 c64{r.next()}; BLGradient g; random_gradient(r, g, 40, 40); BLMatrix2D m = rmat(r); std::vector<BLGradientStop> st; for (size_t i = 0; i < std::min<size_t>(k, 30); i++) st.push_back(BLGradientStop(r.unit(), BLRgba32(u32(r.next()))));
    switch (r.below(24)) {
      case 0: case 1: case 2: n = "add_stop32"; return [=](A& a) { return a.add_stop(o, c); };
      case 3: case 4: n = "add_stop64"; return [=](A& a) { return a.add_stop(o, c64); };
      case 5: n = "assign_stops"; return [=](A& a) { return a.assign_stops(st.data(), st.size()); };
      case 6: n = "reset_stops"; return [=](A& a) { return a.reset_stops(); };
      case 7: if (!sz) { n = "reserve"; return [=](A& a) { return a.reserve(k); }; } n = "remove_stop"; return [=](A& a) { return a.remove_stop(at % a.size()); };
      case 8: n = "remove_stop_by_offset"; return [=](A& a) { return a.remove_stop_by_offset(o, o2 < 0.5); };
      case 9: n = "remove_stops"; return [=](A& a) { return a.remove_stops(BLRange{at, a.size()}); };
      case 10: n = "remove_stops_by_offset"; return [=](A& a) { return a.remove_stops_by_offset(std::min(o, o2), std::max(o, o2)); };
      case 11: if (!sz) { n = "shrink"; return [=](A& a) { return a.shrink(); }; } n = "replace_stop"; return [=](A& a) { return a.replace_stop(at % a.size(), o, c); };
      case 12: n = "set_type"; { BLGradientType t = BLGradientType(r.below(3)); return [=](A& a) { return a.set_type(t); }; }
      case 13: n = "set_extend_mode"; { BLExtendMode e = BLExtendMode(r.below(3)); return [=](A& a) { return a.set_extend_mode(e); }; }
      case 14: n = "set_value"; { size_t i = r.below(4); double v = r.real(-20, 40); return [=](A& a) { return a.set_value(i, v); }; }
      case 15: n = "set_values"; { double v = r.real(0, 9); return [=](A& a) { double q[4] = {v, v + 1, v + 9, v + 3}; return a.set_values(0, q, 4); }; }
      case 16: n = "reserve"; return [=](A& a) { return a.reserve(k); };
      case 17: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 18: n = "set_transform"; return [=](A& a) { return a.set_transform(m); };
      case 19: n = "rotate"; return [=](A& a) { return a.rotate(o2); };
      case 20: n = "post_transform"; return [=](A& a) { return a.post_transform(m); };
      case 21: n = "reset_transform"; return [=](A& a) { return a.reset_transform(); };
      case 22: n = "create"; return [=](A& a) { return a.create(BLLinearGradientValues(o, o2, 9, 9), BL_EXTEND_MODE_PAD, st.data(), st.size()); };
      default: n = "assign"; return [=](A& a) { return a.assign(g); };
    }
  }
  static void make(A& a, Rng& r) { if (r.chance(7, 8)) random_gradient(r, a, 40, 40); }
};
// ---- image / pattern ----------------------------------------------------------------------------------
static BLFormat rfmt(Rng& r) { return BLFormat(1 + r.below(3)); }
static BLImage rimage(Rng& r) { BLImage im; random_image(r, im, 1 + int(r.below(20)), 1 + int(r.below(20)), rfmt(r)); return im; }
template<> struct Ops<BLImage> {
  typedef BLImage A; static const char* name() { return "image"; }
  static bool deep(A& d, const A& s) { if (s.is_empty()) return true; d = cm::pixel_copy(s); return !d.is_empty(); }
  static u64 digest(const A& a) { if (a.is_empty()) return 7; return hash_image(a); }
  static u64 reads(const A& a, Rng& r) { H h; if (a.is_empty()) return 1; switch (r.below(4)) {
      case 0: { BLImage d; h.u(BLImage::scale(d, a, BLSizeI(1 + int(r.below(20)), 1 + int(r.below(20))), BLImageScaleFilter(1 + r.below(4)))); h.u(digest(d)); break; }
      case 1: { BLImageCodec c; c.find_by_name(r.chance(1, 2) ? "PNG" : r.chance(1, 2) ? "BMP" : "QOI"); BLArray<uint8_t> b; h.u(a.write_to_data(b, c)); h.b(b.data(), b.size()); break; }
      case 2: { BLImage im; im.create(24, 20, BL_FORMAT_PRGB32); BLContext c(im); c.clear_all(); c.blit_image(BLPointI(1, 2), a); c.blit_image(BLRect(3, 4, 17.5, 11), a); c.end(); h.u(hash_image(im)); break; }
      default: { BLImage c = a; h.u(c.equals(a)); h.u(u64(a.width())); } } return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    int w = 1 + int(r.below(30)), hh = 1 + int(r.below(30)); BLFormat f = rfmt(r); BLImage o = rimage(r); BLImageScaleFilter sf = BLImageScaleFilter(1 + r.below(4)); BLArray<uint8_t> enc; { BLImageCodec c; c.find_by_name(r.chance(1, 2) ? "PNG" : r.chance(1, 2) ? "BMP" : "QOI"); o.write_to_data(enc, c); } u64 s = r.next();
    switch (r.below(11)) {
      case 0: n = "create"; return [=](A& a) { BLResult e = a.create(w, hh, f); if (!e) { BLImageData d; if (a.make_mutable(&d)) return BLResult(77); for (int y = 0; y < hh; y++) memset((char*)d.pixel_data + y * d.stride, int(s), size_t(w) * (f == BL_FORMAT_A8 ? 1 : 4)); } return e; };
      case 1: n = "assign_deep"; return [=](A& a) { return a.assign_deep(o); };
      case 2: n = "assign"; return [=](A& a) { return a.assign(o); };
      case 3: case 4: n = "make_mutable"; return [=](A& a) { BLImageData d; BLResult e = a.make_mutable(&d); if (!e && !a.is_empty()) { int y = int(s % u64(d.size.h)); memset((char*)d.pixel_data + y * d.stride, int(s >> 20), size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); } return e; };
      case 5: n = "convert"; return [=](A& a) { return a.convert(f); };
      case 6: n = "scale_self"; return [=](A& a) { return BLImage::scale(a, a, BLSizeI(w, hh), sf); };
      case 7: n = "scale_from"; return [=](A& a) { return BLImage::scale(a, o, BLSizeI(w, hh), sf); };
      case 8: n = "read_from_data"; return [=](A& a) { return a.read_from_data(enc); };
      case 9: n = "draw"; return [=](A& a) { if (a.is_empty()) return BLResult(0); BLContext c; BLResult e = c.begin(a); if (e) return e; c.fill_rect(BLRectI(0, 0, w, hh), BLRgba32(u32(s))); return c.end(); };
      default: n = "create_from_data"; return [=](A& a) { ExtBlock* b = ext_new(size_t(w) * hh * 4); memset(b->p, int(s), size_t(w) * hh * 4); BLResult e = a.create_from_data(w, hh, f, b->p, w * (f == BL_FORMAT_A8 ? 1 : 4), BLDataAccessFlags((s & 1) ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ), ext_destroy, b); if (e) ext_destroy(nullptr, nullptr, b); return e; };
    }
  }
  static void make(A& a, Rng& r) { if (r.chance(1, 8)) return; a = rimage(r); if (r.chance(1, 3)) { BLImageData d; a.get_data(&d); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4, st = d.size.w * bpp + r.below(3) * 4; ExtBlock* b = ext_new(st * d.size.h); for (int y = 0; y < d.size.h; y++) memcpy((char*)b->p + y * st, (char*)d.pixel_data + y * d.stride, d.size.w * bpp);
      BLImage x; BLResult e = x.create_from_data(d.size.w, d.size.h, BLFormat(d.format), b->p, intptr_t(st), r.chance(2, 3) ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, ext_destroy, b); if (e) ext_destroy(nullptr, nullptr, b); else a = x; } }
};
template<> struct Ops<BLPattern> {
  typedef BLPattern A; static const char* name() { return "pattern"; }
  static bool deep(A& d, const A& s) { BLImage im; if (!Ops<BLImage>::deep(im, s.get_image())) return false; BLMatrix2D m = s.transform(); BLRectI ar = s.area(); return d.create(im, ar, s.extend_mode(), m) == BL_SUCCESS; }
  static u64 digest(const A& a) { H h; h.u(Ops<BLImage>::digest(a.get_image())); BLRectI r = a.area(); h.u(u64(r.x)); h.u(u64(r.y)); h.u(u64(r.w)); h.u(u64(r.h)); h.u(a.extend_mode()); Ops<BLGradient>::hm(h, a.transform()); return h.h; }
  static u64 reads(const A& a, Rng& r) { BLImage im; if (im.create(16, 8, BL_FORMAT_PRGB32)) return 1; BLContext c; if (c.begin(im)) return 2; c.clear_all(); c.set_comp_op(BL_COMP_OP_SRC_COPY); if (r.chance(1, 3)) c.set_pattern_quality(BL_PATTERN_QUALITY_BILINEAR); c.fill_all(a); c.end(); return hash_image(im); }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    BLImage o = rimage(r); BLMatrix2D m = rmat(r); BLExtendMode e = BLExtendMode(r.below(BL_EXTEND_MODE_COMPLEX_MAX_VALUE + 1)); double x = r.real(-3, 3); BLRectI ar(0, 0, 1 + int(r.below(4)), 1); BLPattern p; p.create(o, e, m);
    switch (r.below(10)) {
      case 0: n = "create"; return [=](A& a) { return a.create(o, e, m); };
      case 1: n = "set_image"; return [=](A& a) { return a.set_image(o); };
      case 2: n = "reset_image"; return [=](A& a) { return a.reset_image(); };
      case 3: n = "set_area"; return [=](A& a) { return a.set_area(ar); };
      case 4: n = "reset_area"; return [=](A& a) { return a.reset_area(); };
      case 5: n = "set_extend_mode"; return [=](A& a) { return a.set_extend_mode(e); };
      case 6: n = "set_transform"; return [=](A& a) { return a.set_transform(m); };
      case 7: n = "rotate"; return [=](A& a) { return a.rotate(x); };
      case 8: n = "reset_transform"; return [=](A& a) { return a.reset_transform(); };
      default: n = "assign"; return [=](A& a) { return a.assign(p); };
    }
  }
  static void make(A& a, Rng& r) { if (r.chance(1, 8)) return; a.create(rimage(r), BLExtendMode(r.below(9)), rmat(r)); }
};
// ---- bit set / bit array ------------------------------------------------------------------------------
static std::vector<u32> rwords(Rng& r) { std::vector<u32> w; size_t k = r.below(40); for (size_t i = 0; i < k; i++) w.push_back(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 0xFFFFFFFFu : u32(r.next())); return w; }
static BLBitSet rbitset(Rng& r) { BLBitSet b; u32 s = rbit(r) / 2; if (r.chance(1, 3)) b.assign_range(s, s + r.below(700)); else { std::vector<u32> w = rwords(r); b.assign_words(s / 32, w.data(), u32(w.size())); } return b; }
template<> struct Ops<BLBitSet> {
  typedef BLBitSet A; static const char* name() { return "bitset"; }
  // maximal runs of ones, from the segments (words are MSB first)
  template<typename F> static void ranges(const A& a, F f) { BLBitSetData d; if (a.get_data(&d)) return; u64 rs = 0, re = 0; auto add = [&](u64 s, u64 e) { if (re == s && re != rs) { re = e; return; } if (re != rs) f(u32(rs), u32(std::min<u64>(re, 0xFFFFFFFFu))); rs = s; re = e; };
    for (u32 i = 0; i < d.segment_count; i++) { const BLBitSetSegment& g = d.segment_data[i]; if (g.all_ones()) { add(u64(g._range_start_word()) * 32, u64(g._range_end_word()) * 32); continue; } for (u32 w = 0; w < BL_BIT_SET_SEGMENT_WORD_COUNT; w++) { u32 v = g.word_at(w); u64 b0 = u64(g.start_word() + w) * 32; if (v == 0xFFFFFFFFu) { add(b0, b0 + 32); continue; } for (u32 b = 0; b < 32; b++) if (v >> (31 - b) & 1) add(b0 + b, b0 + b + 1); } }
    if (re != rs) f(u32(rs), u32(std::min<u64>(re, 0xFFFFFFFFu))); }
  static bool deep(A& d, const A& s) { u32 lo, hi; if (!s.get_range(&lo, &hi)) return true; if (s.cardinality() == hi - lo) return d.assign_range(lo, hi) == BL_SUCCESS; if (hi - lo > 60000) { bool ok = true; ranges(s, [&](u32 a, u32 b) { ok = ok && d.add_range(a, b) == BL_SUCCESS; }); return ok; } std::vector<u32> w((hi + 31) / 32 - lo / 32); ranges(s, [&](u32 a, u32 b) { for (u32 i = a; i < b; i++) w[i / 32 - lo / 32] |= 0x80000000u >> (i & 31); }); return d.assign_words(lo / 32, w.data(), u32(w.size())) == BL_SUCCESS; }
  static u64 digest(const A& a) { H h; ranges(a, [&](u32 s, u32 e) { h.u(s); h.u(e); }); u32 lo = 0, hi = 0; if (a.get_range(&lo, &hi)) { h.u(lo); h.u(hi); } h.u(a.cardinality()); h.u(a.is_empty()); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; u32 x = rbit(r); h.u(a.has_bit(x)); h.u(a.has_bits_in_range(x / 2, x)); h.u(a.cardinality_in_range(x / 2, x)); A b = a; h.u(b.equals(a)); h.u(b.subsumes(a)); h.u(b.intersects(a)); h.u(u64(b.compare(a))); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    u32 s = rbit(r) / 2, e = s + r.below(700); BLBitSet o = rbitset(r); std::vector<u32> w = rwords(r); u32 sw = s / 32;
    if (!a.is_empty() && r.chance(1, 2)) { u32 lo, hi; if (a.get_range(&lo, &hi)) { s = lo + r.below(hi - lo); e = r.chance(1, 2) ? s + r.below(hi - s + 1) : s + r.below(700); if (r.chance(1, 6)) { s = lo; } if (r.chance(1, 6)) e = hi; sw = s / 32; } }
    if (s > 0xFFFFF000u) s -= 4096; if (e < s || e > 0xFFFFFF00u) e = 0xFFFFFF00u; if (sw > 0x7FFFF00u) sw -= 256;   // the last index is reserved
    std::vector<u32> bits; u32 nb = r.below(30); for (u32 i = 0; i < nb; i++) bits.push_back((s & ~511u) + r.below(512));
    switch (r.below(20)) {
      case 0: n = "assign_words"; return [=](A& a) { return a.assign_words(sw, w.data(), u32(w.size())); };
      case 1: n = "assign_range"; return [=](A& a) { return a.assign_range(s, e); };
      case 2: n = "clear"; return [=](A& a) { return a.clear(); };
      case 3: n = "assign_deep"; return [=](A& a) { return a.assign_deep(o); };
      case 4: case 5: n = "add_bit"; return [=](A& a) { return a.add_bit(s); };
      case 6: case 7: n = "add_range"; return [=](A& a) { return a.add_range(s, e); };
      case 8: case 9: n = "add_words"; return [=](A& a) { return a.add_words(sw, w.data(), u32(w.size())); };
      case 10: n = "clear_bit"; return [=](A& a) { return a.clear_bit(s); };
      case 11: case 12: n = "clear_range"; return [=](A& a) { return a.clear_range(s, e); };
      case 13: n = "chop"; return [=](A& a) { return a.chop(s, e); };
      case 14: n = "optimize"; return [=](A& a) { return a.optimize(); };
      case 15: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 16: case 17: n = "builder"; return [=](A& a) { BLBitSetBuilder b(&a); for (u32 i : bits) b.add_bit(i); return b.commit(); };
      default: n = "assign"; return [=](A& a) { return a.assign(o); };
    }
  }
  static void make(A& a, Rng& r) { a = rbitset(r); }
};
static BLBitArray rbitarray(Rng& r) { BLBitArray b; u32 n = u32(rsize(r) * 3); if (n > 2000) n = 2000; b.resize(n); for (u32 i = 0; i < n; i++) if (r.chance(1, 3)) b.set_bit(i); return b; }
template<> struct Ops<BLBitArray> {
  typedef BLBitArray A; static const char* name() { return "bitarray"; }
  static bool deep(A& d, const A& s) { if (d.resize(u32(s.size()))) return false; for (u32 i = 0; i < s.size(); i++) if (s.has_bit(i)) if (d.set_bit(i)) return false; return true; }
  static u64 digest(const A& a) { H h; h.u(a.size()); h.u(a.cardinality()); for (u32 i = 0; i < a.word_count(); i++) h.u(a.data()[i]); h.u(a.word_count()); if (a.capacity() < a.size()) h.u(99); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; u32 n = u32(a.size()); u32 x = n ? r.below(n) : 0; h.u(a.has_bit(x)); h.u(a.has_bits_in_range(x / 2, x)); h.u(a.cardinality_in_range(x / 2, x)); A b = a; h.u(b.equals(a)); h.u(b.subsumes(a)); h.u(b.intersects(a)); h.u(u64(b.compare(a))); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    u32 sz = u32(a.size()), x = sz ? r.below(sz) : 0, y = sz ? r.below(sz) : 0, k = u32(rsize(r)); BLBitArray o = rbitarray(r);  u32 wv = u32(r.next()); bool bv = r.chance(1, 2); std::vector<u32> w; for (u32 i = 0; i < r.below(20); i++) w.push_back(u32(r.next())); u32 nw = u32(w.size()); if (x + nw * 32 > sz) nw = (sz - x) / 32;
    switch (r.below(20)) {
      case 0: n = "set_bit"; return [=](A& a) { return a.set_bit(x); };
      case 1: n = "fill_range"; return [=](A& a) { return a.fill_range(std::min(x, y), std::max(x, y)); };
      case 2: n = "fill_words"; return [=](A& a) { return a.fill_words(x, w.data(), nw); };
      case 3: n = "clear_bit"; return [=](A& a) { return a.clear_bit(x); };
      case 4: n = "clear_range"; return [=](A& a) { return a.clear_range(std::min(x, y), std::max(x, y)); };
      case 5: n = "clear_word"; return [=](A& a) { return a.clear_word(x, wv); };
      case 6: n = "clear_words"; return [=](A& a) { return a.clear_words(x, w.data(), nw); };
      case 7: n = "replace_bit"; return [=](A& a) { return a.replace_bit(x, bv); };
      case 8: n = "replace_word"; return [=](A& a) { return a.replace_word(x, wv); };
      case 9: n = "replace_words"; return [=](A& a) { return a.replace_words(x, w.data(), nw); };
      case 10: n = "append_bit"; return [=](A& a) { return a.append_bit(bv); };
      case 11: n = "append_word"; return [=](A& a) { return a.append_word(wv); };
      case 12: n = "append_words"; return [=](A& a) { return a.append_words(w.data(), u32(w.size())); };
      case 14: n = "resize"; return [=](A& a) { return a.resize(k * 2); };
      case 15: n = "reserve"; return [=](A& a) { return a.reserve(k * 3); };
      case 16: n = "shrink"; return [=](A& a) { return a.shrink(); };
      case 17: n = "assign_words"; return [=](A& a) { return a.assign_words(w.data(), u32(w.size())); };
      case 18: n = "replace_op"; return [=](A& a) { u32* d; BLResult e = a.replace_op(k + 1, &d); if (!e) for (u32 i = 0; i < (k + 32) / 32; i++) d[i] = i == k / 32 ? 1u << 31 : wv; return e; };
      default: n = "assign"; return [=](A& a) { return a.assign(o); };
    }
  }
  static void make(A& a, Rng& r) { a = rbitarray(r); }
};
// ---- settings -----------------------------------------------------------------------------------------
template<> struct Ops<BLFontFeatureSettings> {
  typedef BLFontFeatureSettings A; static const char* name() { return "feature_settings"; }
  static bool deep(A& d, const A& s) { BLFontFeatureSettingsView v; if (s.get_view(&v)) return false; for (auto& i : v) if (d.set_value(i.tag, i.value)) return false; return true; }
  static u64 digest(const A& a) { H h; BLFontFeatureSettingsView v; h.u(a.get_view(&v)); h.u(a.size()); for (auto& i : v) { h.u(i.tag); h.u(i.value); h.u(a.get_value(i.tag)); h.u(a.has_value(i.tag)); } return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; h.u(a.get_value(rtag(r))); A b = a; h.u(b.equals(a)); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    BLTag t = rtag(r); BLFontFeatureSettingsView vw; a.get_view(&vw); if (vw.size && r.chance(1, 2)) t = vw.data[r.below(u32(vw.size))].tag; u32 v = fval(r, t); A o; make(o, r);
    switch (r.below(8)) { case 0: n = "remove_value"; return [=](A& a) { return a.remove_value(t); }; case 1: n = "assign"; return [=](A& a) { return a.assign(o); }; case 2: n = "clear"; return [=](A& a) { return a.clear(); }; default: n = "set_value"; return [=](A& a) { return a.set_value(t, v); }; } }
  static void make(A& a, Rng& r) { int n = r.chance(1, 3) ? r.below(40) : r.below(7); for (int i = 0; i < n; i++) { BLTag t = rtag(r); a.set_value(t, fval(r, t)); } }
};
template<> struct Ops<BLFontVariationSettings> {
  typedef BLFontVariationSettings A; static const char* name() { return "variation_settings"; }
  static bool deep(A& d, const A& s) { BLFontVariationSettingsView v; if (s.get_view(&v)) return false; for (auto& i : v) if (d.set_value(i.tag, i.value)) return false; return true; }
  static u64 digest(const A& a) { H h; BLFontVariationSettingsView v; h.u(a.get_view(&v)); h.u(a.size()); for (auto& i : v) { h.u(i.tag); h.f(i.value); h.f(a.get_value(i.tag)); h.u(a.has_value(i.tag)); } return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; A b = a; h.u(b.equals(a)); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    BLTag t = rtag(r); float v = float(r.real(0, 900)); BLFontVariationSettingsView vw; a.get_view(&vw); if (vw.size && r.chance(1, 2)) t = vw.data[r.below(u32(vw.size))].tag; A o; make(o, r);
    switch (r.below(8)) { case 0: n = "remove_value"; return [=](A& a) { return a.remove_value(t); }; case 1: n = "assign"; return [=](A& a) { return a.assign(o); }; case 2: n = "clear"; return [=](A& a) { return a.clear(); }; default: n = "set_value"; return [=](A& a) { return a.set_value(t, v); }; } }
  static void make(A& a, Rng& r) { int n = r.chance(1, 3) ? r.below(20) : r.below(5); for (int i = 0; i < n; i++) a.set_value(rtag(r), float(r.real(0, 900))); }
};
// ---- var ----------------------------------------------------------------------------------------------
template<> struct Ops<BLVar> {
  typedef BLVar A; static const char* name() { return "var"; }
  template<typename T> static bool dp(A& d, const A& s) { T t; if (!Ops<T>::deep(t, s.as<T>())) return false; return d.assign(std::move(t)) == BL_SUCCESS; }
  static bool deep(A& d, const A& s) { switch (s.type()) { case BL_OBJECT_TYPE_STRING: return dp<BLString>(d, s); case BL_OBJECT_TYPE_PATH: return dp<BLPath>(d, s); case BL_OBJECT_TYPE_GRADIENT: return dp<BLGradient>(d, s); case BL_OBJECT_TYPE_IMAGE: return dp<BLImage>(d, s); case BL_OBJECT_TYPE_PATTERN: return dp<BLPattern>(d, s); case BL_OBJECT_TYPE_BIT_ARRAY: return dp<BLBitArray>(d, s); case BL_OBJECT_TYPE_ARRAY_FLOAT64: return dp<BLArray<double>>(d, s); default: return d.assign(s) == BL_SUCCESS; } }
  static u64 digest(const A& s) { H h; h.u(s.type()); switch (s.type()) { case BL_OBJECT_TYPE_STRING: h.u(Ops<BLString>::digest(s.as<BLString>())); break; case BL_OBJECT_TYPE_PATH: h.u(Ops<BLPath>::digest(s.as<BLPath>())); break; case BL_OBJECT_TYPE_GRADIENT: h.u(Ops<BLGradient>::digest(s.as<BLGradient>())); break; case BL_OBJECT_TYPE_IMAGE: h.u(Ops<BLImage>::digest(s.as<BLImage>())); break;
      case BL_OBJECT_TYPE_PATTERN: h.u(Ops<BLPattern>::digest(s.as<BLPattern>())); break; case BL_OBJECT_TYPE_BIT_ARRAY: h.u(Ops<BLBitArray>::digest(s.as<BLBitArray>())); break; case BL_OBJECT_TYPE_ARRAY_FLOAT64: h.u(Ops<BLArray<double>>::digest(s.as<BLArray<double>>())); break; default: { double d = 0; h.u(s.to_double(&d)); h.d(d); BLRgba32 c(0); h.u(s.to_rgba32(&c)); h.u(c.value); u64 v = 0; h.u(s.to_uint64(&v)); h.u(v); } } return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; A b = a; h.u(b.equals(a)); h.u(b.strict_equals(a)); return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    A o; make(o, r); BLString s = rstr(r); std::string nn;
    if (a.type() == BL_OBJECT_TYPE_PATH && r.chance(1, 2)) { auto f = Ops<BLPath>::prep(a.as<BLPath>(), r, nn); n = "path." + nn; return [=](A& a) { return f(a.as<BLPath>()); }; }
    if (a.type() == BL_OBJECT_TYPE_STRING && r.chance(1, 2)) { auto f = Ops<BLString>::prep(a.as<BLString>(), r, nn); n = "string." + nn; return [=](A& a) { return f(a.as<BLString>()); }; }
    if (a.type() == BL_OBJECT_TYPE_GRADIENT && r.chance(1, 2)) { auto f = Ops<BLGradient>::prep(a.as<BLGradient>(), r, nn); n = "gradient." + nn; return [=](A& a) { return f(a.as<BLGradient>()); }; }
    switch (r.below(5)) { case 0: n = "assign_string"; return [=](A& a) { return a.assign(s); }; case 1: n = "assign_double"; return [=](A& a) { return a.assign(1.5); }; case 2: n = "assign_u64"; return [=](A& a) { return a.assign(uint64_t(77)); }; case 3: n = "reset"; return [=](A& a) { return a.reset(); }; default: n = "assign"; return [=](A& a) { return a.assign(o); }; } }
  static void make(A& a, Rng& r) { switch (r.below(11)) { case 0: a.assign(rstr(r)); break; case 1: a.assign(rpath(r)); break; case 2: { BLGradient g; Ops<BLGradient>::make(g, r); a.assign(g); break; } case 3: a.assign(rimage(r)); break; case 4: { BLPattern p; Ops<BLPattern>::make(p, r); a.assign(p); break; } case 5: a.assign(rbitarray(r)); break; case 6: { BLArray<double> d; Ops<BLArray<double>>::make(d, r); a.assign(d); break; } case 7: a.assign(r.unit()); break; case 8: a.assign(int64_t(r.next())); break; case 9: a.assign(BLRgba32(u32(r.next()))); break; default: break; } }
};
// ---- font ---------------------------------------------------------------------------------------------
template<> struct Ops<BLFont> {
  typedef BLFont A; static const char* name() { return "font"; }
  static bool deep(A& d, const A& s) { if (s.is_empty()) return true; BLFontFeatureSettings fs; BLFontVariationSettings vs; if (!Ops<BLFontFeatureSettings>::deep(fs, s.feature_settings()) || !Ops<BLFontVariationSettings>::deep(vs, s.variation_settings())) return false; return d.create_from_face(s.face(), s.size(), fs, vs) == BL_SUCCESS; }
  static u64 digest(const A& a) { H h; h.u(a.is_empty()); if (a.is_empty()) return h.h; h.f(a.size()); const BLFontMetrics& m = a.metrics(); h.f(m.ascent); h.f(m.descent); h.f(m.line_gap); h.f(m.x_height); const BLFontMatrix& x = a.matrix(); h.d(x.m00); h.d(x.m11); h.u(Ops<BLFontFeatureSettings>::digest(a.feature_settings())); h.u(Ops<BLFontVariationSettings>::digest(a.variation_settings())); return h.h; }
  static u64 reads(const A& a, Rng& r) { H h; if (a.is_empty()) return 1; static const char* tx[] = {"Hello", "AVAToWa", "fi fl ffi", "0123456789", "\xC3\xA9\xE2\x82\xAC mixed"}; const char* t = tx[r.below(5)]; BLGlyphBuffer gb; if (gb.set_utf8_text(t)) return 2; if (a.shape(gb)) return 3; h.u(gb.size()); h.b(gb.content(), gb.size() * 4); for (size_t i = 0; i < gb.size(); i++) { h.u(u64(gb.placement_data()[i].advance.x)); h.u(u64(gb.placement_data()[i].placement.x)); }
      BLTextMetrics tm; h.u(a.get_text_metrics(gb, tm)); h.d(tm.advance.x); h.d(tm.bounding_box.x1); BLPath p; h.u(a.get_glyph_run_outlines(gb.glyph_run(), p)); h.u(Ops<BLPath>::digest(p)); if (r.chance(1, 3)) { BLBitSet bs; h.u(a.face().get_character_coverage(&bs)); h.u(Ops<BLBitSet>::digest(bs)); } if (r.chance(1, 3)) { BLArray<BLTag> tg; h.u(a.face().get_script_tags(&tg)); h.b(tg.data(), tg.size() * 4); h.u(a.face().get_feature_tags(&tg)); h.b(tg.data(), tg.size() * 4); } return h.h; }
  static FN(A) prep(const A& a, Rng& r, std::string& n) {
    float s = 4 + float(r.below(60)); BLFontFeatureSettings fs; Ops<BLFontFeatureSettings>::make(fs, r); BLFontVariationSettings vs; Ops<BLFontVariationSettings>::make(vs, r); BLFontFace fc = a.face(); if (fc.is_empty()) font_face(fc);
    switch (r.below(7)) { case 0: n = "set_size"; return [=](A& a) { return a.set_size(s); }; case 1: n = "set_feature_settings"; return [=](A& a) { return a.set_feature_settings(fs); }; case 2: n = "reset_feature_settings"; return [=](A& a) { return a.reset_feature_settings(); }; case 3: n = "set_variation_settings"; return [=](A& a) { return a.set_variation_settings(vs); }; case 4: n = "reset_variation_settings"; return [=](A& a) { return a.reset_variation_settings(); }; case 5: n = "create_from_face"; return [=](A& a) { return a.create_from_face(fc, s); }; default: n = "create_from_face_fs"; return [=](A& a) { return a.create_from_face(fc, s, fs, vs); }; } }
  static void make(A& a, Rng& r) { if (r.chance(1, 8)) return; BLFontFace f; font_face(f); a.create_from_face(f, 8 + float(r.below(40))); }
};
template<typename T> static Ptr mk(u64 s) { Rng r(s); auto* o = new O<T>(); Ops<T>::make(o->v, r); return Ptr(o); }
static Ptr (*const kMake[])(u64) = { mk<BLArray<uint8_t>>, mk<BLArray<uint16_t>>, mk<BLArray<uint64_t>>, mk<BLArray<double>>, mk<BLArray<BLRgba32>>, mk<BLArray<BLString>>, mk<BLString>, mk<BLPath>, mk<BLPath>, mk<BLGradient>, mk<BLGradient>, mk<BLImage>, mk<BLImage>, mk<BLPattern>, mk<BLBitArray>, mk<BLStrokeOptions>, mk<BLFontFeatureSettings>, mk<BLFontVariationSettings>, mk<BLVar>, mk<BLVar>, mk<BLFont>, mk<BLBitSet>, mk<BLBitSet> };
u32 nkinds() { return sizeof(kMake) / sizeof(kMake[0]); }
Ptr make(u32 kind, u64 seed) { return kMake[kind % nkinds()](seed); }
}
