// C01: containers behave as their abstract values, whatever operations, sharing, copies and allocation failures came before.
//
// Each run drives three objects of one type next to plain reference models (std::vector, std::string, an interval set,
// std::map). After every operation the whole content of all three objects must equal the models.
#include "common.h"
#include "res.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
using namespace sim; using namespace cm;

namespace {
std::string g_trace;                                     // operations so far (for messages)
BLRange rng(size_t a, size_t b) { BLRange r{}; r.start = a; r.end = b; return r; }
void note(const std::string& s) { if (g_trace.size() < 5000) g_trace += s + "; "; }
u64 g_hits = 0;

// Runs one call of the library with allocation faults enabled.
struct Call { BLResult r; bool hit; };
template<class F> Call call(F&& f) { u64 f0 = faults_fired(F_ALLOC); faults_here(true); BLResult e = f(); faults_here(false); bool hit = faults_fired(F_ALLOC) != f0; if (hit) g_hits++; return {e, hit}; }
// Runs an operation which is expected to succeed (`valid`) or to be refused; true if it succeeded.
template<class F> bool did(const char* name, bool valid, F&& f) {
  Call c = call(f);
  if (c.r == BL_SUCCESS) { if (!valid) fail(std::string("accepted:") + name, strf("%s with invalid arguments succeeded; ", name) + g_trace); if (c.hit) count("survived"); count(name); return true; }
  if (c.r == BL_ERROR_OUT_OF_MEMORY) { if (!c.hit) fail(std::string("result:") + name, strf("%s ran out of memory although no allocation failed; ", name) + g_trace); count("out_of_memory"); note("(no memory)"); return false; }
  if (valid) fail(std::string("result:") + name, strf("%s failed with 0x%x; ", name, unsigned(c.r)) + g_trace);
  count("refused"); return false;
}
[[noreturn]] void differs(const char* what, const std::string& d) { fail(std::string("content:") + what, d + "; after " + g_trace); }

size_t rlen(Rng& q) { switch (q.below(6)) { case 0: return 0; case 1: return 1; case 2: return q.below(4); case 3: return q.below(20); case 4: return q.below(70); default: return q.below(300); } }
struct Ext { void* p; size_t n; u64 hash; bool ro; u32 gone; };
std::vector<Ext*>* g_ext;
void ext_gone(void*, void*, void* user) noexcept { Ext* e = (Ext*)user; e->gone++; if (e->gone == 1) { if (e->ro && hash_bytes(e->p, e->n) != e->hash) fail("external-written", "read-only external memory was modified; " + g_trace); user_free(e->p); } else fail("external-twice", "external memory was handed back twice; " + g_trace); }

// ---------------------------------------------------------------------------------------------------------- arrays
template<class T> struct Mk { static T v(u32 id) { return T(id * 7 + 3); } };
template<> struct Mk<BLString> { static BLString v(u32 id) { BLString s; s.assign_format("item %u", id); for (u32 i = 0; i < id % 5; i++) s.append("-longer than inline"); return s; } };
template<class T> struct ArrayK {
  using O = BLArray<T>; using M = std::vector<u32>; static constexpr bool pod = !std::is_same<T, BLString>::value;
  static void check(const O& o, const M& m, Rng& q) {
    if (o.size() != m.size()) differs("size", strf("array has %zu items, expected %zu", o.size(), m.size()));
    if (o.capacity() < o.size()) differs("capacity", "capacity is smaller than size");
    const T* p = o.data(); for (size_t i = 0; i < m.size(); i++) if (!(p[i] == Mk<T>::v(m[i]))) differs("item", strf("item %zu of %zu is wrong", i, m.size()));
    u32 id = q.below(32); T x = Mk<T>::v(id); size_t from = q.below(u32(m.size()) + 2);
    size_t a = size_t(std::find(m.begin(), m.end(), id) - m.begin()); if (a == m.size()) a = SIZE_MAX; if (o.index_of(x) != a) differs("index_of", "index_of() is wrong");
    size_t b = SIZE_MAX; for (size_t i = from; i < m.size(); i++) if (m[i] == id) { b = i; break; } if (o.index_of(x, from) != b) differs("index_of", strf("index_of(from %zu) is %zu, expected %zu", from, o.index_of(x, from), b));
    size_t l = SIZE_MAX; for (size_t i = m.size(); i-- > 0;) if (m[i] == id) { l = i; break; } if (o.last_index_of(x) != l) differs("last_index_of", "last_index_of() is wrong");
    size_t lf = SIZE_MAX; for (size_t i = 0; i < m.size() && i <= from; i++) if (m[i] == id) lf = i; if (o.last_index_of(x, from) != lf) differs("last_index_of", strf("last_index_of(from %zu) is %zu, expected %zu", from, o.last_index_of(x, from), lf));
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static bool meq(const M& a, const M& b) { return a == b; }
  static BLResult deep(O& a, const O& b) { return a.assign_deep(b); }
  static std::vector<T> items(Rng& q, size_t n, M& ids) { std::vector<T> v; for (size_t i = 0; i < n; i++) { ids.push_back(q.below(32)); v.push_back(Mk<T>::v(ids.back())); } return v; }
  static void op(O& o, M& m, const O& other, const M& om, Rng& q) {
    size_t n = m.size(); M ids; M w = m;
    auto done = [&] { m = w; };
    switch (q.below(24)) {
      case 0: { u32 id = q.below(32); T x = Mk<T>::v(id); note(strf("append %u", id)); if (did("append", true, [&] { return o.append(x); })) { w.push_back(id); done(); } break; }
      case 1: { auto v = items(q, 3, ids); note("append 3"); if (did("append_v", true, [&] { return o.append(v[0], v[1], v[2]); })) { w.insert(w.end(), ids.begin(), ids.end()); done(); } break; }
      case 2: { auto v = items(q, rlen(q), ids); note(strf("append_data %zu", v.size())); if (did("append_data", true, [&] { return o.append_data(v.data(), v.size()); })) { w.insert(w.end(), ids.begin(), ids.end()); done(); } break; }
      case 3: { u32 id = q.below(32); T x = Mk<T>::v(id); note("prepend"); if (did("prepend", true, [&] { return o.prepend(x); })) { w.insert(w.begin(), id); done(); } break; }
      case 4: { auto v = items(q, rlen(q), ids); note(strf("prepend_data %zu", v.size())); if (did("prepend_data", true, [&] { return o.prepend_data(v.data(), v.size()); })) { w.insert(w.begin(), ids.begin(), ids.end()); done(); } break; }
      case 5: { u32 id = q.below(32); T x = Mk<T>::v(id); size_t i = q.below(u32(n) + 1); note(strf("insert at %zu", i)); if (did("insert", true, [&] { return o.insert(i, x); })) { w.insert(w.begin() + i, id); done(); } break; }
      case 6: { auto v = items(q, 2, ids); size_t i = q.below(u32(n) + 1); note(strf("insert 2 at %zu", i)); if (did("insert_v", true, [&] { return o.insert(i, v[0], v[1]); })) { w.insert(w.begin() + i, ids.begin(), ids.end()); done(); } break; }
      case 7: { auto v = items(q, rlen(q), ids); size_t i = q.below(u32(n) + 1); note(strf("insert_data %zu at %zu", v.size(), i)); if (did("insert_data", true, [&] { return o.insert_data(i, v.data(), v.size()); })) { w.insert(w.begin() + i, ids.begin(), ids.end()); done(); } break; }
      case 8: { u32 id = q.below(32); T x = Mk<T>::v(id); size_t i = q.below(u32(n) + 2); note(strf("replace %zu", i)); if (did("replace", i < n, [&] { return o.replace(i, x); })) { w[i] = id; done(); } break; }
      case 9: { auto v = items(q, rlen(q), ids); size_t a = q.below(u32(n) + 3), b = a + q.below(u32(n) + 3); note(strf("replace_data %zu..%zu by %zu", a, b, v.size())); if (did("replace_data", true, [&] { return o.replace_data(rng(a, b), v.data(), v.size()); })) { b = std::min(b, n); a = std::min(a, b); w.erase(w.begin() + a, w.begin() + b); w.insert(w.begin() + a, ids.begin(), ids.end()); done(); } break; }
      case 10: { size_t i = q.below(u32(n) + 1); note(strf("remove %zu", i)); if (i < n) { if (did("remove", true, [&] { return o.remove(i); })) { w.erase(w.begin() + i); done(); } } break; }
      case 11: { size_t a = q.below(u32(n) + 3), b = a + q.below(u32(n) + 3); note(strf("remove %zu..%zu", a, b)); if (did("remove_range", true, [&] { return o.remove(rng(a, b)); })) { b = std::min(b, n); a = std::min(a, b); w.erase(w.begin() + a, w.begin() + b); done(); } break; }
      case 12: { size_t k = rlen(q); u32 id = q.below(32); T x = Mk<T>::v(id); note(strf("resize %zu", k)); if (did("resize", true, [&] { return o.resize(k, x); })) { w.resize(k, id); done(); } break; }
      case 13: { size_t k = q.below(u32(n) + 3); note(strf("truncate %zu", k)); if (did("truncate", true, [&] { return o.truncate(k); })) { if (k < n) w.resize(k); done(); } break; }
      case 14: { size_t k = rlen(q); note(strf("reserve %zu", k)); if (did("reserve", true, [&] { return o.reserve(k); })) { if (o.capacity() < k) differs("capacity", "reserve() reserved less than asked"); } break; }
      case 15: note("shrink"); did("shrink", true, [&] { return o.shrink(); }); break;
      case 16: if (q.chance(1, 3)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); } break;
      case 17: { auto v = items(q, rlen(q), ids); note(strf("assign_data %zu", v.size())); if (did("assign_data", true, [&] { return o.assign_data(v.data(), v.size()); })) m = ids; break; }
      case 18: { auto v = items(q, 3, ids); note("assign_v"); if (did("assign_v", true, [&] { return o.assign_v(v[0], v[1], v[2]); })) m = ids; break; }
      case 19: { size_t a = q.below(u32(n) + 1), k = q.below(u32(n - a) + 1); // items of the array itself
        M s(m.begin() + a, m.begin() + a + k);
        switch (q.below(4)) {
          case 0: note(strf("assign_data self %zu+%zu", a, k)); if (did("assign_data", true, [&] { return o.assign_data(o.data() + a, k); })) m = s; break;
          case 1: note(strf("append_data self %zu+%zu", a, k)); if (did("append_data", true, [&] { return o.append_data(o.data() + a, k); })) { w.insert(w.end(), s.begin(), s.end()); done(); } break;
          default: { size_t i = q.below(u32(n) + 1); note(strf("insert_data self %zu+%zu at %zu", a, k, i)); if (did("insert_data", true, [&] { return o.insert_data(i, o.data() + a, k); })) { w.insert(w.begin() + i, s.begin(), s.end()); done(); } break; }
        } break; }
      case 20: { note("append_data other"); if (om.size() > 200) break; if (did("append_data", true, [&] { return o.append_data(other.data(), other.size()); })) { w.insert(w.end(), om.begin(), om.end()); done(); } break; }
      case 21: if constexpr (pod) { size_t k = rlen(q); if (!k) break; auto v = items(q, k, ids); size_t cap = k + q.below(3); Ext* e = new Ext{user_alloc(cap * sizeof(T)), cap * sizeof(T), 0, q.chance(1, 2), 0}; g_ext->push_back(e); memset(e->p, 0x5A, e->n); memcpy(e->p, (const void*)v.data(), k * sizeof(T)); e->hash = hash_bytes(e->p, e->n);
          note(strf("assign_external_data %zu of %zu %s", k, cap, e->ro ? "ro" : "rw")); if (did("assign_external_data", true, [&] { return o.assign_external_data((T*)e->p, k, cap, e->ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, ext_gone, e); })) m = ids; else if (!e->gone) { e->gone = 1; user_free(e->p); } } break;
      case 22: if constexpr (pod) { size_t k = rlen(q); BLModifyOp mo = q.pick({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); auto v = items(q, k, ids); T* p = nullptr; note(strf("modify_op %d %zu", int(mo), k)); if (did("modify_op", true, [&] { return o.modify_op(mo, k, &p); })) { for (size_t i = 0; i < k; i++) p[i] = v[i]; if (mo < BL_MODIFY_OP_APPEND_FIT) m.clear(); m.insert(m.end(), ids.begin(), ids.end()); } } break;
      case 23: if constexpr (pod) { if (q.chance(1, 2)) { T* p = nullptr; note("make_mutable"); if (did("make_mutable", true, [&] { return o.make_mutable(&p); }) && n) { size_t i = q.below(u32(n)); m[i] = q.below(32); p[i] = Mk<T>::v(m[i]); } }
          else { size_t k = rlen(q), i = q.below(u32(n) + 1); auto v = items(q, k, ids); T* p = nullptr; note(strf("insert_op %zu at %zu", k, i)); if (did("insert_op", true, [&] { return o.insert_op(i, k, &p); })) { for (size_t j = 0; j < k; j++) p[j] = v[j]; m.insert(m.begin() + i, ids.begin(), ids.end()); } } } break;
    }
  }
};
// ---------------------------------------------------------------------------------------------------------- strings
struct StringK {
  using O = BLString; using M = std::string;
  static std::string rs(Rng& q) { std::string s; size_t n = rlen(q); if (n > 60 && q.chance(1, 2)) n = q.below(20); for (size_t i = 0; i < n; i++) s += char('a' + q.below(6)); return s; }
  static int sgn(int x) { return x < 0 ? -1 : x > 0; }
  static void check(const O& o, const M& m, Rng& q) {
    if (o.size() != m.size() || memcmp(o.data(), m.data(), m.size())) differs("string", "string is \"" + std::string(o.data(), std::min<size_t>(o.size(), 300)) + "\", expected \"" + m.substr(0, 300) + "\"");
    if (o.data()[o.size()] != 0) differs("terminator", "string is not terminated"); if (o.capacity() < o.size()) differs("capacity", "capacity is smaller than size");
    char c = char('a' + q.below(7)); size_t from = q.below(u32(m.size()) + 2); auto np = [](size_t i) { return i == std::string::npos ? SIZE_MAX : i; };
    if (o.index_of(c) != np(m.find(c)) || o.index_of(c, from) != np(m.find(c, from))) differs("index_of", "index_of() is wrong");
    if (o.last_index_of(c) != np(m.rfind(c)) || o.last_index_of(c, from) != np(m.empty() ? std::string::npos : m.rfind(c, from))) differs("last_index_of", strf("last_index_of(from %zu) is wrong", from));
    std::string t = q.chance(1, 2) ? m : rs(q); if (q.chance(1, 2) && !t.empty()) t[q.below(u32(t.size()))] = 'c';
    if (o.equals(BLStringView{t.data(), t.size()}) != (m == t) || o.equals(t.c_str()) != (m == t.c_str())) differs("equals", "equals() is wrong");
    if (sgn(o.compare(BLStringView{t.data(), t.size()})) != sgn(m.compare(t)) || sgn(o.compare(t.c_str())) != sgn(m.compare(t.c_str()))) differs("compare", "compare() with \"" + t + "\" is wrong");
  }
  static bool eq(const O& a, const O& b) { int c = a.compare(b), d = b.compare(a); if ((c == 0) != a.equals(b) || sgn(c) != -sgn(d)) differs("compare", "compare() and equals() disagree"); return a.equals(b); }
  static bool meq(const M& a, const M& b) { return a == b; }
  static BLResult deep(O& a, const O& b) { return a.assign_deep(b); }
  static void op(O& o, M& m, const O& other, const M& om, Rng& q) {
    size_t n = m.size(), i = q.below(u32(n) + 1); std::string s = rs(q); char c = char('a' + q.below(6)); size_t k = rlen(q);
    switch (q.below(28)) {
      case 0: note("assign char"); if (did("assign_char", true, [&] { return o.assign(c, k); })) m.assign(k, c); break;
      case 1: note("assign cstr"); if (did("assign_cstr", true, [&] { return o.assign(s.c_str()); })) m = s; break;
      case 2: note("assign data"); if (did("assign_data", true, [&] { return o.assign(s.data(), s.size()); })) m = s; break;
      case 3: note("assign_format"); if (did("assign_format", true, [&] { return o.assign_format("<%s|%d>", s.c_str(), int(k)); })) m = "<" + s + "|" + std::to_string(k) + ">"; break;
      case 4: note("append_format"); if (n > 3000) break; if (did("append_format", true, [&] { return o.append_format("<%s|%d>", s.c_str(), int(k)); })) m += "<" + s + "|" + std::to_string(k) + ">"; break;
      case 5: note("append char"); if (did("append_char", true, [&] { return o.append(c, k); })) m.append(k, c); break;
      case 6: note("append cstr"); if (did("append_cstr", true, [&] { return o.append(s.c_str()); })) m += s; break;
      case 7: note("append view"); if (did("append_view", true, [&] { return o.append(BLStringView{s.data(), s.size()}); })) m += s; break;
      case 8: note("append other"); if (om.size() + n > 4000) break; if (did("append_string", true, [&] { return o.append(other); })) m += om; break;
      case 9: note("append self"); if (n > 1000) break; if (did("append_string", true, [&] { return o.append(o); })) { std::string t = m; m += t; } break;
      case 10: note("prepend char"); if (did("prepend_char", true, [&] { return o.prepend(c, k); })) m.insert(0, k, c); break;
      case 11: note("prepend cstr"); if (did("prepend_cstr", true, [&] { return o.prepend(s.c_str()); })) m.insert(0, s); break;
      case 12: note(strf("insert char at %zu", i)); if (did("insert_char", true, [&] { return o.insert(i, c, k); })) m.insert(i, k, c); break;
      case 13: note(strf("insert cstr at %zu", i)); if (did("insert_cstr", true, [&] { return o.insert(i, s.c_str()); })) m.insert(i, s); break;
      case 14: note(strf("insert view at %zu", i)); if (did("insert_view", true, [&] { return o.insert(i, BLStringView{s.data(), s.size()}); })) m.insert(i, s); break;
      case 15: note(strf("insert other at %zu", i)); if (om.size() + n > 4000) break; if (did("insert_string", true, [&] { return o.insert(i, other); })) m.insert(i, om); break;
      case 16: note(strf("insert self at %zu", i)); if (n > 1000) break; if (did("insert_string", true, [&] { return o.insert(i, o); })) { std::string t = m; m.insert(i, t); } break;
      case 17: note(strf("remove %zu", i)); if (i < n && did("remove", true, [&] { return o.remove(i); })) m.erase(i, 1); break;
      case 18: { size_t a = q.below(u32(n) + 3), b = a + q.below(u32(n) + 3); note(strf("remove %zu..%zu", a, b)); if (did("remove_range", true, [&] { return o.remove(rng(a, b)); })) { b = std::min(b, n); a = std::min(a, b); m.erase(a, b - a); } break; }
      case 19: note(strf("truncate %zu", k)); if (did("truncate", true, [&] { return o.truncate(k); })) { if (k < n) m.resize(k); } break;
      case 20: note(strf("resize %zu", k)); if (did("resize", true, [&] { return o.resize(k, c); })) m.resize(k, c); break;
      case 21: note(strf("reserve %zu", k)); if (did("reserve", true, [&] { return o.reserve(k); }) && o.capacity() < k) differs("capacity", "reserve() reserved less than asked"); break;
      case 22: note("shrink"); did("shrink", true, [&] { return o.shrink(); }); break;
      case 23: if (q.chance(1, 2)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); } break;
      case 24: { char* p = nullptr; note("make_mutable"); if (did("make_mutable", true, [&] { return o.make_mutable(&p); }) && n) { size_t j = q.below(u32(n)); m[j] = c; p[j] = c; } break; }
      case 25: { char* p = nullptr; BLModifyOp mo = q.pick({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); note(strf("modify_op %d %zu", int(mo), s.size())); if (did("modify_op", true, [&] { return o.modify_op(mo, s.size(), &p); })) { memcpy(p, s.data(), s.size()); if (mo < BL_MODIFY_OP_APPEND_FIT) m.clear(); m += s; } break; }
      case 26: { char* p = nullptr; note(strf("insert_op %zu at %zu", s.size(), i)); if (did("insert_op", true, [&] { return o.insert_op(i, s.size(), &p); })) { memcpy(p, s.data(), s.size()); m.insert(i, s); } break; }
      case 27: { size_t a = q.below(u32(n) + 1), l = q.below(u32(n - a) + 1); std::string t = m.substr(a, l); if (n > 1000) break;
        if (q.chance(1, 2)) { note("assign part of self"); if (did("assign_data", true, [&] { return o.assign(BLStringView{o.data() + a, l}); })) m = t; }
        else if (q.chance(1, 2)) { note("append part of self"); if (did("append_view", true, [&] { return o.append(BLStringView{o.data() + a, l}); })) m += t; }
        else { note("insert part of self"); if (did("insert_view", true, [&] { return o.insert(i, BLStringView{o.data() + a, l}); })) m.insert(i, t); } break; }
    }
  }
};
// ------------------------------------------------------------------------------------------------------- bit arrays
struct BitArrayK {
  using O = BLBitArray; using M = std::vector<u8>;
  static u32 rbits(Rng& q) { switch (q.below(5)) { case 0: return q.below(4); case 1: return 32 * q.below(8); case 2: return q.below(100); case 3: return 32 * q.below(8) + q.pick({1u, 31u}); default: return q.below(600); } }
  static void check(const O& o, const M& m, Rng& q) {
    size_t n = m.size(); if (o.size() != n || o.is_empty() != (n == 0) || o.word_count() != (n + 31) / 32 || o.capacity() < n) differs("size", strf("bit array has %u bits, expected %zu", o.size(), n));
    const u32* d = o.data(); u32 card = 0; for (size_t i = 0; i < n; i++) { bool b = (d[i / 32] >> (31 - i % 32)) & 1; card += m[i]; if (b != bool(m[i])) differs("bit", strf("bit %zu of %zu is %d", i, n, b)); }
    for (size_t i = n; i < (n + 31) / 32 * 32; i++) if ((d[i / 32] >> (31 - i % 32)) & 1) differs("tail", strf("unused bit %zu is set (size %zu)", i, n));
    if (o.cardinality() != card) differs("cardinality", "cardinality() is wrong");
    u32 a = rbits(q), b = rbits(q), c = 0; if (q.chance(1, 2) && n) { a = q.below(u32(n)); b = a + q.below(u32(n) - a) + 1; if (q.chance(1, 3)) b = (b + 31) & ~31u; } for (size_t i = a; i < b && i < n; i++) c += m[i];
    if (o.has_bit(a) != (a < n && m[a])) differs("has_bit", "has_bit() is wrong");
    if (o.cardinality_in_range(a, b) != c) differs("cardinality_in_range", strf("cardinality_in_range(%u, %u) is %u, expected %u (size %zu)", a, b, o.cardinality_in_range(a, b), c, n));
    if (o.has_bits_in_range(a, b) != (c != 0)) differs("has_bits_in_range", strf("has_bits_in_range(%u, %u) is %d, but %u bits are set there (size %zu)", a, b, o.has_bits_in_range(a, b), c, n));
    u32 s = 0, e = 0; bool any = bl_bit_array_get_range(&o, &s, &e); size_t f = 0, l = n; while (f < n && !m[f]) f++; while (l > 0 && !m[l - 1]) l--; if (f >= l) f = l = 0; if (any != (card != 0) || s != f || e != l) differs("get_range", "get_range() is wrong");
  }
  static bool eq(const O& a, const O& b) { int c = a.compare(b), d = b.compare(a); if ((c == 0) != a.equals(b) || (c < 0) != (d > 0)) differs("compare", "compare() and equals() disagree"); return a.equals(b); }
  static void pair(const O& a, const M& x, const O& b, const M& y) { bool sub = true, in = false; for (size_t i = 0; i < y.size(); i++) { bool xa = i < x.size() && x[i]; if (y[i] && !xa) sub = false; if (y[i] && xa) in = true; }
    if (a.subsumes(b) != sub) differs("subsumes", "subsumes() is wrong"); if (a.intersects(b) != in) differs("intersects", "intersects() is wrong"); }
  static bool meq(const M& a, const M& b) { return a == b; }
  static BLResult deep(O& a, const O& b) { return a.assign_words(b.data(), b.word_count()) || a.resize(b.size()) ? BL_ERROR_OUT_OF_MEMORY : BL_SUCCESS; }
  static void op(O& o, M& m, const O& other, const M&, Rng& q) {
    size_t n = m.size(); u32 i = q.chance(5, 6) && n ? q.below(u32(n)) : rbits(q); std::vector<u32> w(q.below(8)); for (u32& x : w) x = q.chance(1, 3) ? 0xFFFFFFFFu : u32(q.next()); u32 wv = q.chance(1, 4) ? 0xFFFFFFFFu : u32(q.next());
    auto bit = [&](size_t k) { return (w[k / 32] >> (31 - k % 32)) & 1; };
    switch (q.below(19)) {
      case 0: note(strf("set_bit %u", i)); if (did("set_bit", i < n, [&] { return o.set_bit(i); })) m[i] = 1; break;
      case 1: note(strf("clear_bit %u", i)); if (did("clear_bit", i < n, [&] { return o.clear_bit(i); })) m[i] = 0; break;
      case 2: { bool v = q.chance(1, 2); note(strf("replace_bit %u", i)); if (did("replace_bit", i < n, [&] { return o.replace_bit(i, v); })) m[i] = v; break; }
      case 3: case 4: { u32 e = i + q.below(u32(n) + 40); if (q.chance(1, 8)) e = q.below(i + 1); note(strf("fill_range %u %u", i, e)); if (did("fill_range", i < n && i < e, [&] { return o.fill_range(i, e); })) for (size_t k = i; k < e && k < n; k++) m[k] = 1; break; }
      case 5: { u32 e = i + q.below(u32(n) + 40); note(strf("clear_range %u %u", i, e)); if (did("clear_range", i < n && i < e, [&] { return o.clear_range(i, e); })) for (size_t k = i; k < e && k < n; k++) m[k] = 0; break; }
      case 6: note(strf("fill_words %u x%zu", i, w.size())); if (did("fill_words", i < n, [&] { return o.fill_words(i, w.data(), u32(w.size())); })) for (size_t k = 0; k < w.size() * 32 && i + k < n; k++) m[i + k] |= bit(k); break;
      case 7: note(strf("clear_words %u x%zu", i, w.size())); if (did("clear_words", i < n, [&] { return o.clear_words(i, w.data(), u32(w.size())); })) for (size_t k = 0; k < w.size() * 32 && i + k < n; k++) if (bit(k)) m[i + k] = 0; break;
      case 8: note(strf("replace_words %u x%zu", i, w.size())); if (did("replace_words", i < n, [&] { return o.replace_words(i, w.data(), u32(w.size())); })) for (size_t k = 0; k < w.size() * 32 && i + k < n; k++) m[i + k] = bit(k); break;
      case 9: note(strf("replace_word %u", i)); w.assign(1, wv); if (did("replace_word", i < n, [&] { return o.replace_word(i, wv); })) for (size_t k = 0; k < 32 && i + k < n; k++) m[i + k] = bit(k); break;
      case 10: note(strf("clear_word %u", i)); w.assign(1, wv); if (did("clear_word", i < n, [&] { return o.clear_word(i, wv); })) for (size_t k = 0; k < 32 && i + k < n; k++) if (bit(k)) m[i + k] = 0; break;
      case 11: { bool v = q.chance(1, 2); note("append_bit"); if (did("append_bit", true, [&] { return o.append_bit(v); })) m.push_back(v); break; }
      case 12: note("append_word"); w.assign(1, wv); if (did("append_word", true, [&] { return o.append_word(wv); })) for (size_t k = 0; k < 32; k++) m.push_back(bit(k)); break;
      case 13: note(strf("append_words x%zu", w.size())); if (did("append_words", true, [&] { return o.append_words(w.data(), u32(w.size())); })) for (size_t k = 0; k < w.size() * 32; k++) m.push_back(bit(k)); break;
      case 14: note(strf("assign_words x%zu", w.size())); if (did("assign_words", true, [&] { return o.assign_words(w.data(), u32(w.size())); })) { m.clear(); for (size_t k = 0; k < w.size() * 32; k++) m.push_back(bit(k)); } break;
      case 15: { u32 k = rbits(q); note(strf("resize %u", k)); if (did("resize", true, [&] { return o.resize(k); })) m.resize(k, 0); break; }
      case 16: { u32 k = rbits(q); note(strf("reserve %u", k)); if (did("reserve", true, [&] { return o.reserve(k); }) && o.capacity() < k) differs("capacity", "reserve() reserved less than asked"); break; }
      case 17: if (q.chance(1, 2)) { note("shrink"); did("shrink", true, [&] { return o.shrink(); }); } else if (q.chance(1, 3)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); } break;
      case 18: { u32 k = rbits(q); u32* p = nullptr; note(strf("replace_op %u", k)); if (did("replace_op", true, [&] { return o.replace_op(k, &p); })) { m.assign(k, 0); for (u32 x = 0; x < k; x++) if (q.chance(1, 3)) { p[x / 32] |= 0x80000000u >> (x % 32); m[x] = 1; } } break; }
    }
  }
};
// ----------------------------------------------------------------------------------------------------------- bit sets
struct BitSetK {
  using O = BLBitSet; using I = std::pair<u64, u64>; using M = std::vector<I>;   // disjoint, sorted, not adjacent
  static void norm(M& m) { std::sort(m.begin(), m.end()); M r; for (I x : m) if (x.first < x.second) { if (!r.empty() && x.first <= r.back().second) r.back().second = std::max(r.back().second, x.second); else r.push_back(x); } m = r; }
  static void add(M& m, u64 a, u64 b) { m.push_back({a, b}); norm(m); }
  static void sub(M& m, u64 a, u64 b) { M r; for (I x : m) { r.push_back({x.first, std::min(x.second, a)}); r.push_back({std::max(x.first, b), x.second}); } m = r; norm(m); }
  static bool has(const M& m, u64 i) { for (I x : m) if (i >= x.first && i < x.second) return true; return false; }
  static u64 card(const M& m, u64 a, u64 b) { u64 c = 0; for (I x : m) { u64 s = std::max(a, x.first), e = std::min(b, x.second); if (s < e) c += e - s; } return c; }
  static M content(const O& o) { M m; BLBitSetData d; if (o.get_data(&d)) differs("get_data", "get_data() failed"); u64 prev = 0; for (u32 i = 0; i < d.segment_count; i++) { const BLBitSetSegment& s = d.segment_data[i]; if (u64(s.start_word()) < prev) differs("segments", "segments overlap or are not sorted"); prev = s.end_word();
      if (s.all_ones()) m.push_back({u64(s.start_word()) * 32, u64(s.end_word()) * 32}); else for (u32 w = 0; w < BL_BIT_SET_SEGMENT_WORD_COUNT; w++) for (u32 b = 0; b < 32; b++) if ((s.word_at(w) >> (31 - b)) & 1) m.push_back({(u64(s.start_word()) + w) * 32 + b, (u64(s.start_word()) + w) * 32 + b + 1}); }
    norm(m); return m; }
  static u32 rb(Rng& q, const M& m) { if (!m.empty() && q.chance(1, 2)) { const I& x = m[q.below(u32(m.size()))]; return u32(std::min<u64>(0xFFFFFFFEu, (q.chance(1, 2) ? x.first : x.second) + q.below(3) - 1)); }
    switch (q.below(7)) { case 0: return q.below(200); case 1: return 128 * q.below(12); case 2: return 32 * q.below(60) + q.pick({0u, 1u, 31u}); case 3: return 0xFFFFFFFEu - q.below(200); case 4: return 1000000u + q.below(300); default: return q.below(1600); } }
  static std::string show(const M& m) { std::string s; for (size_t i = 0; i < m.size() && i < 24; i++) s += strf("[%llu,%llu) ", (unsigned long long)m[i].first, (unsigned long long)m[i].second); return s; }
  static void check(const O& o, const M& m, Rng& q) {
    M c = content(o); if (c != m) differs("bits", "bit set is " + show(c) + " expected " + show(m)); u64 n = card(m, 0, ~0ull);
    if (o.is_empty() != m.empty() || o.cardinality() != u32(n)) differs("cardinality", strf("cardinality() is %u, expected %llu", o.cardinality(), (unsigned long long)n));
    u32 a = rb(q, m), b = rb(q, m); if (a > b && q.chance(3, 4)) std::swap(a, b);
    if (o.has_bit(a) != has(m, a)) differs("has_bit", strf("has_bit(%u) is wrong", a)); u64 k = a < b ? card(m, a, b) : 0;
    if (o.cardinality_in_range(a, b) != k) differs("cardinality_in_range", strf("cardinality_in_range(%u, %u) is %u, expected %llu in ", a, b, o.cardinality_in_range(a, b), (unsigned long long)k) + show(m));
    if (o.has_bits_in_range(a, b) != (k != 0)) differs("has_bits_in_range", strf("has_bits_in_range(%u, %u) is wrong in ", a, b) + show(m));
    u32 s = 0, e = 0; bool any = o.get_range(&s, &e); if (any != !m.empty() || (any && (s != m.front().first || e != u32(m.back().second)))) differs("get_range", strf("get_range() is %u..%u in ", s, e) + show(m));
    if (n < 20000) { BLBitSetWordIterator it(o); M v; u32 lim = 0; while (u32 w = it.next_word()) { if (++lim > 100000) differs("iterator", "the word iterator does not end"); for (u32 x = 0; x < 32; x++) if ((w >> (31 - x)) & 1) v.push_back({u64(it.bit_index()) + x, u64(it.bit_index()) + x + 1}); } norm(v); if (v != m) differs("iterator", "the word iterator gives " + show(v) + " expected " + show(m)); }
  }
  static bool eq(const O& a, const O& b) { int c = a.compare(b), d = b.compare(a); if ((c == 0) != a.equals(b) || (c < 0) != (d > 0)) differs("compare", "compare() and equals() disagree"); return a.equals(b); }
  static void pair(const O& a, const M& x, const O& b, const M& y) { M u = x; for (I i : y) add(u, i.first, i.second); bool sub_ = u == x, in = false; for (I i : x) for (I j : y) if (std::max(i.first, j.first) < std::min(i.second, j.second)) in = true;
    if (a.subsumes(b) != sub_) differs("subsumes", "subsumes() is wrong: " + show(x) + " / " + show(y)); if (a.intersects(b) != in) differs("intersects", "intersects() is wrong: " + show(x) + " / " + show(y)); }
  static bool meq(const M& a, const M& b) { return a == b; }
  static BLResult deep(O& a, const O& b) { return a.assign_deep(b); }
  static void op(O& o, M& m, const O&, const M&, Rng& q) {
    u32 a = rb(q, m), b = rb(q, m); if (a > b && q.chance(7, 8)) std::swap(a, b); if (q.chance(1, 3)) b = u32(std::min<u64>(0xFFFFFFFFu, u64(a) + 1 + q.below(400)));
    std::vector<u32> w(q.below(14)); for (u32& x : w) x = q.chance(1, 3) ? 0xFFFFFFFFu : q.chance(1, 3) ? 0 : u32(q.next()); u32 sw = (a / 32) & 0x07FFFFFFu; if (u64(sw) + w.size() >= 0x07FFFFFFu) sw = 0x07FFFFF0u - u32(w.size());
    auto bits = [&] { M v; for (size_t k = 0; k < w.size() * 32; k++) if ((w[k / 32] >> (31 - k % 32)) & 1) v.push_back({u64(sw) * 32 + k, u64(sw) * 32 + k + 1}); norm(v); return v; };
    switch (q.below(16)) {
      case 0: case 1: note(strf("add_bit %u", a)); if (did("add_bit", true, [&] { return o.add_bit(a); })) add(m, a, u64(a) + 1); break;
      case 2: note(strf("clear_bit %u", a)); if (did("clear_bit", true, [&] { return o.clear_bit(a); })) sub(m, a, u64(a) + 1); break;
      case 3: case 4: note(strf("add_range %u %u", a, b)); if (did("add_range", a <= b, [&] { return o.add_range(a, b); })) add(m, a, b); break;
      case 5: case 6: note(strf("clear_range %u %u", a, b)); if (did("clear_range", a <= b, [&] { return o.clear_range(a, b); })) sub(m, a, b); break;
      case 7: note(strf("chop %u %u", a, b)); if (q.chance(1, 2)) break; if (did("chop", a <= b, [&] { return o.chop(a, b); })) { sub(m, 0, a); sub(m, b, ~0ull); } break;
      case 8: if (q.chance(1, 2)) break; note(strf("truncate %u", a)); if (did("truncate", true, [&] { return o.truncate(a); })) sub(m, a, ~0ull); break;
      case 9: if (q.chance(1, 2)) break; note(strf("assign_range %u %u", a, b)); if (did("assign_range", a <= b, [&] { return o.assign_range(a, b); })) { m.clear(); add(m, a, b); } break;
      case 10: if (q.chance(1, 2)) break; note(strf("assign_words %u x%zu", sw, w.size())); if (did("assign_words", true, [&] { return o.assign_words(sw, w.data(), u32(w.size())); })) m = bits(); break;
      case 11: case 12: note(strf("add_words %u x%zu", sw, w.size())); if (did("add_words", true, [&] { return o.add_words(sw, w.data(), u32(w.size())); })) { M v = bits(); m.insert(m.end(), v.begin(), v.end()); norm(m); } break;
      case 13: note("shrink"); did("shrink", true, [&] { return o.shrink(); }); break;
      case 14: note("optimize"); did("optimize", true, [&] { return o.optimize(); }); break;
      case 15: if (q.chance(1, 8)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 8)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); }
        else { note("builder"); BLBitSetBuilder bld(&o); u32 cur = a; u32 k = q.below(12); bool lost = false; for (u32 x = 0; x < k; x++) { if (q.chance(1, 4)) cur = rb(q, m); else cur = u32(std::min<u64>(0xFFFFFFFEu, u64(cur) + q.below(300)));
              if (q.chance(1, 4)) { u32 e = u32(std::min<u64>(0xFFFFFFFFu, u64(cur) + 1 + q.below(q.chance(1, 2) ? 40 : 3000))); if (bld.add_range(cur, e)) lost = true; else add(m, cur, e); } else if (bld.add_bit(cur)) lost = true; else add(m, cur, u64(cur) + 1); }
            if (bld.commit()) lost = true; if (lost) differs("builder", "the builder failed without a fault"); count("builder"); } break;
    }
  }
};
// -------------------------------------------------------------------------------------------------------------- paths
struct PathK {
  struct V { u8 c; double x, y; }; using O = BLPath; using M = std::vector<V>;
  static bool same(double a, double b) { return a == b || (a != a && b != b); }
  static bool same(const V& a, const V& b) { return a.c == b.c && same(a.x, b.x) && same(a.y, b.y); }
  static bool meq(const M& a, const M& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
  static BLPath fresh(const M& m) { BLPath p; u8* c; BLPoint* v; if (p.modify_op(BL_MODIFY_OP_ASSIGN_FIT, m.size(), &c, &v)) harness_error("modify_op"); for (size_t i = 0; i < m.size(); i++) { c[i] = m[i].c; v[i] = BLPoint(m[i].x, m[i].y); } return p; }
  static void check(const O& o, const M& m, Rng& q) {
    if (o.size() != m.size() || o.capacity() < m.size()) differs("size", strf("path has %zu vertices, expected %zu", o.size(), m.size()));
    for (size_t i = 0; i < m.size(); i++) { V v{o.command_data()[i], o.vertex_data()[i].x, o.vertex_data()[i].y}; if (!same(v, m[i])) differs("vertex", strf("vertex %zu is %u (%g %g), expected %u (%g %g)", i, v.c, v.x, v.y, m[i].c, m[i].x, m[i].y)); }
    if (q.chance(1, 2)) { BLPath f = fresh(m); if (!f.equals(o) || !o.equals(f)) differs("equals", "path does not equal one made of the same vertices"); // values derived from the content
      u32 fa = 0, fb = 0; BLBox ca, cb, ba, bb; BLResult r1 = o.get_info_flags(&fa), r2 = f.get_info_flags(&fb); if (r1 != r2 || (fa != fb)) differs("flags", strf("get_info_flags() is 0x%x/0x%x, 0x%x/0x%x for a new path with the same content", r1, fa, r2, fb));
      r1 = o.get_control_box(&ca); r2 = f.get_control_box(&cb); if (r1 != r2 || (!r1 && !(ca == cb))) differs("control_box", "get_control_box() differs from that of a new path with the same content");
      r1 = o.get_bounding_box(&ba); r2 = f.get_bounding_box(&bb); if (r1 != r2 || (!r1 && !(ba == bb))) differs("bounding_box", "get_bounding_box() differs from that of a new path with the same content");
      BLPoint p(q.range(-5, 60), q.range(-5, 60)); if (o.hit_test(p, BL_FILL_RULE_NON_ZERO) != f.hit_test(p, BL_FILL_RULE_NON_ZERO)) differs("hit_test", "hit_test() differs from that of a new path with the same content"); if (!r1) derived(o, m, q); }
    BLPoint lv; BLResult r = o.get_last_vertex(&lv); size_t k = m.size(); bool found = false; if (k) { k--; if (m[k].c != BL_PATH_CMD_CLOSE) found = true; else while (k-- > 0) { if (m[k].c == BL_PATH_CMD_CLOSE) break; if (m[k].c == BL_PATH_CMD_MOVE) { found = true; break; } } }
    if ((r == BL_SUCCESS) != found || (found && !(same(lv.x, m[k].x) && same(lv.y, m[k].y)))) differs("get_last_vertex", "get_last_vertex() is wrong");
    size_t at = q.below(u32(m.size()) + 1); BLRange rg; r = o.get_figure_range(at, &rg); if ((r == BL_SUCCESS) != (at < m.size())) differs("figure_range", "get_figure_range() has the wrong result");
    if (!r) { size_t e = at + 1; while (e < m.size() && m[e].c != BL_PATH_CMD_MOVE) if (m[e++].c == BL_PATH_CMD_CLOSE) break; size_t s = at; if (m[at].c != BL_PATH_CMD_MOVE) while (s > 0 && m[s - 1].c != BL_PATH_CMD_CLOSE) if (m[--s].c == BL_PATH_CMD_MOVE) break;
      bool closed_at = m[at].c == BL_PATH_CMD_CLOSE; if (closed_at ? (rg.start != s) : (rg.start != s || rg.end != e)) differs("figure_range", strf("get_figure_range(%zu) is %zu..%zu, expected %zu..%zu", at, rg.start, rg.end, s, e)); }
    BLPoint p(q.range(-20, 80), q.range(-20, 80)); double md = q.chance(1, 2) ? 0 : q.range(1, 40); size_t ci; double cd; r = o.get_closest_vertex(p, md, &ci, &cd); double best = md > 0 ? md * md : INFINITY; size_t bi = SIZE_MAX; for (size_t i = 0; i < m.size(); i++) if (m[i].c != BL_PATH_CMD_CLOSE) { double d = (m[i].x - p.x) * (m[i].x - p.x) + (m[i].y - p.y) * (m[i].y - p.y); if (d < best) { best = d; bi = i; } }
    if (bi == SIZE_MAX ? (r == BL_SUCCESS && ci != SIZE_MAX) : (r != BL_SUCCESS || ci != bi || cd != std::sqrt(best))) differs("closest", strf("get_closest_vertex(%g %g, max %g) is 0x%x index %zd, expected %zd", p.x, p.y, md, r, ci, bi));
  }
  // Bounding box and winding number found from the flattened path.
  static void derived(const O& o, const M& m, Rng& q) {
    struct Seg { double x0, y0, x1, y1; }; std::vector<Seg> g; double sx = 0, sy = 0, x = 0, y = 0; bool open = false, degenerate = false; double cx0 = INFINITY, cy0 = INFINITY, cx1 = -INFINITY, cy1 = -INFINITY;
    auto to = [&](double nx, double ny) { g.push_back({x, y, nx, ny}); x = nx; y = ny; };
    for (size_t i = 0; i < m.size(); i++) { const V& w = m[i];
      if (w.c != BL_PATH_CMD_CLOSE) { if (!(std::fabs(w.x) < 1e4 && std::fabs(w.y) < 1e4)) return; cx0 = std::min(cx0, w.x); cx1 = std::max(cx1, w.x); cy0 = std::min(cy0, w.y); cy1 = std::max(cy1, w.y); }
      switch (w.c) {
        case BL_PATH_CMD_MOVE: if (open) to(sx, sy); sx = x = w.x; sy = y = w.y; open = true; if (i + 1 == m.size() || m[i + 1].c == BL_PATH_CMD_MOVE || m[i + 1].c == BL_PATH_CMD_CLOSE) return; break;
        case BL_PATH_CMD_ON: if (!open) return; to(w.x, w.y); break;
        case BL_PATH_CMD_QUAD: { if (!open || i + 1 >= m.size() || m[i + 1].c != BL_PATH_CMD_ON) return; double ax = x, ay = y; const V& e = m[i + 1]; for (int k = 1; k <= 64; k++) { double t = k / 64.0, u = 1 - t; to(u * u * ax + 2 * u * t * w.x + t * t * e.x, u * u * ay + 2 * u * t * w.y + t * t * e.y); } cx0 = std::min(cx0, e.x); cx1 = std::max(cx1, e.x); cy0 = std::min(cy0, e.y); cy1 = std::max(cy1, e.y); i++; break; }
        case BL_PATH_CMD_CUBIC: { if (!open || i + 2 >= m.size() || m[i + 1].c != BL_PATH_CMD_CUBIC || m[i + 2].c != BL_PATH_CMD_ON) return; double ax = x, ay = y; const V &e = m[i + 1], &f = m[i + 2]; double k3 = f.y - 3 * e.y + 3 * w.y - ay, ext = std::max(std::max(ay, w.y), std::max(e.y, f.y)) - std::min(std::min(ay, w.y), std::min(e.y, f.y)); if (std::fabs(k3) < 0.02 * ext) degenerate = true; // the cubic root finder is not accurate there
          for (int k = 1; k <= 64; k++) { double t = k / 64.0, u = 1 - t; to(u * u * u * ax + 3 * u * u * t * w.x + 3 * u * t * t * e.x + t * t * t * f.x, u * u * u * ay + 3 * u * u * t * w.y + 3 * u * t * t * e.y + t * t * t * f.y); } for (const V* z : {&e, &f}) { cx0 = std::min(cx0, z->x); cx1 = std::max(cx1, z->x); cy0 = std::min(cy0, z->y); cy1 = std::max(cy1, z->y); } i += 2; break; }
        case BL_PATH_CMD_CLOSE: if (!open) return; to(sx, sy); open = false; break;
        default: return;
      } }
    if (open) to(sx, sy); if (g.empty() || g.size() > 4000) return;
    double bx0 = INFINITY, by0 = INFINITY, bx1 = -INFINITY, by1 = -INFINITY; for (const Seg& z : g) for (auto p : {BLPoint(z.x0, z.y0), BLPoint(z.x1, z.y1)}) { bx0 = std::min(bx0, p.x); bx1 = std::max(bx1, p.x); by0 = std::min(by0, p.y); by1 = std::max(by1, p.y); }
    double eps = 1e-3 * (1 + std::max(cx1 - cx0, cy1 - cy0)); BLBox c, b; if (o.get_control_box(&c) || o.get_bounding_box(&b)) differs("bounding_box", "no bounding box for a valid path");
    auto near = [&](double u, double w, double e) { return std::fabs(u - w) <= e; };
    if (!near(c.x0, cx0, 1e-6) || !near(c.x1, cx1, 1e-6) || !near(c.y0, cy0, 1e-6) || !near(c.y1, cy1, 1e-6)) differs("control_box", strf("get_control_box() is %g %g %g %g, expected %g %g %g %g", c.x0, c.y0, c.x1, c.y1, cx0, cy0, cx1, cy1));
    if (!near(b.x0, bx0, eps) || !near(b.x1, bx1, eps) || !near(b.y0, by0, eps) || !near(b.y1, by1, eps)) differs("bounding_box", strf("get_bounding_box() is %g %g %g %g, expected %g %g %g %g", b.x0, b.y0, b.x1, b.y1, bx0, by0, bx1, by1));
    count("derived_boxes"); if (degenerate) return;
    for (int k = 0; k < 3; k++) { BLPoint p(cx0 + (cx1 - cx0) * (q.below(1001) / 1000.0), cy0 + (cy1 - cy0) * (q.below(1001) / 1000.0)); int wn = 0; bool close = false;
      for (const Seg& z : g) { double dx = z.x1 - z.x0, dy = z.y1 - z.y0, l = dx * dx + dy * dy, t = l > 0 ? std::max(0.0, std::min(1.0, ((p.x - z.x0) * dx + (p.y - z.y0) * dy) / l)) : 0, ex = z.x0 + t * dx - p.x, ey = z.y0 + t * dy - p.y; if (ex * ex + ey * ey < 4 * eps * eps + 0.04) close = true; double cr = dx * (p.y - z.y0) - dy * (p.x - z.x0); if (z.y0 <= p.y) { if (z.y1 > p.y && cr > 0) wn++; } else if (z.y1 <= p.y && cr < 0) wn--; }
      if (close) continue; BLHitTest nz = o.hit_test(p, BL_FILL_RULE_NON_ZERO), eo = o.hit_test(p, BL_FILL_RULE_EVEN_ODD); BLHitTest wnz = wn ? BL_HIT_TEST_IN : BL_HIT_TEST_OUT, weo = wn & 1 ? BL_HIT_TEST_IN : BL_HIT_TEST_OUT; count("derived_hits");
      if (nz != wnz || eo != weo) differs("hit_test", strf("hit_test(%.17g %.17g) is %u (non-zero) and %u (even-odd), the winding number is %d", p.x, p.y, nz, eo, wn) + [&] { std::string t = "; path"; if (m.size() < 200) for (const V& v : m) t += strf(" %u(%.17g,%.17g)", v.c, v.x, v.y); return t; }()); }
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static BLResult deep(O& a, const O& b) { return a.assign_deep(b); }
  static V v(u8 c, BLPoint p) { return V{c, p.x, p.y}; }
  static void close_(M& m) { m.push_back({BL_PATH_CMD_CLOSE, NAN, NAN}); }
  static void box(M& m, double x0, double y0, double x1, double y1, bool cw) { m.push_back({BL_PATH_CMD_MOVE, x0, y0}); if (cw) { m.push_back({BL_PATH_CMD_ON, x1, y0}); m.push_back({BL_PATH_CMD_ON, x1, y1}); m.push_back({BL_PATH_CMD_ON, x0, y1}); } else { m.push_back({BL_PATH_CMD_ON, x0, y1}); m.push_back({BL_PATH_CMD_ON, x1, y1}); m.push_back({BL_PATH_CMD_ON, x1, y0}); } close_(m); }
  static M content(const O& o) { M w; for (size_t i = 0; i < o.size(); i++) w.push_back(V{o.command_data()[i], o.vertex_data()[i].x, o.vertex_data()[i].y}); return w; }
  // Vertices of reversed figures; false when the path is not one this model covers.
  static bool reversed(const M& m, bool separate, M& w) {
    std::vector<M> figs; for (size_t i = 0; i < m.size();) { if (m[i].c != BL_PATH_CMD_MOVE) return false; size_t j = i + 1; while (j < m.size() && m[j].c != BL_PATH_CMD_MOVE && m[j].c != BL_PATH_CMD_CLOSE) { if (m[j].c == BL_PATH_CMD_WEIGHT || m[j].c == BL_PATH_CMD_CONIC) return false; j++; } if (j < m.size() && m[j].c == BL_PATH_CMD_CLOSE) j++; figs.push_back(M(m.begin() + i, m.begin() + j)); i = j; }
    if (!separate) std::reverse(figs.begin(), figs.end());
    for (const M& f : figs) { bool cl = f.back().c == BL_PATH_CMD_CLOSE; size_t k = f.size() - cl; if (k < 2 || f[k - 1].c != BL_PATH_CMD_ON) return false; w.push_back({BL_PATH_CMD_MOVE, f[k - 1].x, f[k - 1].y}); for (size_t i = k - 1; i-- > 0;) { V x = f[i]; if (x.c == BL_PATH_CMD_MOVE) x.c = BL_PATH_CMD_ON; w.push_back(x); } if (cl) close_(w); }
    return true;
  }
  // Strokes `m` through a sink which may stop: the figures delivered must be those of a complete stroke.
  static void sink(const O& o, const M& m, Rng& q) {
    struct Ctx { M a, b, c; u32 calls, stop; } x{{}, {}, {}, 0, q.chance(1, 3) ? q.below(3) : ~0u}; BLPath a, b, c; BLStrokeOptions so; so.width = double(q.pick({1, 3, 10})); so.join = u8(q.below(5)); so.start_cap = u8(q.below(6)); so.end_cap = u8(q.below(6)); if (m.size() > 60) return; for (const V& v : m) if (!(std::fabs(v.x) < 1e3 && std::fabs(v.y) < 1e3) && v.c != BL_PATH_CMD_CLOSE) return;
    auto fn = [](BLPathCore* a, BLPathCore* b, BLPathCore* c, size_t, size_t, void* u) noexcept -> BLResult { Ctx* x = (Ctx*)u; faults_here(false); if (x->calls == x->stop) { faults_here(true); return BL_ERROR_INTERRUPTED; } x->calls++; for (auto& p : {std::make_pair(a, &x->a), std::make_pair(b, &x->b), std::make_pair(c, &x->c)}) { M w = content(p.first->dcast()); p.second->insert(p.second->end(), w.begin(), w.end()); } BLResult r = a->dcast().clear(); if (!r) r = b->dcast().clear(); if (!r) r = c->dcast().clear(); faults_here(true); return r; };
    BLPath whole; BLResult w = whole.add_stroked_path(fresh(m), so, bl_default_approximation_options); Call r = call([&] { return bl_path_stroke_to_sink(&o, nullptr, &so, &bl_default_approximation_options, &a, &b, &c, fn, &x); });
    if (r.r == BL_ERROR_OUT_OF_MEMORY) { if (!r.hit) differs("stroke_to_sink", "out of memory although no allocation failed"); return; } if (r.r == BL_ERROR_INTERRUPTED && x.calls == x.stop) { count("sink_stopped"); return; }
    if (r.r != w) differs("stroke_to_sink", strf("stroke_to_sink() gives 0x%x, add_stroked_path() 0x%x", r.r, w)); if (!w) { count("stroke_to_sink"); if (x.calls > 1 ? false : x.a.size() > whole.size()) differs("stroke_to_sink", "more vertices than the stroked path"); }
  }
  // Operations that append computed vertices: what they append must be the same on a new path with the same content.
  static void composite(O& o, M& m, const O& other, const M& om, Rng& q) {
    size_t n = m.size(); if (n > 400 || om.size() > 100) return; for (const M* z : {(const M*)&m, &om}) for (const V& v : *z) if (!(std::fabs(v.x) < 1e4 && std::fabs(v.y) < 1e4) && v.c != BL_PATH_CMD_CLOSE) return; 
    auto C = [&] { return double(q.range(-10, 70)); }; double a = C(), b = C(), c = C(), d = C(), e = q.range(1, 20), f = q.range(1, 20); u32 k = q.below(22); BLGeometryDirection dir = q.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; BLMatrix2D mt(1, 0.5, -0.5, 2, 3, 4); const BLMatrix2D* mp = q.chance(1, 2) ? &mt : nullptr; bool fl = q.chance(1, 2), fg = q.chance(1, 2);
    std::vector<BLPoint> pts(q.below(30)); for (auto& p : pts) p = BLPoint(C(), C()); std::vector<BLRect> rc(q.below(6)); for (auto& p : rc) p = BLRect(C(), C(), q.below(30), q.below(30)); std::vector<BLBoxI> bx(q.below(6)); for (auto& p : bx) { int x = int(C()), y = int(C()); p = BLBoxI(x, y, x + int(q.below(20)), y + int(q.below(20))); }
    BLStrokeOptions so; so.width = e; so.join = u8(q.below(5)); so.start_cap = u8(q.below(6)); so.end_cap = u8(q.below(6)); size_t s = q.below(u32(om.size()) + 2), t = s + q.below(u32(om.size()) + 2);
    auto geo = [&](BLPath& p, BLGeometryType g, const void* data) { return p.add_geometry(g, data, mp, dir); };
    auto apply = [&](BLPath& p, const BLPath& src) -> BLResult { switch (k) {
      case 0: return p.arc_to(BLPoint(a, b), BLPoint(e, f), c / 10, d / 10, fl); case 1: return p.arc_quadrant_to(BLPoint(a, b), BLPoint(c, d)); case 2: return p.elliptic_arc_to(BLPoint(e, f), c / 20, fl, fg, BLPoint(a, b)); case 3: return p.add_polygon(pts.data(), pts.size());
      case 4: return p.add_circle(BLCircle(a, b, e), mt, dir); case 5: return p.add_circle(BLCircle(a, b, e), dir); case 6: return p.add_ellipse(BLEllipse(a, b, e, f), dir); case 7: return p.add_round_rect(BLRoundRect(a, b, 40, 30, e, f), dir); case 8: return p.add_arc(BLArc(a, b, e, f, c / 10, d / 10), dir); case 9: return p.add_chord(BLArc(a, b, e, f, c / 10, d / 10), dir); case 10: return p.add_pie(BLArc(a, b, e, f, c / 10, d / 10), dir);
      case 11: return p.add_line(BLLine(a, b, c, d), dir); case 12: return p.add_triangle(BLTriangle(a, b, c, d, e, f), dir);
      case 13: { BLArrayView<BLPoint> v; v.reset(pts.data(), pts.size()); return geo(p, BL_GEOMETRY_TYPE_POLYGOND, &v); } case 14: { BLArrayView<BLPoint> v; v.reset(pts.data(), pts.size()); return geo(p, BL_GEOMETRY_TYPE_POLYLINED, &v); }
      case 15: { BLArrayView<BLRect> v; v.reset(rc.data(), rc.size()); return geo(p, BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD, &v); } case 16: { BLArrayView<BLBoxI> v; v.reset(bx.data(), bx.size()); return geo(p, BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI, &v); }
      case 17: return geo(p, BL_GEOMETRY_TYPE_PATH, &src); case 18: return p.add_stroked_path(src, so, bl_default_approximation_options); case 19: return p.add_stroked_path(src, rng(s, t), so, bl_default_approximation_options); case 20: return p.fit_to(BLRect(a, b, e, f), 0); default: return p.add_reversed_path(src, rng(s, t), fl ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE); } };
    bool self = q.chance(1, 4); note(strf("composite %u%s", k, self ? " self" : "")); BLPath x = fresh(m), y = fresh(self ? m : om); BLResult w = apply(x, y); M z = content(x); if (k != 20) { if (z.size() < n || !meq(M(z.begin(), z.begin() + n), m)) differs("prefix", strf("composite %u changed vertices before those it appended", k)); if (w && z.size() != n) differs("prefix", strf("composite %u failed with 0x%x but appended vertices", k, w)); }
    std::string name = strf("composite%u", k); if (did(name.c_str(), w == BL_SUCCESS, [&] { return apply(o, self ? o : other); })) m = z;
  }
  static void op(O& o, M& m, const O& other, const M& om, Rng& q) {
    auto P = [&] { return BLPoint(q.range(-10, 70), q.range(-10, 70)); }; BLPoint a = P(), b = P(), c = P(); size_t n = m.size(); BLGeometryDirection dir = q.chance(1, 2) ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; bool cw = dir == BL_GEOMETRY_DIRECTION_CW;
    size_t s = q.below(u32(n) + 2), e = s + q.below(u32(n) + 2); BLRange rg = rng(s, e); size_t ce = std::min(e, n), cs = std::min(s, ce); size_t os = q.below(u32(om.size()) + 2), oe = os + q.below(u32(om.size()) + 2); size_t oce = std::min(oe, om.size()), ocs = std::min(os, oce);
    bool open = n && m.back().c < BL_PATH_CMD_CLOSE; BLMatrix2D t(q.pick({1.0, 2.0, 0.0, -1.0}), q.pick({0.0, 0.0, 1.0, -1.0}), q.pick({0.0, 0.0, 2.0, 1.0}), q.pick({1.0, 2.0, 1.0, -1.0}), q.range(-9, 9), q.range(-9, 9)); auto map = [&](V x) { BLPoint p = q.chance(0, 1) ? BLPoint() : BLPoint(x.x * t.m00 + x.y * t.m10 + t.m20, x.x * t.m01 + x.y * t.m11 + t.m21); return V{x.c, p.x, p.y}; };
    auto small = [&] { for (const V& x : m) if (std::fabs(x.x) > 1e6 || std::fabs(x.y) > 1e6) return false; return true; };
    switch (q.below(36)) {
      case 28: case 29: case 30: case 31: case 32: case 33: composite(o, m, other, om, q); break;
      case 34: { note("add_reversed_path"); if (n + om.size() > 600 || !small()) break; BLPathReverseMode md = q.chance(1, 2) ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE; M w; bool ok = reversed(om, md == BL_PATH_REVERSE_MODE_SEPARATE, w); if (!ok) break; if (did("add_reversed_path", true, [&] { return o.add_reversed_path(other, md); })) m.insert(m.end(), w.begin(), w.end()); break; }
      case 35: { note("stroke_to_sink"); sink(o, m, q); break; }
      case 0: note("move_to"); if (did("move_to", true, [&] { return o.move_to(a); })) m.push_back(v(BL_PATH_CMD_MOVE, a)); break;
      case 1: case 2: note("line_to"); if (did("line_to", true, [&] { return o.line_to(a); })) m.push_back(v(BL_PATH_CMD_ON, a)); break;
      case 3: { std::vector<BLPoint> pts(rlen(q) % 80); for (auto& p : pts) p = P(); note(strf("poly_to %zu", pts.size())); if (did("poly_to", true, [&] { return o.poly_to(pts.data(), pts.size()); })) for (auto& p : pts) m.push_back(v(BL_PATH_CMD_ON, p)); break; }
      case 4: note("quad_to"); if (did("quad_to", true, [&] { return o.quad_to(a, b); })) { m.push_back(v(BL_PATH_CMD_QUAD, a)); m.push_back(v(BL_PATH_CMD_ON, b)); } break;
      case 5: note("cubic_to"); if (did("cubic_to", true, [&] { return o.cubic_to(a, b, c); })) { m.push_back(v(BL_PATH_CMD_CUBIC, a)); m.push_back(v(BL_PATH_CMD_CUBIC, b)); m.push_back(v(BL_PATH_CMD_ON, c)); } break;
      case 6: note("smooth_quad_to"); if (did("smooth_quad_to", open, [&] { return o.smooth_quad_to(b); })) { BLPoint p(m[n - 1].x, m[n - 1].y); if (n >= 2 && m[n - 2].c == BL_PATH_CMD_QUAD) p = BLPoint(p.x + (p.x - m[n - 2].x), p.y + (p.y - m[n - 2].y)); m.push_back(v(BL_PATH_CMD_QUAD, p)); m.push_back(v(BL_PATH_CMD_ON, b)); } break;
      case 7: note("smooth_cubic_to"); if (did("smooth_cubic_to", open, [&] { return o.smooth_cubic_to(b, c); })) { BLPoint p(m[n - 1].x, m[n - 1].y); if (n >= 2 && m[n - 2].c == BL_PATH_CMD_CUBIC) p = BLPoint(p.x + (p.x - m[n - 2].x), p.y + (p.y - m[n - 2].y)); m.push_back(v(BL_PATH_CMD_CUBIC, p)); m.push_back(v(BL_PATH_CMD_CUBIC, b)); m.push_back(v(BL_PATH_CMD_ON, c)); } break;
      case 8: case 9: note("close"); if (did("close", true, [&] { return o.close(); })) close_(m); break;
      case 10: note("add_box"); if (did("add_box", true, [&] { return o.add_box(BLBox(a.x, a.y, b.x, b.y), dir); })) box(m, a.x, a.y, b.x, b.y, cw); break;
      case 11: note("add_rect"); if (did("add_rect", true, [&] { return o.add_rect(BLRectI(int(a.x), int(a.y), int(b.x), int(b.y)), dir); })) box(m, a.x, a.y, a.x + b.x, a.y + b.y, cw); break;
      case 12: { size_t i = q.below(u32(n) + 1); u32 cmd = q.pick({u32(BL_PATH_CMD_PRESERVE), u32(BL_PATH_CMD_PRESERVE), u32(BL_PATH_CMD_ON), u32(BL_PATH_CMD_MOVE)}); note(strf("set_vertex_at %zu", i)); if (did("set_vertex_at", i < n, [&] { return o.set_vertex_at(i, cmd, a); })) m[i] = v(cmd == BL_PATH_CMD_PRESERVE ? m[i].c : u8(cmd), a); break; }
      case 13: note("add_path"); if (om.size() > 300) break; if (did("add_path", true, [&] { return o.add_path(other); })) m.insert(m.end(), om.begin(), om.end()); break;
      case 14: note("add_path range"); if (om.size() > 300) break; if (did("add_path", true, [&] { return o.add_path(other, rng(os, oe)); })) m.insert(m.end(), om.begin() + ocs, om.begin() + oce); break;
      case 15: note("add_path self"); if (n > 300) break; if (did("add_path", true, [&] { return o.add_path(o, rg); })) { M w(m.begin() + cs, m.begin() + ce); m.insert(m.end(), w.begin(), w.end()); } break;
      case 16: note("add_path translated"); if (om.size() > 300) break; if (did("add_path_translated", true, [&] { return o.add_path(other, rng(os, oe), a); })) for (size_t i = ocs; i < oce; i++) m.push_back(V{om[i].c, om[i].x + a.x, om[i].y + a.y}); break;
      case 17: note("add_path self translated"); if (n > 300) break; if (did("add_path_translated", true, [&] { return o.add_path(o, a); })) for (size_t i = 0; i < n; i++) m.push_back(V{m[i].c, m[i].x + a.x, m[i].y + a.y}); break;
      case 18: note("add_path transformed"); if (om.size() > 300 || !small()) break; if (did("add_path_transformed", true, [&] { return o.add_path(other, rng(os, oe), t); })) for (size_t i = ocs; i < oce; i++) m.push_back(map(om[i])); break;
      case 19: case 20: note(strf("remove_range %zu..%zu", s, e)); if (did("remove_range", true, [&] { return o.remove_range(rg); })) m.erase(m.begin() + cs, m.begin() + ce); break;
      case 21: note("translate"); if (did("translate", true, [&] { return o.translate(a); })) for (V& x : m) { x.x += a.x; x.y += a.y; } break;
      case 22: note("translate range"); if (did("translate", true, [&] { return o.translate(rg, a); })) for (size_t i = cs; i < ce; i++) { m[i].x += a.x; m[i].y += a.y; } break;
      case 23: note("transform"); if (!small()) break; if (q.chance(1, 2)) { if (did("transform", true, [&] { return o.transform(t); })) for (V& x : m) x = map(x); } else if (did("transform", true, [&] { return o.transform(rg, t); })) for (size_t i = cs; i < ce; i++) m[i] = map(m[i]); break;
      case 24: if (q.chance(1, 3)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); } break;
      case 25: note("shrink"); did("shrink", true, [&] { return o.shrink(); }); break;
      case 26: { size_t k = rlen(q); note(strf("reserve %zu", k)); if (did("reserve", true, [&] { return o.reserve(k); }) && o.capacity() < k) differs("capacity", "reserve() reserved less than asked"); break; }
      case 27: { BLModifyOp mo = q.pick({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); size_t k = rlen(q); u8* cc; BLPoint* vv; note(strf("modify_op %d %zu", int(mo), k)); if (did("modify_op", true, [&] { return o.modify_op(mo, k, &cc, &vv); })) { if (mo < BL_MODIFY_OP_APPEND_FIT) m.clear(); for (size_t i = 0; i < k; i++) { V x = v(i ? BL_PATH_CMD_ON : BL_PATH_CMD_MOVE, P()); cc[i] = x.c; vv[i] = BLPoint(x.x, x.y); m.push_back(x); } } break; }
    }
  }
};
// ---------------------------------------------------------------------------------------------------------- gradients
struct GradientK {
  struct S { double o; u64 c; bool operator==(const S& x) const { return o == x.o && c == x.c; } };
  struct M { u32 type = 0, ext = 0; double v[6] = {0, 0, 0, 0, 0, 0}; std::vector<S> s; double t[6] = {1, 0, 0, 1, 0, 0}; }; using O = BLGradient;
  static bool meq(const M& a, const M& b) { return a.type == b.type && a.ext == b.ext && !memcmp(a.v, b.v, sizeof a.v) && a.s == b.s && std::equal(a.t, a.t + 6, b.t); }
  static u64 c64(u32 c) { u64 r = 0; for (int i = 3; i >= 0; i--) r = (r << 16) | (((c >> (8 * i)) & 0xFF) * 0x101); return r; }
  static std::vector<u32> px(const BLGradient& g) { BLImage im; if (im.create(24, 3, BL_FORMAT_PRGB32)) harness_error("image"); BLContext ctx(im); ctx.clear_all(); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_all(g); ctx.end(); BLImageData d; im.get_data(&d); std::vector<u32> r; for (int y = 0; y < 3; y++) for (int x = 0; x < 24; x++) r.push_back(((u32*)((char*)d.pixel_data + y * d.stride))[x]); return r; }
  static void check(const O& o, const M& m, Rng& q) {
    if (u32(o.type()) != m.type || u32(o.extend_mode()) != m.ext) differs("type", "gradient has another type or extend mode"); for (int i = 0; i < 6; i++) if (o.value(i) != m.v[i]) differs("value", strf("gradient value %d is %g, expected %g", i, o.value(i), m.v[i]));
    const BLMatrix2D& t = o.transform(); const double* tm = (const double*)&t; for (int i = 0; i < 6; i++) if (tm[i] != m.t[i]) differs("transform", strf("gradient transform [%d] is %g, expected %g", i, tm[i], m.t[i])); if (o.transform_type() != t.type()) differs("transform_type", "transform_type() does not describe the transform");
    if (o.size() != m.s.size() || o.capacity() < o.size()) differs("size", strf("gradient has %zu stops, expected %zu", o.size(), m.s.size())); for (size_t i = 0; i < m.s.size(); i++) if (o.stop_at(i).offset != m.s[i].o || o.stop_at(i).rgba.value != m.s[i].c) differs("stop", strf("stop %zu is (%g, %016llx), expected (%g, %016llx)", i, o.stop_at(i).offset, (unsigned long long)o.stop_at(i).rgba.value, m.s[i].o, (unsigned long long)m.s[i].c));
    double off = ro(q); size_t want = SIZE_MAX; for (size_t i = m.s.size(); i-- > 0;) if (m.s[i].o == off) want = i; if (o.index_of_stop(off) != want) differs("index_of_stop", strf("index_of_stop(%g) is %zd, expected %zd", off, o.index_of_stop(off), want));
    if (q.chance(1, 6)) { BLGradient f; f.set_type(BLGradientType(m.type)); f.set_extend_mode(BLExtendMode(m.ext)); f.set_values(0, m.v, 6); f.set_transform(o.transform()); BLArray<BLGradientStop> ss; for (const S& s : m.s) if (f.add_stop(s.o, BLRgba64(s.c))) harness_error("add_stop");
      if (f.size() == m.s.size()) { if (!f.equals(o) || !o.equals(f)) differs("equals", "gradient does not equal a new one with the same content"); if (px(o) != px(f)) differs("rendering", "gradient renders differently from a new one with the same content"); count("rendered"); } }
  }
  static double ro(Rng& q) { return q.below(9) / 8.0; }
  static bool eq(const O& a, const O& b) { const double* x = (const double*)&a.transform(); const double* y = (const double*)&b.transform(); bool zeros = memcmp(x, y, 48) != 0; for (int i = 0; i < 6; i++) zeros = zeros && x[i] == y[i]; if (!zeros) return a.equals(b); BLGradient c; if (bl_gradient_assign_weak(&c, &b) || c.set_transform(a.transform())) harness_error("gradient"); return a.equals(c); } // -0 and 0 differ for equals()
  static BLResult deep(O& a, const O& b) { BLResult e = a.assign(b); return e ? e : a.reserve(b.capacity() + 1); }
  static void mul(double* t, const double* x) { double r[6] = {x[0] * t[0] + x[1] * t[2], x[0] * t[1] + x[1] * t[3], x[2] * t[0] + x[3] * t[2], x[2] * t[1] + x[3] * t[3], x[4] * t[0] + x[5] * t[2] + t[4], x[4] * t[1] + x[5] * t[3] + t[5]}; memcpy(t, r, sizeof r); }
  static void padd(std::vector<S>& s, double o, u64 c) { size_t i = 0; while (i < s.size() && s[i].o <= o) i++; if (i >= 2 && s[i - 1].o == o && s[i - 2].o == o) s[i - 1].c = c; else s.insert(s.begin() + i, S{o, c}); }
  static void op(O& o, M& m, const O&, const M&, Rng& q) {
    size_t n = m.s.size(); double off = q.chance(1, 12) ? q.pick({-0.5, 1.5, double(NAN)}) : ro(q); bool ok = off >= 0 && off <= 1; u32 c = u32(q.next()); u64 cc = q.next(); size_t i = q.below(u32(n) + 1);
    switch (q.below(20)) {
      case 0: case 1: case 2: note(strf("add_stop %g", off)); if (did("add_stop", ok, [&] { return o.add_stop(off, BLRgba32(c)); })) padd(m.s, off, c64(c)); break;
      case 3: case 4: note(strf("add_stop64 %g", off)); if (did("add_stop64", ok, [&] { return o.add_stop(off, BLRgba64(cc)); })) padd(m.s, off, cc); break;
      case 5: note(strf("remove_stop %zu", i)); if (i < n && did("remove_stop", true, [&] { return o.remove_stop(i); })) m.s.erase(m.s.begin() + i); break;
      case 6: { bool all = q.chance(1, 2); note(strf("remove_stop_by_offset %g %d", off, all)); if (did("remove_stop_by_offset", ok, [&] { return o.remove_stop_by_offset(off, all); })) for (size_t k = 0; k < m.s.size();) { if (m.s[k].o == off) { m.s.erase(m.s.begin() + k); if (!all) break; } else k++; } break; }
      case 7: { size_t e = i + q.below(u32(n) + 2); note(strf("remove_stops %zu..%zu", i, e)); if (did("remove_stops", true, [&] { return o.remove_stops(rng(i, e)); })) m.s.erase(m.s.begin() + i, m.s.begin() + std::min(e, n)); break; }
      case 8: { double a = ro(q), b = ro(q); if (a > b) std::swap(a, b); note(strf("remove_stops_by_offset %g..%g", a, b)); if (q.chance(1, 2)) break; if (did("remove_stops_by_offset", true, [&] { return o.remove_stops_by_offset(a, b); })) for (size_t k = 0; k < m.s.size();) if (m.s[k].o >= a && m.s[k].o <= b) m.s.erase(m.s.begin() + k); else k++; break; }
      case 9: case 10: note(strf("replace_stop %zu by %g", i, off)); if (did("replace_stop", ok && i < n, [&] { return o.replace_stop(i, off, BLRgba64(cc)); })) { if (m.s[i].o == off) m.s[i].c = cc; else { m.s.erase(m.s.begin() + i); padd(m.s, off, cc); } } break;
      case 11: case 12: { std::vector<BLGradientStop> st(q.below(9)); bool sorted = q.chance(1, 2), bad = false; for (auto& x : st) { x.offset = q.chance(1, 40) ? 2.0 : ro(q); bad |= x.offset > 1; x.rgba = BLRgba64(q.next()); } if (sorted) std::stable_sort(st.begin(), st.end(), [](const BLGradientStop& a, const BLGradientStop& b) { return a.offset < b.offset; });
        note(strf("assign_stops %zu%s", st.size(), sorted ? " sorted" : "")); for (auto& x : st) if (g_trace.size() < 4800) g_trace += strf("%g ", x.offset);
        if (did("assign_stops", !bad, [&] { return o.assign_stops(st.data(), st.size()); })) { std::stable_sort(st.begin(), st.end(), [](const BLGradientStop& a, const BLGradientStop& b) { return a.offset < b.offset; }); m.s.clear(); for (size_t k = 0; k < st.size(); k++) { bool first = k == 0 || st[k - 1].offset != st[k].offset, last = k + 1 == st.size() || st[k + 1].offset != st[k].offset; if (first || last) m.s.push_back(S{st[k].offset, st[k].rgba.value}); } } break; }
      case 13: note("reset_stops"); if (q.chance(1, 2)) break; if (did("reset_stops", true, [&] { return o.reset_stops(); })) m.s.clear(); break;
      case 14: { u32 t = q.below(4); note(strf("set_type %u", t)); if (did("set_type", t < 3, [&] { return o.set_type(BLGradientType(t)); })) m.type = t; t = q.below(4); note(strf("set_extend_mode %u", t)); if (did("set_extend_mode", t < 3, [&] { return o.set_extend_mode(BLExtendMode(t)); })) m.ext = t; break; }
      case 15: { size_t k = q.below(7); double x = q.range(-4, 40); note(strf("set_value %zu", k)); if (did("set_value", k < 6, [&] { return o.set_value(k, x); })) m.v[k] = x; break; }
      case 16: { size_t k = q.below(7), l = q.below(7); double x[7]; for (double& y : x) y = q.range(-4, 40); note(strf("set_values %zu x%zu", k, l)); if (did("set_values", k < 6 && k + l <= 6, [&] { return o.set_values(k, x, l); })) memcpy(m.v + k, x, l * 8); break; }
      case 17: { double x = q.range(-3, 3), y = q.range(-3, 3); switch (q.below(4)) {
          case 0: note("translate"); if (did("transform", true, [&] { return o.translate(x, y); })) { double w[6] = {1, 0, 0, 1, x, y}; mul(m.t, w); } break;
          case 1: { double f = q.pick({1.0, 2.0, -1.0, 0.5}); note("scale"); if (std::fabs(m.t[0]) + std::fabs(m.t[1]) > 64) break; if (did("transform", true, [&] { return o.scale(f, 1.0); })) { double w[6] = {f, 0, 0, 1, 0, 0}; mul(m.t, w); } break; }
          case 2: note("reset_transform"); if (did("transform", true, [&] { return o.reset_transform(); })) { double w[6] = {1, 0, 0, 1, 0, 0}; memcpy(m.t, w, sizeof w); } break;
          default: { double w[6] = {1, double(q.below(2)), 0, 1, x, y}; note("set_transform"); if (did("transform", true, [&] { return o.set_transform(BLMatrix2D(w[0], w[1], w[2], w[3], w[4], w[5])); })) memcpy(m.t, w, sizeof w); } } break; }
      case 18: note("shrink/reserve"); if (q.chance(1, 2)) did("shrink", true, [&] { return o.shrink(); }); else { size_t k = q.below(20); if (did("reserve", true, [&] { return o.reserve(k); }) && o.capacity() < k) differs("capacity", "reserve() reserved less than asked"); } break;
      case 19: if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m = M(); }
        else if (q.chance(1, 2)) { M w; double x[6]; for (double& y : x) y = q.range(-4, 40); u32 ty = q.below(3); w.type = ty; w.ext = q.below(3); size_t nv = ty == 0 ? 4 : ty == 1 ? 6 : 4; for (size_t k = 0; k < nv; k++) w.v[k] = x[k]; if (ty == 1) {} note(strf("create %u", ty)); BLMatrix2D mt(1, 0, 0, 1, 3, 4); std::vector<BLGradientStop> st; for (u32 k = q.below(4), j = 0; j < k; j++) { st.push_back(BLGradientStop(j / 4.0, BLRgba64(q.next()))); w.s.push_back(S{j / 4.0, st.back().rgba.value}); } bool tr = q.chance(1, 2); if (tr) { w.t[4] = 3; w.t[5] = 4; }
          if (did("create", true, [&] { return bl_gradient_create(&o, BLGradientType(ty), x, BLExtendMode(w.ext), st.data(), st.size(), tr ? &mt : nullptr); })) m = w; } break;
    }
  }
};
// ------------------------------------------------------------------------------------------------------ font settings
template<bool FEAT> struct SettingsK {
  using O = typename std::conditional<FEAT, BLFontFeatureSettings, BLFontVariationSettings>::type; using M = std::map<u32, double>;
  static std::vector<u32>& tags() { static std::vector<u32> t = [] { std::vector<u32> v; for (const char* s : {"aalt", "calt", "case", "clig", "dlig", "kern", "liga", "smcp", "zero", "ss01", "ss20", "cv01", "cv99", "salt", "swsh", "size", "wght", "wdth", "opsz", "ital", "slnt", "XXXX", "AAAA", "zzzz", "    ", "~~~~", "a  ~", "GRAD", "tnum", "frac"}) v.push_back(BL_MAKE_TAG(s[0], s[1], s[2], s[3])); return v; }(); return t; }
  static bool bit(u32 t) { switch (t) { case BL_MAKE_TAG('c','a','s','e'): case BL_MAKE_TAG('c','l','i','g'): case BL_MAKE_TAG('d','l','i','g'): case BL_MAKE_TAG('k','e','r','n'): case BL_MAKE_TAG('l','i','g','a'): case BL_MAKE_TAG('s','m','c','p'): case BL_MAKE_TAG('z','e','r','o'): case BL_MAKE_TAG('t','n','u','m'): case BL_MAKE_TAG('f','r','a','c'): return true; } return false; }
  static std::string tn(u32 t) { return std::string{char(t >> 24), char(t >> 16), char(t >> 8), char(t)}; }
  static void check(const O& o, const M& m, Rng& q) {
    if (o.size() != m.size() || o.is_empty() != m.empty()) differs("size", strf("settings have %zu items, expected %zu", o.size(), m.size()));
    typename std::conditional<FEAT, BLFontFeatureSettingsView, BLFontVariationSettingsView>::type v; if (o.get_view(&v) || v.size != m.size()) differs("view", "get_view() is wrong");
    size_t i = 0; for (auto& kv : m) { if (v.data[i].tag != kv.first || double(v.data[i].value) != kv.second) differs("view", strf("item %zu is '%s'=%g, expected '%s'=%g", i, tn(v.data[i].tag).c_str(), double(v.data[i].value), tn(kv.first).c_str(), kv.second)); i++; }
    for (int k = 0; k < 4; k++) { u32 t = tags()[q.below(u32(tags().size()))]; auto it = m.find(t); if (o.has_value(t) != (it != m.end())) differs("has_value", "has_value('" + tn(t) + "') is wrong"); auto x = o.get_value(t); if (it != m.end() ? double(x) != it->second : FEAT ? u32(x) != BL_FONT_FEATURE_INVALID_VALUE : x == x) differs("get_value", "get_value('" + tn(t) + "') is wrong"); }
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static bool meq(const M& a, const M& b) { return a == b; }
  static BLResult deep(O& a, const O& b) { return a.assign(b); }
  static void op(O& o, M& m, const O&, const M&, Rng& q) {
    u32 t = tags()[q.below(u32(tags().size()))]; if (q.chance(1, 20)) t = BL_MAKE_TAG('a', 'b', 5, 200);  bool tagok = t != BL_MAKE_TAG('a', 'b', 5, 200);
    switch (q.below(8)) {
      case 5: note("remove " + tn(t)); if (did("remove_value", tagok || true, [&] { return o.remove_value(t); })) m.erase(t); break;
      case 6: note("shrink"); if constexpr (FEAT) did("shrink", true, [&] { return bl_font_feature_settings_shrink(&o); }); else did("shrink", true, [&] { return bl_font_variation_settings_shrink(&o); }); break;
      case 7: if (q.chance(1, 3)) { note("clear"); if (did("clear", true, [&] { return o.clear(); })) m.clear(); } else if (q.chance(1, 4)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m.clear(); } break;
      default: if constexpr (FEAT) { u32 v = q.pick({0u, 1u, 1u, 2u, 15u, 16u, 300u, 65535u, 65536u}); note(strf("set %s=%u", tn(t).c_str(), v)); bool ok = tagok && v <= 65535 && !(bit(t) && v > 1); if (did("set_value", ok, [&] { return o.set_value(t, v); })) m[t] = v; }
        else { float v = q.pick({0.0f, 1.0f, 400.0f, 65535.0f, -3.5f, 1e6f}); note(strf("set %s=%g", tn(t).c_str(), v)); bool ok = tagok && v <= 65535; if (did("set_value", ok, [&] { return o.set_value(t, v); })) m[t] = v; } break;
    }
  }
};

// ------------------------------------------------------------------------------------------------------------ images
struct ImageK {
  using O = BLImage; struct M { int w = 0, h = 0; u32 f = 0; std::vector<u32> px; };
  static bool meq(const M& a, const M& b) { return a.w == b.w && a.h == b.h && a.f == b.f && a.px == b.px; }
  static u32 get(const BLImageData& d, int x, int y) { const u8* p = (const u8*)d.pixel_data + intptr_t(y) * d.stride; return d.format == BL_FORMAT_A8 ? p[x] : ((const u32*)p)[x]; }
  static void put(const BLImageData& d, int x, int y, u32 v) { u8* p = (u8*)d.pixel_data + intptr_t(y) * d.stride; if (d.format == BL_FORMAT_A8) p[x] = u8(v); else ((u32*)p)[x] = v; }
  static u32 rp(Rng& q, u32 f) { u32 a = q.pick({0u, 255u, 255u, q.below(256)}); if (f == BL_FORMAT_A8) return a; if (f == BL_FORMAT_XRGB32) return u32(q.next()); return a << 24 | q.below(a + 1) << 16 | q.below(a + 1) << 8 | q.below(a + 1); }
  static std::vector<u32> all(const O& o) { BLImageData d; o.get_data(&d); std::vector<u32> v; for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) v.push_back(get(d, x, y)); return v; }
  static void fresh(O& n, const M& m) { faults_here(false); if (!m.f) return; BLImageData d; if (n.create(m.w, m.h, BLFormat(m.f)) || n.make_mutable(&d)) harness_error("image"); for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) put(d, x, y, m.px[size_t(y) * m.w + x]); }
  static void check(const O& o, const M& m, Rng& q) {
    BLImageData d; if (o.get_data(&d) || d.size.w != m.w || d.size.h != m.h || d.format != m.f || o.width() != m.w || o.height() != m.h || u32(o.format()) != m.f || o.is_empty() != (m.f == 0)) differs("image", strf("image is %dx%d of format %u, expected %dx%d of format %u", d.size.w, d.size.h, d.format, m.w, m.h, m.f));
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (get(d, x, y) != m.px[size_t(y) * m.w + x]) differs("pixel", strf("pixel (%d, %d) of %dx%d, format %u, is %08x, expected %08x", x, y, m.w, m.h, m.f, get(d, x, y), m.px[size_t(y) * m.w + x]));
    if (q.chance(1, 4)) { O n; fresh(n, m); if (!n.equals(o) || !o.equals(n)) differs("equals", "image does not equal a new one with the same content"); if (m.f) { BLImageData nd; n.make_mutable(&nd); int x = q.chance(1, 2) ? m.w - 1 : int(q.below(u32(m.w))), y = q.chance(1, 2) ? m.h - 1 : int(q.below(u32(m.h))); put(nd, x, y, get(nd, x, y) ^ (m.f == BL_FORMAT_A8 ? 1u << q.below(8) : 1u << q.below(32))); if (n.equals(o) || o.equals(n)) differs("equals", strf("image equals another one which differs in pixel (%d, %d)", x, y)); } }
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static BLResult deep(O& a, const O& b) { return a.assign_deep(b); }
  static void fill(O& o, M& m, Rng& q) { faults_here(false); BLImageData d; const void* was = (o.get_data(&d), d.pixel_data); if (o.make_mutable(&d) || d.pixel_data != was) fail("create", "an image just created is not mutable; " + g_trace); for (size_t i = 0; i < m.px.size(); i++) { m.px[i] = rp(q, m.f); put(d, int(i) % m.w, int(i) / m.w, m.px[i]); } }
  static void op(O& o, M& m, const O& other, const M& om, Rng& q) {
    int w = int(1 + q.below(q.chance(1, 4) ? 70 : 9)), h = int(1 + q.below(9)); u32 f = q.pick({u32(BL_FORMAT_PRGB32), u32(BL_FORMAT_XRGB32), u32(BL_FORMAT_A8)}); M n; n.w = w; n.h = h; n.f = f; n.px.assign(size_t(w) * h, 0);
    auto own = [&](const char* what) { faults_here(false); BLImageData d; o.get_data(&d); const void* was = d.pixel_data; if (o.make_mutable(&d) || d.pixel_data != was) fail("shared", strf("the image still shares its pixels after %s; ", what) + g_trace); };
    switch (q.below(12)) {
      case 0: case 1: if (m.f && q.chance(1, 2)) { w = m.w; h = m.h; f = m.f; n.w = w; n.h = h; n.f = f; n.px.assign(size_t(w) * h, 0); } note(strf("create %dx%d/%u", w, h, f)); if (did("create", true, [&] { return o.create(w, h, BLFormat(f)); })) { m = n; fill(o, m, q); } break;
      case 2: { int bw = q.pick({0, -1, 65536, w, w}), bh = bw == w ? q.pick({0, -3, 65536}) : h; u32 bf = f; if (q.chance(1, 3)) { bw = w; bh = h; bf = q.pick({0u, 4u, 9u, 0xFFFFFFFFu}); } note(strf("create %dx%d/%u", bw, bh, bf)); did("create_bad", false, [&] { return o.create(bw, bh, BLFormat(bf)); }); break; }
      case 3: case 4: { size_t bpp = f == BL_FORMAT_A8 ? 1 : 4, row = size_t(w) * bpp; row += bpp * q.below(4); if (row % 4) row += 4 - row % 4; Ext* e = new Ext{user_alloc(row * h), row * h, 0, q.chance(1, 2), 0}; g_ext->push_back(e); memset(e->p, 0x5A, e->n); bool neg = q.chance(1, 3); BLImageData d; d.pixel_data = neg ? (char*)e->p + row * (h - 1) : (char*)e->p; d.stride = neg ? -intptr_t(row) : intptr_t(row); d.size = BLSizeI(w, h); d.format = f; for (size_t i = 0; i < n.px.size(); i++) { n.px[i] = rp(q, f); put(d, int(i) % w, int(i) / w, n.px[i]); } e->hash = hash_bytes(e->p, e->n);
        note(strf("create_from_data %dx%d/%u %s%s", w, h, f, e->ro ? "ro" : "rw", neg ? " bottom-up" : "")); void* base = d.pixel_data; Ext* ee = e; struct L { static void gone(void*, void*, void* user) noexcept { ext_gone(nullptr, nullptr, user); } }; if (did("create_from_data", true, [&] { return o.create_from_data(w, h, BLFormat(f), base, d.stride, e->ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, L::gone, ee); })) m = n; else if (!e->gone) { e->gone = 1; user_free(e->p); } break; }
      case 5: { note("make_mutable"); BLImageData d; if (did("make_mutable", true, [&] { return o.make_mutable(&d); }) && m.f) { for (u32 k = q.below(4); k-- > 0;) { int x = int(q.below(u32(m.w))), y = int(q.below(u32(m.h))); u32 v = rp(q, m.f); m.px[size_t(y) * m.w + x] = v; put(d, x, y, v); } } break; }
      case 6: { if (m.f == BL_FORMAT_XRGB32 && f == BL_FORMAT_A8) break; note(strf("convert to %u", f)); if (did("convert", m.f != 0, [&] { return o.convert(BLFormat(f)); })) { std::vector<u32> now = all(o); if (now.size() != m.px.size()) differs("convert", "convert() changed the size"); for (size_t i = 0; i < now.size(); i++) { u32 v = m.px[i], x = now[i]; if (m.f == f) {} else if (m.f == BL_FORMAT_A8) v = f == BL_FORMAT_PRGB32 ? v * 0x01010101u : 0xFF000000u | v * 0x010101u; else if (f == BL_FORMAT_A8) v >>= 24; else if (f == BL_FORMAT_PRGB32) v |= 0xFF000000u; else v = (v & 0xFFFFFF) | (x & 0xFF000000u); m.px[i] = v; } m.f = f; } break; } // the unused byte of XRGB32 is not specified
      case 7: note("assign_deep"); if (q.chance(1, 4)) { if (did("assign_deep", true, [&] { return o.assign_deep(o); })) own("assign_deep() to itself"); } else if (did("assign_deep", true, [&] { return o.assign_deep(other); })) { m = om; own("assign_deep()"); } break;
      case 8: if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m = M(); } break;
      case 9: { bool self = q.chance(1, 2); const M& sm = self ? m : om; BLImageScaleFilter sf = q.pick({BL_IMAGE_SCALE_FILTER_NEAREST, BL_IMAGE_SCALE_FILTER_BILINEAR, BL_IMAGE_SCALE_FILTER_BICUBIC, BL_IMAGE_SCALE_FILTER_LANCZOS}); if (q.chance(1, 4)) h = sm.h ? sm.h : 1; else if (q.chance(1, 4)) w = sm.w ? sm.w : 1; O a, b; fresh(a, sm); if (BLImage::scale(b, a, BLSizeI(w, h), sf)) fail("result:scale", "scale() of a new image failed; " + g_trace); note(strf("scale %s to %dx%d/%d", self ? "itself" : "other", w, h, int(sf)));
        if (did("scale", true, [&] { return BLImage::scale(o, self ? o : other, BLSizeI(w, h), sf); })) { M t; t.f = sm.f; t.w = b.width(); t.h = b.height(); if (t.f && (t.w != w || t.h != h)) differs("scale", "scale() produced another size"); t.px = all(b); m = t; } else { // the destination may have been created already
          BLImageData d; o.get_data(&d); m.w = d.size.w; m.h = d.size.h; m.f = d.format; m.px = all(o); } break; }
      case 10: case 11: if (m.f) { int x = int(q.below(u32(m.w))), y = int(q.below(u32(m.h))); int rw = 1 + int(q.below(u32(m.w - x))), rh = 1 + int(q.below(u32(m.h - y))); u32 c = 0xFF000000u | u32(q.next()); note(strf("fill rectangle %d,%d %dx%d", x, y, rw, rh)); bool drawn = false;
        if (did("draw", true, [&] { BLContext ctx; BLResult e = ctx.begin(o); if (e) return e; e = ctx.set_comp_op(BL_COMP_OP_SRC_COPY); if (!e) e = ctx.fill_rect(BLRectI(x, y, rw, rh), BLRgba32(c)); drawn = !e; BLResult e2 = ctx.end(); return e ? e : e2; }) || drawn) for (int yy = y; yy < y + rh; yy++) for (int xx = x; xx < x + rw; xx++) m.px[size_t(yy) * m.w + xx] = m.f == BL_FORMAT_A8 ? 255 : c; } break;
    }
  }
};
// ---------------------------------------------------------------------------------------------------------- patterns
struct PatternK {
  using O = BLPattern; struct M { u32 id = 0; BLRectI a{0, 0, 0, 0}; u32 ext = BL_EXTEND_MODE_REPEAT; BLMatrix2D t = BLMatrix2D::make_identity(); };
  static bool meq(const M& a, const M& b) { return a.id == b.id && a.a == b.a && a.ext == b.ext && a.t == b.t; }
  static BLSizeI size(u32 id) { return id ? BLSizeI(int(3 + id * 5 % 7), int(4 + id * 3 % 5)) : BLSizeI(0, 0); }
  static void image(BLImage& im, u32 id) { faults_here(false); if (!id) return; ImageK::M m; m.w = size(id).w; m.h = size(id).h; m.f = id % 3 + 1; for (int i = 0; i < m.w * m.h; i++) { u32 v = u32(mix2(id / 2, u64(i) * (id % 2 + 1))); m.px.push_back(m.f == BL_FORMAT_A8 ? v & 255 : 0xFF000000u | v); } ImageK::fresh(im, m); }
  static BLRectI whole(u32 id) { return BLRectI(0, 0, size(id).w, size(id).h); }
  static void check(const O& o, const M& m, Rng& q) {
    if (u32(o.extend_mode()) != m.ext || u32(bl_pattern_get_extend_mode(&o)) != m.ext) differs("extend_mode", strf("extend mode of a pattern is %u, expected %u", u32(o.extend_mode()), m.ext)); BLRectI a = o.area(); if (!(a == m.a)) differs("area", strf("area of a pattern is %d,%d %dx%d, expected %d,%d %dx%d", a.x, a.y, a.w, a.h, m.a.x, m.a.y, m.a.w, m.a.h));
    BLMatrix2D t = o.transform(); if (!(t == m.t)) differs("transform", strf("transform of a pattern is [%g %g %g %g %g %g], expected [%g %g %g %g %g %g]", t.m00, t.m01, t.m10, t.m11, t.m20, t.m21, m.t.m00, m.t.m01, m.t.m10, m.t.m11, m.t.m20, m.t.m21)); if (o.transform_type() != t.type()) differs("transform_type", "transform_type() does not describe the transform");
    BLImage im; image(im, m.id); BLImage got = o.get_image(); if (!got.equals(im)) differs("image", strf("pattern holds another image than number %u", m.id));
    if (q.chance(1, 5)) { BLPattern n; if (bl_pattern_create(&n, &im, &m.a, BLExtendMode(m.ext), &m.t)) harness_error("pattern"); if (!n.equals(o) || !o.equals(n)) differs("equals", "pattern does not equal a new one with the same content"); u32 k = q.below(3); if (k == 0) n.set_extend_mode(BLExtendMode((m.ext + 1) % 9)); else if (k == 1) n.set_transform(BLMatrix2D(m.t.m00, m.t.m01, m.t.m10, m.t.m11, m.t.m20, m.t.m21 + 1)); else { BLImage x; image(x, m.id + 1); n.set_image(x); } if (n.equals(o) || o.equals(n)) differs("equals", "pattern equals another one with different content"); }
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static BLResult deep(O& a, const O& b) { return bl_pattern_assign_deep(&a, &b); }
  static BLRectI area(Rng& q, u32 id, bool& ok) { BLSizeI s = size(id); int x = int(q.below(u32(s.w) + 1)), y = int(q.below(u32(s.h) + 1)), w = int(q.below(u32(s.w) + 2)), h = int(q.below(u32(s.h) + 2)); if (q.chance(1, 2)) { x = s.w ? x % s.w : 0; y = s.h ? y % s.h : 0; w = std::min(w, s.w - x); h = std::min(h, s.h - y); } if (q.chance(1, 12)) x = -1; BLRectI a(x, y, w, h); ok = x >= 0 && y >= 0 && x < s.w && y < s.h && w <= s.w - x && h <= s.h - y; return a; }
  static void op(O& o, M& m, const O& other, const M& om, Rng& q) {
    u32 id = q.below(7); bool ok; BLRectI a = area(q, id, ok); u32 ext = q.below(10); BLMatrix2D t(q.pick({1.0, 1.0, 2.0, 0.5}), double(q.below(2)), double(q.below(2)) * 0.5, 1.0, q.range(-3, 3), q.range(-3, 3)); if (q.chance(1, 3)) t = BLMatrix2D(1, 0, 0, 1, q.range(0, 1), 0); BLImage im; image(im, id); double x = q.range(-3, 3), y = q.range(-3, 3);
    switch (q.below(12)) {
      case 0: { bool ha = q.chance(1, 2), ht = q.chance(1, 2); ok = (!ha || ok || a == whole(id)) && ext < 9; note(strf("create image %u%s%s extend %u", id, ha ? " area" : "", ht ? " transform" : "", ext)); if (did("create", ok, [&] { return bl_pattern_create(&o, &im, ha ? &a : nullptr, BLExtendMode(ext), ht ? &t : nullptr); })) { m.id = id; m.a = ha ? a : whole(id); m.ext = ext; m.t = ht ? t : BLMatrix2D::make_identity(); } break; }
      case 1: note(strf("set_image %u", id)); if (did("set_image", true, [&] { return o.set_image(im); })) { m.id = id; m.a = whole(id); } break;
      case 2: note(strf("set_image %u area", id)); if (did("set_image", ok || a == whole(id), [&] { return o.set_image(im, a); })) { m.id = id; m.a = a; } break;
      case 3: note("reset_image"); if (q.chance(1, 2)) break; if (did("reset_image", true, [&] { return o.reset_image(); })) { m.id = 0; m.a = whole(0); } break;
      case 4: case 5: a = area(q, m.id, ok); note(strf("set_area %d,%d %dx%d", a.x, a.y, a.w, a.h)); if (did("set_area", ok, [&] { return o.set_area(a); })) m.a = a; break;
      case 6: note("reset_area"); if (did("reset_area", true, [&] { return o.reset_area(); })) m.a = whole(m.id); break;
      case 7: note(strf("set_extend_mode %u", ext)); if (did("set_extend_mode", ext < 9, [&] { return q.chance(1, 2) ? o.set_extend_mode(BLExtendMode(ext)) : bl_pattern_set_extend_mode(&o, BLExtendMode(ext)); })) m.ext = ext; break;
      case 8: note("set_transform"); if (did("transform", true, [&] { return o.set_transform(t); })) m.t = t; break;
      case 9: { u32 k = q.below(6); note(strf("transform %u", k)); BLMatrix2D w = m.t; if (std::fabs(w.m00) + std::fabs(w.m11) > 64) k = 2; BLResult e = BL_SUCCESS; bool done = did("transform", true, [&] { switch (k) { case 0: return o.translate(x, y); case 1: return o.scale(2.0, 1.0); case 2: return o.reset_transform(); case 3: return o.post_translate(x, y); case 4: return o.rotate(0.5); default: return o.apply_transform(t); } }); (void)e; if (done) { switch (k) { case 0: w.translate(x, y); break; case 1: w.scale(2.0, 1.0); break; case 2: w.reset(); break; case 3: w.post_translate(x, y); break; case 4: w.rotate(0.5); break; default: w.transform(t); } m.t = w; } break; }
      case 10: note("assign_deep"); if (did("assign_deep", true, [&] { return bl_pattern_assign_deep(&o, &other); })) m = om; break;
      case 11: if (q.chance(1, 3)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m = M(); } break;
    }
  }
};
// ---------------------------------------------------------------------------------------------------------- variants
struct VarK {
  using O = BLVar; enum Kind { NUL, BOOL, I64, U64, DBL, C32, C64, CF, STR };
  struct M { int k = NUL; i64 i = 0; u64 u = 0; double d = 0; float c[4] = {0, 0, 0, 0}; std::string s; };
  static bool num(const M& m) { return m.k >= BOOL && m.k <= DBL; }
  static long double val(const M& m) { return m.k == BOOL || m.k == U64 ? (long double)m.u : m.k == I64 ? (long double)m.i : (long double)m.d; } // exact: 64 bits of mantissa
  static bool nan(const M& m) { return m.k == DBL && m.d != m.d; }
  static bool meq(const M& a, const M& b) {
    if (num(a) && num(b)) return nan(a) || nan(b) ? nan(a) && nan(b) : val(a) == val(b);
    if (a.k != b.k) return false; if (a.k == STR) return a.s == b.s; if (a.k == C32 || a.k == C64) return a.u == b.u; if (a.k == CF) return !memcmp(a.c, b.c, 16); return true;
  }
  static BLObjectType type(int k) { static const BLObjectType t[] = {BL_OBJECT_TYPE_NULL, BL_OBJECT_TYPE_BOOL, BL_OBJECT_TYPE_INT64, BL_OBJECT_TYPE_UINT64, BL_OBJECT_TYPE_DOUBLE, BL_OBJECT_TYPE_RGBA32, BL_OBJECT_TYPE_RGBA64, BL_OBJECT_TYPE_RGBA, BL_OBJECT_TYPE_STRING}; return t[k]; }
  template<class I> static void conv(const M& m, const char* name, BLResult e, I got, I lo, I hi) {
    if (m.k == NUL || num(m)) { I want = 0; bool ok = true; if (m.k == NUL) {} else if (nan(m)) ok = false; else { long double v = val(m), t = std::truncl(v); if (v < (long double)lo) { want = lo; ok = false; } else if (v > (long double)hi) { want = hi; ok = false; } else { want = I(t); ok = t == v; } } if (got != want || (e == BL_SUCCESS) != ok) differs("convert", strf("%s() of %s returned 0x%x, value %lld, expected %s, value %lld", name, show(m).c_str(), e, (long long)got, ok ? "success" : "an error", (long long)want)); }
    else if (!e || got != 0) differs("convert", strf("%s() of %s returned 0x%x", name, show(m).c_str(), e));
  }
  static std::string show(const M& m) { switch (m.k) { case NUL: return "null"; case BOOL: return m.u ? "true" : "false"; case I64: return strf("int %lld", (long long)m.i); case U64: return strf("uint %llu", (unsigned long long)m.u); case DBL: return strf("double %.17g", m.d); case STR: return "\"" + m.s.substr(0, 40) + "\""; case CF: return strf("rgba(%g, %g, %g, %g)", m.c[0], m.c[1], m.c[2], m.c[3]); default: return strf("colour %llx", (unsigned long long)m.u); } }
  static u64 up(u32 c) { u64 r = 0; for (int i = 3; i >= 0; i--) r = (r << 16) | (((c >> (8 * i)) & 0xFF) * 0x101); return r; }
  static M other(Rng& q, const M& m) { M n = value(q); if (q.chance(1, 2)) return n; n = m; if (num(m) && !nan(m)) { long double v = val(m); switch (q.below(4)) { case 0: if (v == 0 || v == 1) { n.k = BOOL; n.u = v != 0; } break; case 1: if (v >= INT64_MIN && v <= INT64_MAX && v == std::truncl(v)) { n.k = I64; n.i = i64(v); } break; case 2: if (v >= 0 && v <= UINT64_MAX && v == std::truncl(v)) { n.k = U64; n.u = u64(v); } break; default: n.k = DBL; n.d = double(v); } } return n; }
  static void check(const O& o, const M& m, Rng& q) {
    if (o.type() != type(m.k) || bl_var_get_type(&o) != type(m.k)) differs("type", strf("variant %s has type %u", show(m).c_str(), u32(o.type())));
    if (o.is_null() != (m.k == NUL) || o.is_bool() != (m.k == BOOL) || o.is_int64() != (m.k == I64) || o.is_uint64() != (m.k == U64) || o.is_double() != (m.k == DBL) || o.is_rgba() != (m.k == CF) || o.is_rgba32() != (m.k == C32) || o.is_rgba64() != (m.k == C64) || o.is_string() != (m.k == STR)) differs("type", "one of is_...() is wrong for " + show(m));
    if (m.k == STR && !(o.as<BLString>().equals(m.s.c_str()))) differs("string", "string of a variant is wrong"); if (m.k == C32 && o.as<BLRgba32>().value != u32(m.u)) differs("colour", "colour of a variant is wrong"); if (m.k == C64 && o.as<BLRgba64>().value != m.u) differs("colour", "colour of a variant is wrong"); if (m.k == CF && memcmp(&o.as<BLRgba>(), m.c, 16)) differs("colour", "colour of a variant is wrong");
    { int32_t v = 77; BLResult e = o.to_int32(&v); conv<int32_t>(m, "to_int32", e, v, INT32_MIN, INT32_MAX); } { uint32_t v = 77; BLResult e = o.to_uint32(&v); conv<uint32_t>(m, "to_uint32", e, v, 0, UINT32_MAX); } { int64_t v = 77; BLResult e = o.to_int64(&v); conv<int64_t>(m, "to_int64", e, v, INT64_MIN, INT64_MAX); } { uint64_t v = 77; BLResult e = o.to_uint64(&v); conv<uint64_t>(m, "to_uint64", e, v, 0, UINT64_MAX); }
    { double v = 77; BLResult e = o.to_double(&v); if (m.k == NUL || num(m)) { double w = m.k == NUL ? 0.0 : double(val(m)); bool ok = m.k == NUL || nan(m) || (long double)w == val(m); if ((nan(m) ? v == v : v != w) || (e == BL_SUCCESS) != ok) differs("convert", strf("to_double() of %s returned 0x%x, value %.17g", show(m).c_str(), e, v)); } else if (!e || v != 0) differs("convert", "to_double() of " + show(m) + " did not fail"); }
    { bool v = q.chance(1, 2); BLResult e = o.to_bool(&v); bool want = num(m) ? !nan(m) && val(m) != 0 : m.k == STR ? !m.s.empty() : false, ok = m.k <= DBL || m.k == STR; if (v != want || (e == BL_SUCCESS) != ok) differs("convert", strf("to_bool() of %s returned 0x%x, %s", show(m).c_str(), e, v ? "true" : "false")); }
    { BLRgba32 a(77); BLRgba64 b(77); BLRgba c(7, 7, 7, 7); BLResult ea = o.to_rgba32(&a), eb = o.to_rgba64(&b), ec = o.to_rgba(&c); bool col = m.k >= C32 && m.k <= CF; if ((ea == BL_SUCCESS) != col || (eb == BL_SUCCESS) != col || (ec == BL_SUCCESS) != col) differs("convert", "conversion of " + show(m) + " to a colour returned a wrong result");
      if (col) { BLRgba32 wa; BLRgba64 wb; BLRgba wc; if (m.k == C32) { wa = BLRgba32(u32(m.u)); wb = BLRgba64(up(u32(m.u))); wc = BLRgba(wa); } else if (m.k == C64) { wb = BLRgba64(m.u); wa = BLRgba32(u32(m.u >> 8 & 0xFF) | u32(m.u >> 24 & 0xFF) << 8 | u32(m.u >> 40 & 0xFF) << 16 | u32(m.u >> 56) << 24); wc = BLRgba(wb); } else { wc = BLRgba(m.c[0], m.c[1], m.c[2], m.c[3]); wa = wc.to_rgba32(); wb = wc.to_rgba64(); } if (a != wa || b != wb || memcmp(&c, &wc, 16)) differs("convert", "conversion of " + show(m) + strf(" to a colour is wrong (%08x, %016llx)", a.value, (unsigned long long)b.value)); } }
    M x = other(q, m); bool r = false, want = meq(m, x);
    switch (x.k) { case NUL: r = bl_var_equals_null(&o); break; case BOOL: r = o.equals(x.u != 0); break; case I64: r = o.equals(x.i); break; case U64: r = o.equals(x.u); break; case DBL: r = o.equals(x.d); break; case STR: { BLString s; faults_here(false); s.assign(x.s.data(), x.s.size()); r = o.equals(s); break; }
      case C32: r = o.equals(BLRgba32(u32(x.u))); if (m.k == C64) want = m.u == up(u32(x.u)); if (m.k == CF) want = r; break; case C64: r = o.equals(BLRgba64(x.u)); if (m.k == C32) want = x.u == up(u32(m.u)); if (m.k == CF) want = r; break; case CF: { BLRgba c(x.c[0], x.c[1], x.c[2], x.c[3]); r = o.equals(c); break; } }
    if (r != want) differs("equals", strf("%s is said to %s %s", show(m).c_str(), r ? "equal" : "differ from", show(x).c_str()));
    if (!o.strict_equals(o)) differs("strict_equals", "a variant does not strictly equal itself");
  }
  static bool eq(const O& a, const O& b) { return a.equals(b); }
  static BLResult deep(O& a, const O& b) { BLVar t(static_cast<const BLVar&>(b)); return a.assign(t); }
  static void moved(O& o, M& m) { o.reset(); m = M(); } // what a moved-from variant holds is not specified
  static M value(Rng& q) {
    M m; m.k = int(q.below(9)); i64 i = q.pick({i64(0), i64(1), i64(-1), i64(2), i64(127), i64(INT32_MAX), i64(INT32_MIN), i64(INT32_MAX) + 1, i64(INT32_MIN) - 1, i64(UINT32_MAX), i64(UINT32_MAX) + 1, i64(1) << 53, (i64(1) << 53) + 1, i64(INT64_MAX), i64(INT64_MIN), i64(INT64_MIN) + 1, i64(INT64_MAX) - 1023, i64(q.next())});
    switch (m.k) { case BOOL: m.u = q.below(2); break; case I64: m.i = i; break; case U64: m.u = q.chance(1, 3) ? q.pick({u64(UINT64_MAX), u64(1) << 63, (u64(1) << 63) + 1, u64(UINT64_MAX) - 2047}) : u64(i); break;
      case DBL: m.d = q.chance(1, 2) ? double(i) : q.pick({0.0, -0.0, 0.5, -0.5, 1.5, 1e300, -1e300, double(INFINITY), -double(INFINITY), double(NAN), 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0, 4294967295.5, 2147483647.5, -2147483648.5, 0.1, 9223372036854774784.0, 18446744073709549568.0}); break;
      case C32: m.u = u32(q.chance(1, 3) ? 0xFF000000u : q.next()); break; case C64: m.u = q.chance(1, 3) ? up(u32(q.next())) : q.next(); break;
      case CF: for (float& c : m.c) c = q.pick({0.0f, 1.0f, 0.5f, float(q.below(256)) / 255.0f, 2.0f}); break;
      case STR: m.s = StringK::rs(q); break; }
    return m;
  }
  static void op(O& o, M& m, const O& oo, const M& om, Rng& q) {
    M n = value(q); if (q.chance(1, 12)) { note("reset"); if (did("reset", true, [&] { return o.reset(); })) m = M(); return; } note(show(n));
    bool made = false, nw = q.chance(1, 3); (void)oo; (void)om;
    auto as = [&](auto&& v) { if (nw) { made = did("init", true, [&] { BLVar t(v); return o.assign(std::move(t)); }); } else made = did("assign", true, [&] { return o.assign(v); }); };
    switch (n.k) { case NUL: made = did("assign_null", true, [&] { return bl_var_assign_null(&o); }); break; case BOOL: as(n.u != 0); break; case I64: if (q.chance(1, 2) && n.i == int32_t(n.i)) as(int32_t(n.i)); else as(n.i); break; case U64: if (q.chance(1, 2) && n.u == uint32_t(n.u)) as(uint32_t(n.u)); else as(n.u); break; case DBL: as(n.d); break; case C32: as(BLRgba32(u32(n.u))); break; case C64: as(BLRgba64(n.u)); break;
      case CF: { BLRgba c(n.c[0], n.c[1], n.c[2], n.c[3]); if (q.chance(1, 6)) { c.a = q.pick({-1.0f, -2.0f, -0.0f, -1e30f}); n.c[3] = 0; } as(c); break; }
      case STR: { BLString s; faults_here(false); s.assign(n.s.data(), n.s.size()); as(s); break; } }
    if (made) m = n;
  }
};

template<class K, class = void> struct Moved { static void set(typename K::O&, typename K::M& m) { m = typename K::M(); } };
template<class K> struct Moved<K, decltype(K::moved(std::declval<typename K::O&>(), std::declval<typename K::M&>()))> { static void set(typename K::O& o, typename K::M& m) { K::moved(o, m); } };
template<class K, class = void> struct Pair { static void run(const typename K::O&, const typename K::M&, const typename K::O&, const typename K::M&) {} };
template<class K> struct Pair<K, decltype(K::pair(std::declval<const typename K::O&>(), std::declval<const typename K::M&>(), std::declval<const typename K::O&>(), std::declval<const typename K::M&>()))> { static void run(const typename K::O& a, const typename K::M& x, const typename K::O& b, const typename K::M& y) { K::pair(a, x, b, y); } };

template<class K> void drive(RunEnv& env, Rng& r, const char* kind) {
  constexpr u32 N = 3; typename K::O* o[N]; typename K::M m[N]; for (u32 i = 0; i < N; i++) o[i] = new typename K::O();
  u32 nops = u32(r.range(4, 60)); set_nops(nops); note(std::string(kind) + ":");
  for (u32 k = 0; k < nops; k++) {
    u64 s = mix2(env.plan.seed, k); if (!op_enabled(k)) continue; Rng q(mix2(s, 7)); op_begin(k); u32 i = q.below(N), j = (i + 1 + q.below(N - 1)) % N; if (g_trace.size() < 5000) g_trace += strf("#%u ", i);
    switch (q.below(10)) {
      case 0: note(strf("= #%u", j)); if (did("assign", true, [&] { return o[i]->assign(*o[j]); })) m[i] = m[j]; break;
      case 1: { u32 w = q.below(5);
        if (w == 0) { note(strf("= move #%u", j)); if (did("assign_move", true, [&] { return o[i]->assign(std::move(*o[j])); })) { m[i] = m[j]; Moved<K>::set(*o[j], m[j]); } }
        else if (w == 1) { note(strf("swap #%u", j)); o[i]->swap(*o[j]); std::swap(m[i], m[j]); }
        else if (w == 2) { note(strf("copy of #%u", j)); typename K::O* x = new typename K::O(*o[j]); delete o[i]; o[i] = x; m[i] = m[j]; }
        else if (w == 3) { note(strf("moved from #%u", j)); typename K::O* x = new typename K::O(std::move(*o[j])); delete o[i]; o[i] = x; m[i] = m[j]; m[j] = typename K::M(); }
        else { note("= self"); if (did("assign_self", true, [&] { return o[i]->assign(*o[i]); })) {} } break; }
      case 2: { note(strf("deep = #%u", j)); typename K::O* x = new typename K::O(); BLResult e = K::deep(*x, *o[j]); if (e) { delete x; fail("result:deep", strf("deep copy failed with 0x%x; ", e) + g_trace); } delete o[i]; o[i] = x; m[i] = m[j]; break; }
      default: K::op(*o[i], m[i], *o[j], m[j], q); break;
    }
    for (u32 a = 0; a < N; a++) K::check(*o[a], m[a], q);
    if (K::eq(*o[i], *o[j]) != K::meq(m[i], m[j])) differs("equals", strf("equals() of #%u and #%u is wrong", i, j)); if (!K::eq(*o[i], *o[i])) { bool nan_ok = false; (void)nan_ok; differs("equals", "an object does not equal itself"); }
    Pair<K>::run(*o[i], m[i], *o[j], m[j]);
    op_end();
  }
  for (u32 i = 0; i < N; i++) delete o[i];
}

// ---------------------------------------------------------------------------------------------------- glyph buffers
// Not copyable, therefore not part of drive<>: text in four encodings, glyphs, and what a font does with them.
struct GlyphBuf {
  struct M { std::vector<u32> c, cl; u32 flags = 0; bool placed = false, unknown = false; std::vector<BLGlyphPlacement> pl; int enc = -1; std::string src; };
  static void units(M& m, u32 c, size_t i, bool bad) { m.c.push_back(bad ? 0xFFFD : c); m.cl.push_back(u32(i)); if (bad) m.flags |= BL_GLYPH_RUN_FLAG_INVALID_TEXT; }
  static M text(int enc, const std::string& s) {
    M m; m.enc = enc; m.src = s; const u8* b = (const u8*)s.data(); size_t n = s.size();
    if (enc == 0) for (size_t i = 0; i < n; i++) units(m, b[i], i, false);
    if (enc == 1) for (size_t i = 0; i < n;) { u32 c = b[i]; size_t k = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0; bool bad = k == 0 || i + k > n; u32 v = k == 1 ? c : k == 2 ? c & 31 : k == 3 ? c & 15 : c & 7; for (size_t j = 1; j < k && !bad; j++) { if ((b[i + j] & 0xC0) != 0x80) bad = true; v = v << 6 | (b[i + j] & 63); } if (!bad && ((k == 3 && v < 0x800) || (k == 4 && (v < 0x10000 || v > 0x10FFFF)))) bad = true; units(m, v, i, bad); i += bad ? 1 : k; }
    if (enc == 2) for (size_t i = 0; i < n / 2;) { auto at = [&](size_t k) { return u32(b[k * 2] | b[k * 2 + 1] << 8); }; u32 c = at(i); if (c >= 0xD800 && c < 0xDC00 && i + 1 < n / 2 && at(i + 1) >= 0xDC00 && at(i + 1) < 0xE000) { units(m, 0x10000 + ((c - 0xD800) << 10) + (at(i + 1) - 0xDC00), i, false); i += 2; } else { units(m, c, i, false); i++; } }
    if (enc == 3) for (size_t i = 0; i < n / 4; i++) { u32 c; memcpy(&c, b + i * 4, 4); units(m, c, i, c > 0x10FFFF); }
    if (!m.c.empty()) m.flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT; return m;
  }
  static void put8(std::string& s, u32 c) { if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } }
  static void le(std::string& s, u32 c, int n) { for (int i = 0; i < n; i++) s += char(c >> (8 * i)); }
  static std::string random_text(Rng& q, int enc, size_t n, bool zero) {
    std::string s; bool valid = q.chance(1, 2);
    for (size_t i = 0; i < n; i++) { u32 c = q.chance(1, 2) ? 0x20 + q.below(0x5F) : q.pick({1u, 0x41u, 0x7Fu, 0x80u, 0xE9u, 0x7FFu, 0x800u, 0xFFFFu, 0xFB01u, 0x10000u, 0x1F600u, 0x10FFFFu, 0x20ACu}); if (!zero && q.chance(1, 20)) c = 0;
      switch (enc) { case 0: s += char(zero && !(c & 0xFF) ? 65 : c); break;
        case 1: if (valid || q.chance(3, 4)) { put8(s, c); if (!valid && q.chance(1, 6)) s.pop_back(); } else s += char(q.pick({0x80u, 0xBFu, 0xC0u, 0xC1u, 0xC2u, 0xDFu, 0xE0u, 0xEDu, 0xEFu, 0xF0u, 0xF4u, 0xF5u, 0xF8u, 0xFFu, 0x90u, 0x8Fu, 0x9Fu, 0xA0u})); break;
        case 2: if (c >= 0x10000) { le(s, 0xD800 + ((c - 0x10000) >> 10), 2); if (valid || q.chance(2, 3)) le(s, 0xDC00 + ((c - 0x10000) & 0x3FF), 2); } else le(s, valid || q.chance(3, 4) ? c : q.pick({0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu}), 2); break;
        case 3: le(s, valid || q.chance(3, 4) ? c : q.pick({0xD800u, 0x110000u, 0xFFFFFFFFu, 0x80000041u}), 4); break; } }
    return s;
  }
  static void check(const BLGlyphBuffer& g, M& m, const char* who) {
    if (m.unknown) { m.c.assign(g.content(), g.content() + g.size()); m.cl.clear(); if (g.size()) for (size_t i = 0; i < g.size(); i++) m.cl.push_back(g.info_data()[i].cluster); m.flags = g.flags(); m.placed = g.placement_data() != nullptr; m.pl.clear(); if (m.placed) m.pl.assign(g.placement_data(), g.placement_data() + g.size()); m.unknown = false; m.enc = -1; return; }
    if (g.size() != m.c.size() || g.is_empty() != m.c.empty() || bl_glyph_buffer_get_size(&g) != m.c.size()) differs("size", strf("%s has %zu items, expected %zu", who, g.size(), m.c.size()));
    for (size_t i = 0; i < m.c.size(); i++) if (g.content()[i] != m.c[i] || g.info_data()[i].cluster != m.cl[i]) differs("item", strf("item %zu of %zu of %s is %u (cluster %u), expected %u (cluster %u)", i, m.c.size(), who, g.content()[i], g.info_data()[i].cluster, m.c[i], m.cl[i]));
    if (g.flags() != m.flags) differs("flags", strf("flags of %s are 0x%x, expected 0x%x", who, g.flags(), m.flags));
    const BLGlyphRun& R = g.glyph_run(); if (R.size != m.c.size() || R.flags != m.flags || (R.size && R.glyph_data != (void*)g.content())) differs("glyph_run", "glyph_run() does not describe the content");
    if ((g.placement_data() != nullptr) != m.placed || (R.placement_data != nullptr) != m.placed || (R.placement_type != BL_GLYPH_PLACEMENT_TYPE_NONE) != m.placed) differs("placement", strf("%s has %s placements", who, m.placed ? "no" : "stale"));
    if (m.placed) for (size_t i = 0; i < m.c.size(); i++) if (memcmp((const void*)&g.placement_data()[i], (const void*)&m.pl[i], sizeof(BLGlyphPlacement))) differs("placement", strf("placement %zu of %s differs from a new buffer's", i, who));
  }
  static BLResult font_op(u32 w, const BLFont& f, BLGlyphBuffer& g) { if (w == 0) return f.map_text_to_glyphs(g); if (w == 1) { BLResult e = f.map_text_to_glyphs(g); return e ? e : f.position_glyphs(g); } return f.shape(g); }
  static void drive(RunEnv& env, Rng& r) {
    constexpr u32 N = 3; BLGlyphBuffer* o[N]; M m[N]; for (u32 i = 0; i < N; i++) o[i] = new BLGlyphBuffer(); u32 nops = u32(r.range(4, 60)); set_nops(nops); note("BLGlyphBuffer:");
    BLFontData fd; BLFontFace ff; BLFont font; faults_here(false); if (fd.create_from_data(res_font().data, res_font().size) || ff.create_from_data(fd, 0) || font.create_from_face(ff, 16.0f)) harness_error("font");
    for (u32 k = 0; k < nops; k++) { u64 s = mix2(env.plan.seed, k); if (!op_enabled(k)) continue; Rng q(mix2(s, 7)); op_begin(k); u32 i = q.below(N), j = (i + 1 + q.below(N - 1)) % N; if (g_trace.size() < 5000) g_trace += strf("#%u ", i); BLGlyphBuffer& g = *o[i]; size_t n = q.chance(1, 8) ? q.pick({63u, 64u, 65u, 127u, 128u, 129u, 192u, 193u}) : rlen(q);
      switch (q.below(12)) {
        case 0: note("clear"); if (did("clear", true, [&] { return g.clear(); })) m[i] = M(); break;
        case 1: if (q.chance(1, 2)) { note("reset"); if (did("reset", true, [&] { return g.reset(); })) m[i] = M(); } else { note(strf("moved from #%u", j)); BLGlyphBuffer* x = new BLGlyphBuffer(std::move(*o[j])); delete o[i]; o[i] = x; m[i] = m[j]; m[j] = M(); } break;
        case 2: { M w; std::vector<u32> v; for (size_t x = 0; x < n; x++) { v.push_back(u32(q.next())); w.c.push_back(v[x]); w.cl.push_back(u32(x)); } note(strf("set_glyphs %zu", n)); if (did("set_glyphs", true, [&] { return g.set_glyphs(v.data(), n); })) m[i] = w; break; }
        case 3: { size_t id = q.pick({2u, 4u, 4u, 2u, 0u, 1u, 3u, 8u}); bool ok = id == 2 || id == 4; size_t w = ok ? id : 4; intptr_t adv = intptr_t(w * q.pick({1u, 2u, 5u})); bool rev = q.chance(1, 4); M x; u8* buf = (u8*)user_alloc(n * size_t(adv) + 1); for (size_t t = 0; t < n * size_t(adv); t++) buf[t] = u8(q.next()); const u8* first = rev && n ? buf + (n - 1) * size_t(adv) : buf; if (rev) adv = -adv;
          for (size_t t = 0; t < n; t++) { u32 v = 0; memcpy(&v, first + intptr_t(t) * adv, w); x.c.push_back(v); x.cl.push_back(u32(t)); } note(strf("set_glyphs_from_struct %zu of %zu bytes, advance %d", n, id, int(adv))); if (did("set_glyphs_from_struct", ok, [&] { return g.set_glyphs_from_struct(first, n, id, adv); })) m[i] = x; user_free(buf); break; }
        case 4: case 5: if (m[i].enc >= 0 && (m[i].flags & BL_GLYPH_RUN_FLAG_UCS4_CONTENT)) { u32 w = q.below(3); M x = m[i]; BLGlyphBuffer f; if (f.set_text(x.src.data(), x.src.size() / (x.enc == 2 ? 2 : x.enc == 3 ? 4 : 1), BLTextEncoding(x.enc == 0 ? BL_TEXT_ENCODING_LATIN1 : x.enc == 1 ? BL_TEXT_ENCODING_UTF8 : x.enc == 2 ? BL_TEXT_ENCODING_UTF16 : BL_TEXT_ENCODING_UTF32))) harness_error("set_text");
            BLResult fe = font_op(w, font, f); if (fe) fail("result:font", strf("operation %u of a font failed with 0x%x; ", w, fe) + g_trace); note(strf("%s", w == 0 ? "map" : w == 1 ? "position" : "shape")); M y; y.unknown = true; check(f, y, ""); if (did("font", true, [&] { return font_op(w, font, g); })) m[i] = y; else m[i].unknown = true; break; } // falls through
        default: { int enc = int(q.below(4)); bool zero = q.chance(1, 3); std::string t = random_text(q, enc, n, zero); size_t unit = enc == 2 ? 2 : enc == 3 ? 4 : 1, len = t.size() / unit; u8* buf = (u8*)user_alloc(t.size() + (zero ? unit : 0) + (t.empty() && !zero)); memcpy(buf, t.data(), t.size()); if (zero) memset(buf + t.size(), 0, unit); bool bad = q.chance(1, 30); BLTextEncoding e = bad ? BLTextEncoding(BL_TEXT_ENCODING_MAX_VALUE + 1 + q.below(3)) : BLTextEncoding(enc == 0 ? BL_TEXT_ENCODING_LATIN1 : enc == 1 ? BL_TEXT_ENCODING_UTF8 : enc == 2 ? BL_TEXT_ENCODING_UTF16 : BL_TEXT_ENCODING_UTF32);
          note(strf("set_text %zu, encoding %d", len, enc)); if (did("set_text", !bad, [&] { return g.set_text(buf, zero ? SIZE_MAX : len, e); })) m[i] = text(enc, t); user_free(buf); break; }
      }
      for (u32 a = 0; a < N; a++) check(*o[a], m[a], strf("#%u", a).c_str()); op_end();
    }
    for (u32 i = 0; i < N; i++) delete o[i];
  }
};

void run(RunEnv& env) {
  Rng& r = env.rng; T.strategy = 0; T.sync_den = 0; tune_heap(r); faults_here(false); T.fault[F_ALLOC] = r.pick({0u, 3000u, 9000u, 20000u}); tuning_applied(); faults_on(true);
  g_trace.clear(); std::vector<Ext*> ext; g_ext = &ext; u64 mark = heap_mark(); g_hits = 0;
  switch (r.below(19)) {
    case 0: drive<ArrayK<uint8_t>>(env, r, "BLArray<uint8_t>"); count("kind_array"); break;
    case 1: drive<ArrayK<uint16_t>>(env, r, "BLArray<uint16_t>"); count("kind_array"); break;
    case 2: drive<ArrayK<uint32_t>>(env, r, "BLArray<uint32_t>"); count("kind_array"); break;
    case 3: drive<ArrayK<double>>(env, r, "BLArray<double>"); count("kind_array"); break;
    case 4: drive<ArrayK<BLString>>(env, r, "BLArray<BLString>"); count("kind_array_object"); break;
    case 5: case 6: drive<StringK>(env, r, "BLString"); count("kind_string"); break;
    case 7: drive<BitArrayK>(env, r, "BLBitArray"); count("kind_bit_array"); break;
    case 8: case 9: drive<BitSetK>(env, r, "BLBitSet"); count("kind_bit_set"); break;
    case 10: drive<PathK>(env, r, "BLPath"); count("kind_path"); break;
    case 11: drive<GradientK>(env, r, "BLGradient"); count("kind_gradient"); break;
    case 12: drive<SettingsK<true>>(env, r, "BLFontFeatureSettings"); count("kind_feature_settings"); break;
    case 13: drive<SettingsK<false>>(env, r, "BLFontVariationSettings"); count("kind_variation_settings"); break;
    case 14: GlyphBuf::drive(env, r); count("kind_glyph_buffer"); break;
    case 15: case 16: drive<ImageK>(env, r, "BLImage"); count("kind_image"); break;
    case 17: drive<PatternK>(env, r, "BLPattern"); count("kind_pattern"); break;
    case 18: drive<VarK>(env, r, "BLVar"); count("kind_variant"); break;
  }
  for (Ext* e : ext) { if (e->gone != 1) fail("external-kept", "external memory was never handed back; " + g_trace); delete e; } ext.clear(); ext.shrink_to_fit();
  if (g_hits) note_nontrivial(); out(hash_bytes(g_trace.data(), g_trace.size())); sample(g_trace.substr(0, 900)); g_trace.clear(); g_trace.shrink_to_fit();
  release_caches(); leak_check(mark, "container operations");
}
int reg = (register_check({"C01",
  "A run takes three objects of one container type (arrays of five item types, string, bit array, bit set, path, gradient, glyph buffer, image, pattern, variant, font feature or variation settings) next to plain reference models and applies up to 60 random operations, copies, moves and swaps; random allocations inside the library fail. After every operation the complete content and random queries of all three objects must equal the models: a failed operation changed nothing, a successful one did what it says, and no other object changed. Non-trivial: at least one allocation failed.",
  "real: all container types of the public API (instrumented for out-of-bounds accesses); simulated: heap with failing allocations; reference: models in the harness",
  run, nullptr}), 0);
}
