// T05: registries shared by threads (font managers, the list of codecs) act atomically; identities are unique.
#include "common.h"
#include "fontgen.h"
#include <algorithm>
#include <unordered_set>
using namespace sim; using namespace cm;
namespace {
// One completed call: [inv, res] are positions in the history.
struct Call { u32 thread = 0; u64 inv = 0, res = 0; u32 kind = 0; i64 a = 0, b = 0; BLResult e = 0; i64 r = 0; std::vector<int> list; bool oom = false; std::string text; };
// Is there an order of the calls, respecting the real time order, that a sequential object would answer like this (Wing and Gong)?
template<class S, class Step> bool linearizable(const std::vector<Call>& h, const S& init, Step step, u64* states) {
  size_t n = h.size(); std::set<std::pair<u64, std::string>> seen; std::function<bool(u64, const S&)> go = [&](u64 done, const S& s) -> bool {
    if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true; if (!seen.insert({done, s.key()}).second) return false; if (seen.size() > 400000) skip("linearization search too large");
    u64 min_res = ~0ull; for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) min_res = std::min(min_res, h[i].res);
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && h[i].inv < min_res) { S t = s; if (step(t, h[i]) && go(done | 1ull << i, t)) return true; } return false; };
  bool ok = go(0, init); *states = seen.size(); return ok;
}
std::string show(const std::vector<Call>& h) { std::vector<const Call*> v; for (auto& c : h) v.push_back(&c); std::sort(v.begin(), v.end(), [](auto* x, auto* y) { return x->inv < y->inv; }); std::string s; for (auto* c : v) s += strf("[t%u %llu-%llu] ", c->thread, (unsigned long long)c->inv, (unsigned long long)c->res) + c->text + "; "; return s; }
std::string fold(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }

// ---- font manager ----------------------------------------------------------------------------------------------------
struct FaceInfo { BLFontFace face; std::string fam; u32 style, weight, stretch; fg::Font src; };
struct FmState { std::vector<u8> in; std::string key() const { return std::string(in.begin(), in.end()); } };
struct Fm { std::vector<FaceInfo> f; std::vector<std::string> fams;
  // A face with the same family, style and weight as one that is present is not added.
  bool taken(const FmState& s, size_t i) const { for (size_t k = 0; k < f.size(); k++) if (s.in[k] && f[k].fam == f[i].fam && f[k].style == f[i].style && f[k].weight == f[i].weight) return true; return false; }
  std::vector<int> family(const FmState& s, const std::string& n) const { std::vector<int> v; for (size_t k = 0; k < f.size(); k++) if (s.in[k] && f[k].fam == n) v.push_back(int(k)); std::sort(v.begin(), v.end(), [&](int x, int y) { return std::make_pair(f[x].style, f[x].weight) < std::make_pair(f[y].style, f[y].weight); }); return v; }
  static u32 case_diff(const std::string& a, const std::string& b) { u32 n = 0; if (fold(a) != fold(b)) return 999; for (size_t i = 0; i < a.size(); i++) n += a[i] != b[i]; return n; }
  bool step(FmState& s, const Call& c, const std::vector<std::string>& names) const {
    if (c.oom) return true;
    switch (c.kind) {
      case 0: if (c.e) return false; if (!taken(s, size_t(c.a))) s.in[size_t(c.a)] = 1; return true;
      case 1: return c.r == s.in[size_t(c.a)];
      case 2: { i64 n = 0; for (u8 x : s.in) n += x; return c.r == n; }
      case 3: { std::set<std::string> u; for (size_t k = 0; k < f.size(); k++) if (s.in[k]) u.insert(f[k].fam); return c.r == i64(u.size()); }
      case 4: { const std::string& n = names[size_t(c.a)]; u32 st = u32(c.b) & 15, w = u32(c.b) >> 8 & 0xFFFF, sr = u32(c.b) >> 4 & 15; if (!w) w = 400; if (!sr) sr = 5; u32 best = 999, bs = 999; for (size_t k = 0; k < f.size(); k++) if (s.in[k]) best = std::min(best, case_diff(f[k].fam, n)); if (best == 999 || n.empty()) return c.e == BL_ERROR_FONT_NO_MATCH && c.r == -1;
        for (size_t k = 0; k < f.size(); k++) if (s.in[k] && case_diff(f[k].fam, n) == best) bs = std::min(bs, u32(std::abs(int(f[k].style) - int(st))));
        if (c.e || c.r < 0 || !s.in[size_t(c.r)]) return false; const FaceInfo& g = f[size_t(c.r)]; if (case_diff(g.fam, n) != best || u32(std::abs(int(g.style) - int(st))) != bs) return false;
        for (size_t k = 0; k < f.size(); k++) if (s.in[k] && case_diff(f[k].fam, n) == best && f[k].style == g.style && f[k].weight == w && f[k].stretch == sr) return g.weight == w && g.stretch == sr; return true; }
      default: { const std::string& n = names[size_t(c.a)]; u32 best = 999; for (size_t k = 0; k < f.size(); k++) if (s.in[k]) best = std::min(best, case_diff(f[k].fam, n)); if (best == 999 || n.empty()) return c.e == BL_ERROR_FONT_NO_MATCH && c.list.empty(); if (c.e) return false;
        for (size_t k = 0; k < f.size(); k++) if (s.in[k] && case_diff(f[k].fam, n) == best && family(s, f[k].fam) == c.list) return true; return false; }
    }
  }
};
fg::Bytes name_table(const std::string& fam, const std::string& sub) { fg::Bytes w; auto u16_ = [&](u32 v) { w.push_back(u8(v >> 8)); w.push_back(u8(v)); }; std::string str; std::vector<std::pair<u32, std::string>> v = {{1, fam}, {2, sub}, {4, fam + " " + sub}}; u16_(0); u16_(3); u16_(6 + 36); for (auto& x : v) { u16_(3); u16_(1); u16_(0x409); u16_(x.first); u16_(u32(x.second.size() * 2)); u16_(u32(str.size())); for (char c : x.second) { str.push_back(0); str.push_back(c); } } w.insert(w.end(), str.begin(), str.end()); return w; }
fg::Bytes os2_table(u32 weight, u32 width, u32 sel) { fg::Bytes w(96, 0); auto at = [&](size_t o, u32 v) { w[o] = u8(v >> 8); w[o + 1] = u8(v); }; at(0, 3); at(2, 500); at(4, weight); at(6, width); at(62, sel); at(64, 0x20); at(66, 0xFFFF); at(68, 700); return w; }
u32 tg(const char* s) { return u32(u8(s[0])) << 24 | u32(u8(s[1])) << 16 | u32(u8(s[2])) << 8 | u8(s[3]); }

void run_fm(RunEnv& env, u32 nu, u32 per, std::string* ds) {
  Rng& r = env.rng; Fm fm; u64 mark; u32 nfam = r.pick({1u, 2u, 3u, 8u, 20u}), nf = u32(r.range(2, 7)) + (nfam > 3 ? nfam : 0); std::vector<std::string> names; bool own_default = r.chance(1, 4), drop = r.chance(1, 3);
  fg::Font base; do base = fg::random_font(r); while (base.nglyphs > 40); static const char* fams[] = {"Alpha", "ALPHA", "alpha", "Beta Sans", "beta sans", "Gamma", "G"}; for (u32 k = 0; k < nfam; k++) fm.fams.push_back(k < 7 ? fams[(k + (nfam == 2 ? 0 : r.below(2))) % 7] : strf("Family %u", r.below(40)));
  names = fm.fams; names.push_back("aLPHa"); names.push_back("nothing"); names.push_back("family 7"); names.push_back("");
  mark = heap_mark();
  { for (u32 k = 0; k < nf; k++) { FaceInfo i; i.src = base; auto& t = i.src.tables; t.erase(std::remove_if(t.begin(), t.end(), [](fg::Table& x) { return x.tag == tg("name") || x.tag == tg("OS/2"); }), t.end()); t.push_back({tg("name"), name_table(fm.fams[r.below(nfam)], "Regular")}); t.push_back({tg("OS/2"), os2_table(r.pick({400u, 400u, 700u, 100u}), r.pick({5u, 5u, 3u}), r.pick({0u, 0u, 1u, 512u}))}); fg::serialize(r, i.src, false); fm.f.push_back(std::move(i)); }
    for (auto& i : fm.f) { BLFontData d; if (d.create_from_data(i.src.data.data(), i.src.data.size()) || i.face.create_from_data(d, 0)) harness_error("face"); i.fam = i.face.family_name().data(); i.style = i.face.style(); i.weight = i.face.weight(); i.stretch = i.face.stretch(); }
    for (size_t k = 0; k < fm.f.size(); k++) for (size_t j = 0; j < k; j++) if (fm.f[k].face.unique_id() == fm.f[j].face.unique_id()) fail("face-id", "two font faces have the same unique id");
    BLFontManager m; FmState init; init.in.assign(fm.f.size(), 0); if (!own_default) { if (m.create()) harness_error("manager"); if (r.chance(1, 2)) { size_t k = r.below(nf); if (m.add_face(fm.f[k].face)) harness_error("add"); init.in[k] = 1; } }
    std::vector<Call> hist; std::vector<std::vector<Call>> hists(nu); std::vector<BLFontManager> mine(nu); for (auto& x : mine) x = m; struct Snap { BLArray<BLFontFace> a; std::vector<int> v; }; auto index = [&](const BLFontFace& x) { for (size_t k = 0; k < fm.f.size(); k++) if (fm.f[k].face == x) return int(k); return -1; };
    faults_on(true);
    auto body = [&](u32 u) { faults_here(false); std::vector<Snap> snaps; BLFontManager& w = mine[u];
      for (u32 i = u * per; i < (u + 1) * per; i++) { if (!op_enabled(i)) continue; Rng q(mix3(env.plan.seed, 55, i)); op_begin(i); Call c; c.thread = u; c.kind = q.pick({0u, 0u, 0u, 1u, 2u, 3u, 4u, 4u, 5u, 5u}); BLFontFace out_face; BLArray<BLFontFace> out_list; u64 f0 = faults_fired_here();
        if (own_default && !w.is_valid() && c.kind != 0 && q.chance(1, 2)) c.kind = 0;
        bool invalid = false; faults_here(true); c.inv = event_seq();
        switch (c.kind) {
          case 0: c.a = q.below(nf); c.e = w.add_face(fm.f[size_t(c.a)].face); break;
          case 1: c.a = q.below(nf); c.r = w.has_face(fm.f[size_t(c.a)].face); break;
          case 2: c.r = i64(w.face_count()); break; case 3: c.r = i64(w.family_count()); break;
          case 4: { c.a = q.below(u32(names.size())); BLFontQueryProperties p; p.style = q.below(3); p.weight = q.pick({400u, 700u, 100u, 0u, 550u, 1000u}); p.stretch = q.pick({5u, 3u, 0u, 9u}); if (q.chance(1, 12)) { invalid = true; switch (q.below(3)) { case 0: p.style = 3; break; case 1: p.weight = 1001; break; default: p.stretch = 10; break; } } bool plain = !invalid && q.chance(1, 3); if (plain) { p.style = 0; p.weight = 400; p.stretch = 5; } c.b = i64(p.style | p.stretch << 4 | p.weight << 8); const std::string& n = names[size_t(c.a)];
            out_face = q.chance(1, 2) ? fm.f[0].face : BLFontFace(); BLFontFace before = out_face; c.e = plain ? (q.chance(1, 2) ? w.query_face(n.c_str(), out_face) : w.query_face(BLStringView{n.data(), n.size()}, out_face)) : w.query_face(n.c_str(), p, out_face); if (invalid) { if (c.e != BL_ERROR_INVALID_VALUE || !(out_face == before)) fail("invalid-query", strf("a query with invalid properties returned 0x%x", c.e)); } break; }
          default: c.a = q.below(u32(names.size())); if (q.chance(1, 2)) out_list.append(fm.f[0].face); c.e = w.query_faces_by_family_name(names[size_t(c.a)].c_str(), out_list); break; }
        c.res = event_seq(); faults_here(false); c.oom = c.e == BL_ERROR_OUT_OF_MEMORY; if (c.oom && faults_fired_here() == f0) fail("oom-without-fault", "out of memory was reported although no allocation failed"); if (c.oom) count("out_of_memory");
        if (c.kind == 4) c.r = out_face.is_valid() ? index(out_face) : -1; if (c.kind == 5) { for (auto& x : out_list) c.list.push_back(index(x)); if (!c.oom && !c.e) snaps.push_back({out_list, c.list}); }
        static const char* kn[] = {"add", "has", "face_count", "family_count", "query", "family"}; c.text = std::string(kn[c.kind]) + (c.kind < 2 ? strf("(%lld: %s %u/%u/%u)", (long long)c.a, fm.f[size_t(c.a)].fam.c_str(), fm.f[size_t(c.a)].style, fm.f[size_t(c.a)].weight, fm.f[size_t(c.a)].stretch) : c.kind >= 4 ? strf("(%s, %llx)", names[size_t(c.a)].c_str(), (unsigned long long)c.b) : std::string()) + strf(" = %x %lld", c.e, (long long)c.r); for (int x : c.list) c.text += strf(",%d", x);
        out(u64(c.r)); if (!invalid && !own_default) hists[u].push_back(c); else if (!invalid) { /* a default manager becomes a manager of its own on the first use */ if (c.kind == 0 && !c.e && !w.is_valid()) fail("default-manager", "add_face() succeeded but the manager is still the default one"); }
        for (auto& s : snaps) { std::vector<int> v; for (auto& x : s.a) v.push_back(index(x)); if (v != s.v) fail("result-changed", "the array a query returned changed afterwards"); } op_end(); }
      if (own_default && w.is_valid()) { bool any = false; for (auto& x : fm.f) any |= w.has_face(x.face); (void)any; } 
      if (drop) w.reset(); };
    std::vector<int> fs; for (u32 u = 0; u < nu; u++) fs.push_back(spawn(strf("user%u", u).c_str(), [&, u]() { body(u); })); if (drop) m.reset(); for (int f : fs) join(f);
    faults_on(false); note_nontrivial(); u64 st = 0; for (auto& x : hists) { hist.insert(hist.end(), x.begin(), x.end()); } hists.clear(); *ds += strf("font manager, %u faces of %u families, %u calls", nf, nfam, u32(hist.size()));
    if (!linearizable(hist, init, [&](FmState& s, const Call& c) { return fm.step(s, c, names); }, &st)) fail("not-linearizable:font-manager", "no order of these calls explains their results: " + show(hist)); count("linearization_states", st); fm.f.clear();
  }
  release_caches(); leak_check(mark, "the font managers, faces and arrays of faces were destroyed");
}

// ---- codecs ------------------------------------------------------------------------------------------------------------
struct CoState { std::string list; std::string key() const { return list; } };
void run_codecs(RunEnv& env, u32 nu, u32 per, std::string* ds) {
  Rng& r = env.rng; static const char* nm[] = {"BMP", "JPEG", "PNG", "QOI"}; static const char* ext[] = {"bmp", "JPEG", "png", "QOI", "x.bmp", "a.b.PNG", "jpg", ".qoi", "png2", "", "bmp|png"}; static const int ext_of[] = {0, 1, 2, 3, 0, 2, 1, 3, -1, -1, -1}; static const char* names[] = {"BMP", "JPEG", "PNG", "QOI", "png", "P", ""}; 
  std::vector<BLImageCodec> all; { BLArray<BLImageCodec> l = BLImageCodec::built_in_codecs(); for (auto& c : l) all.push_back(c); } if (all.size() != 4) harness_error("codecs"); for (int k = 0; k < 4; k++) if (strcmp(all[size_t(k)].name().data(), nm[k])) harness_error("codec order");
  std::vector<std::vector<u8>> data; BLImage im; { Rng q(r.next()); rops::random_image(q, im, 3, 3, BL_FORMAT_PRGB32); } for (int k : {0, 2, 3}) { BLArray<u8> a; if (im.write_to_data(a, all[size_t(k)])) harness_error("encode"); data.push_back(std::vector<u8>(a.begin(), a.end())); } data.push_back({0xFF, 0xD8, 0xFF, 0xE0, 0, 16, 'J', 'F', 'I', 'F', 0}); data.push_back({'B', 'M'}); data.push_back({1, 2, 3}); data.push_back({0x89, 'P', 'N', 'G'});
  u32 score[8][4]; for (size_t d = 0; d < data.size(); d++) for (size_t k = 0; k < 4; k++) score[d][k] = all[k].inspect_data(data[d].data(), data[d].size());
  std::vector<Call> hist; std::vector<std::vector<Call>> hists(nu); u64 mark = heap_mark(); faults_on(true); auto index = [&](const BLImageCodec& c) { for (size_t k = 0; k < 4; k++) if (all[k] == c) return int(k); return -1; }; auto by_data = [&](const std::string& l, size_t d) { u32 best = 0; int w = -1; for (char c : l) if (score[d][size_t(c - '0')] > best) { best = score[d][size_t(c - '0')]; w = c - '0'; } return w; };
  auto body = [&](u32 u) { faults_here(false); struct Snap { BLArray<BLImageCodec> a; std::vector<int> v; }; std::vector<Snap> snaps; BLImage dst;
    for (u32 i = u * per; i < (u + 1) * per; i++) { if (!op_enabled(i)) continue; Rng q(mix3(env.plan.seed, 66, i)); op_begin(i); Call c; c.thread = u; c.kind = q.pick({0u, 0u, 1u, 1u, 2u, 3u, 4u, 5u, 6u}); u64 f0 = faults_fired_here(); BLImageCodec o; BLArray<BLImageCodec> l; bool keep = q.chance(1, 2); if (keep) o = all[1]; c.r = -1; if (q.chance(1, 2)) l.append(all[0]);
      faults_here(true); c.inv = event_seq();
      switch (c.kind) { case 0: c.a = q.below(4); c.e = BLImageCodec::add_to_built_in(all[size_t(c.a)]); break; case 1: c.a = q.below(4); c.e = BLImageCodec::remove_from_built_in(all[size_t(c.a)]); break;
        case 2: if (q.chance(1, 2)) l = BLImageCodec::built_in_codecs(); else bl_image_codec_array_assign_built_in_codecs(&l); break;
        case 3: c.a = q.below(7); c.e = o.find_by_name(names[c.a]); break; case 4: c.a = q.below(11); c.e = o.find_by_extension(ext[c.a]); break;
        case 5: c.a = q.below(u32(data.size())); c.e = o.find_by_data(data[size_t(c.a)].data(), data[size_t(c.a)].size()); break;
        default: c.a = q.below(3); c.e = dst.read_from_data(data[size_t(c.a)].data(), data[size_t(c.a)].size()); break; }
      c.res = event_seq(); faults_here(false); c.oom = c.e == BL_ERROR_OUT_OF_MEMORY; if (c.oom && faults_fired_here() == f0) fail("oom-without-fault", "out of memory was reported although no allocation failed"); if (c.oom) count("out_of_memory");
      if (c.kind == 2) { for (auto& x : l) c.list.push_back(index(x)); snaps.push_back({l, c.list}); } if (c.kind >= 3 && c.kind <= 5) { if (!c.e) c.r = index(o); else if (!(o == (keep ? all[1] : BLImageCodec()))) fail("find-changed", "a failed search for a codec changed the codec object"); }
      if (c.kind == 6 && !c.e) { std::string df; BLImage want = pixel_copy(im); if (dst.convert(BL_FORMAT_PRGB32) == BL_SUCCESS && !rops::same_pixels(want, dst, &df)) fail("read-pixels", "an image read with the built-in codecs differs: " + df); }
      static const char* kn[] = {"add", "remove", "list", "find_by_name", "find_by_extension", "find_by_data", "read"}; c.text = std::string(kn[c.kind]) + strf("(%s) = %x %lld", c.kind < 2 ? nm[c.a] : c.kind == 3 ? names[c.a] : c.kind == 4 ? ext[c.a] : c.kind > 4 ? strf("data %lld", (long long)c.a).c_str() : "", c.e, (long long)c.r); for (int x : c.list) c.text += strf(",%s", x < 0 ? "?" : nm[x]);
      out(u64(c.r)); hists[u].push_back(c); for (auto& s : snaps) { std::vector<int> v; for (auto& x : s.a) v.push_back(index(x)); if (v != s.v) fail("result-changed", "a list of codecs changed after it was returned"); } if (snaps.size() > 2) snaps.erase(snaps.begin()); op_end(); } };
  std::vector<int> fs; for (u32 u = 0; u < nu; u++) fs.push_back(spawn(strf("user%u", u).c_str(), [&, u]() { body(u); })); for (int f : fs) join(f);
  faults_on(false); note_nontrivial(); u64 st = 0; for (auto& x : hists) { hist.insert(hist.end(), x.begin(), x.end()); } hists.clear(); *ds += strf("codecs, %u calls", u32(hist.size()));
  // Afterwards the list must be one that the history explains.
  { Call c; c.kind = 2; c.inv = event_seq(); c.res = event_seq(); BLArray<BLImageCodec> l = BLImageCodec::built_in_codecs(); for (auto& x : l) c.list.push_back(index(x)); c.text = "list at the end"; for (int x : c.list) c.text += strf(",%s", x < 0 ? "?" : nm[x]); hist.push_back(c); }
  CoState init; init.list = "0123"; if (!linearizable(hist, init, [&](CoState& s, const Call& c) -> bool { if (c.oom) return true; size_t at = c.kind < 2 ? s.list.find(char('0' + c.a)) : 0; const size_t np = std::string::npos; auto found = [&](int w) { return w < 0 ? c.e == BL_ERROR_IMAGE_NO_MATCHING_CODEC : !c.e && c.r == w; };
      switch (c.kind) { case 0: if (at != np) return c.e == BL_ERROR_ALREADY_EXISTS; s.list += char('0' + c.a); return !c.e; case 1: if (at == np) return c.e == BL_ERROR_NO_ENTRY; s.list.erase(at, 1); return !c.e;
        case 2: { if (c.list.size() != s.list.size()) return false; for (size_t k = 0; k < c.list.size(); k++) if (c.list[k] != s.list[k] - '0') return false; return true; }
        case 3: return found(c.a < 4 && s.list.find(char('0' + c.a)) != np ? int(c.a) : -1); case 4: { int w = ext_of[c.a]; return found(w >= 0 && s.list.find(char('0' + w)) != np ? w : -1); } case 5: return found(by_data(s.list, size_t(c.a)));
        default: { int w = by_data(s.list, size_t(c.a)); return w < 0 ? c.e == BL_ERROR_IMAGE_NO_MATCHING_CODEC : !c.e; } } }, &st)) fail("not-linearizable:codecs", "no order of these calls explains their results: " + show(hist)); count("linearization_states", st);
  hist.clear(); BLArray<BLImageCodec> l = BLImageCodec::built_in_codecs(); for (auto& x : l) BLImageCodec::remove_from_built_in(x); for (auto& x : all) if (BLImageCodec::add_to_built_in(x)) fail("restore", "codecs cannot be added again"); l.reset();
  for (auto& x : all) { BLImageCodec::remove_from_built_in(x); } all.clear(); (void)mark; release_caches();
}

// ---- identities --------------------------------------------------------------------------------------------------------
void run_ids(RunEnv& env, u32 nu, u32 per, std::string* ds) {
  Rng& r = env.rng; bool many = r.chance(1, 6), text = !many && r.chance(1, 2); u32 reps = many ? 80 : u32(r.range(1, 5)); u64 mark = heap_mark(); fg::Font base; if (text) { do base = fg::random_font(r); while (base.nglyphs > 20); }
  { std::vector<u64> origins, faces; struct Mine { std::vector<u64> origins, faces; }; std::vector<Mine> mine(nu); Mutex mx; BLContextCookie box; bool boxed = false; bool talk = r.chance(1, 2); faults_on(true);
    auto body = [&](u32 u) { faults_here(false); BLImage im(4, 4, BL_FORMAT_PRGB32); BLFontData d; if (text && d.create_from_data(base.data.data(), base.data.size())) return;
      for (u32 i = u * per; i < (u + 1) * per; i++) { if (!op_enabled(i)) continue; Rng q(mix3(env.plan.seed, 44, i)); op_begin(i);
        for (u32 k = 0; k < reps; k++) { BLContext c; BLContextCreateInfo ci{}; if (q.chance(1, 5)) ci.thread_count = q.below(3); faults_here(true); BLResult e = c.begin(im, ci); BLContextCookie ck; if (!e) e = c.save(ck); faults_here(false); if (e) { count("refused"); continue; }
          if (talk && q.chance(1, 4)) { Guard g(mx); if (boxed) { if (box == ck) fail("cookie", "two contexts returned the same cookie"); BLResult x = c.restore(box); if (x != BL_ERROR_NO_MATCHING_COOKIE) fail("foreign-cookie", strf("restore() with the cookie of another context returned 0x%x", x)); count("foreign_cookies"); } box = ck; boxed = true; }
          mine[u].origins.push_back(ck.data[0]); if (q.chance(1, 2) && c.restore(ck)) fail("own-cookie", "restore() with the own cookie failed");
          if (text) { BLFontFace f; faults_here(true); e = f.create_from_data(d, base.face_index); faults_here(false); if (!e) { if (!f.unique_id()) fail("face-id", "a font face has no unique id"); mine[u].faces.push_back(f.unique_id()); } } }
        op_end(); } };
    std::vector<int> fs; for (u32 u = 0; u < nu; u++) fs.push_back(spawn(strf("user%u", u).c_str(), [&, u]() { body(u); })); for (int f : fs) join(f);
    faults_on(false); note_nontrivial(); for (auto& x : mine) { origins.insert(origins.end(), x.origins.begin(), x.origins.end()); faces.insert(faces.end(), x.faces.begin(), x.faces.end()); } for (auto* v : {&origins, &faces}) { std::sort(v->begin(), v->end()); for (size_t k = 1; k < v->size(); k++) if ((*v)[k] == (*v)[k - 1]) fail(v == &faces ? "face-id" : "context-id", strf("identity %llu was given out twice", (unsigned long long)(*v)[k])); }
    count("contexts", origins.size()); count("faces", faces.size()); *ds += strf("identities, %u contexts, %u faces", u32(origins.size()), u32(faces.size())); }
  release_caches(); leak_check(mark, "contexts and faces were destroyed");
}
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r, 200000000); tune_heap(r); if (r.chance(1, 3)) T.fault[F_ALLOC] = r.pick({600u, 3000u, 12000u}); if (r.chance(1, 4)) tune_waits(r); tuning_applied();
  u32 mode = r.below(9), nu = u32(r.range(2, 5)), per = u32(r.range(1, 60 / int(nu) > 12 ? 12 : 60 / int(nu))); set_nops(nu * per); std::string ds = strf("%u threads, ", nu);
  if (mode < 4) run_fm(env, nu, per, &ds); else if (mode < 7) run_codecs(env, nu, per, &ds); else run_ids(env, nu, per, &ds);
  sample(ds + strf(", strategy %u", T.strategy));
}
static int reg = (register_check({"T05",
  "A run lets 2-5 threads call one shared registry: a font manager (up to 27 generated faces; add, has, counts, queries by name and properties), the list of built-in codecs (add, remove, list, find by name, extension and data, read) or the generators of identities (contexts with cookies, font faces). The recorded history of calls and results must be linearizable against a sequential model, results that were returned must not change afterwards, identities must be unique, nothing may stay allocated. Some runs fail allocations. Non-trivial: always (at least two threads).",
  "real: font manager, codec registry, unique id generator, contexts, fonts; simulated: threads, rwlocks, TLS, heap, failing allocations",
  run, nullptr}), 0);
