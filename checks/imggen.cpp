#include "imggen.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <queue>
namespace ig {
// ---------------------------------------------------------------------------------------- helpers
static void be32(Bytes& o, u32 v) { for (int i = 3; i >= 0; i--) o.push_back(u8(v >> (8 * i))); }
static void be16(Bytes& o, u32 v) { o.push_back(u8(v >> 8)); o.push_back(u8(v)); }
static void le32(Bytes& o, u32 v) { for (int i = 0; i < 4; i++) o.push_back(u8(v >> (8 * i))); }
static void le16(Bytes& o, u32 v) { o.push_back(u8(v)); o.push_back(u8(v >> 8)); }
static u32 mul255(u32 c, u32 a) { u32 p = c * a + 128; return (p + (p >> 8)) >> 8; }
static u32 premul(u32 r, u32 g, u32 b, u32 a) { return (a << 24) | (mul255(r, a) << 16) | (mul255(g, a) << 8) | mul255(b, a); }
static u32 crc32(const u8* p, size_t n) { static u32 t[256]; if (!t[1]) for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; t[i] = c; } u32 c = ~0u; for (size_t i = 0; i < n; i++) c = t[(c ^ p[i]) & 255] ^ (c >> 8); return ~c; }
static u32 adler(const Bytes& b) { u32 s1 = 1, s2 = 0; for (u8 x : b) { s1 = (s1 + x) % 65521; s2 = (s2 + s1) % 65521; } return (s2 << 16) | s1; }
static int side(Rng& r, int mx) { switch (r.below(6)) { case 0: return 1 + r.below(std::min(mx, 9)); case 1: return mx - r.below(std::min(mx, 8)); default: return 1 + r.below(mx); } }
// Huffman code lengths (limit enforced by flattening the frequencies).
static std::vector<u8> code_lengths(std::vector<u32> f, int limit) {
  std::vector<u8> len(f.size(), 0);
  for (;;) {
    struct N { u64 w; int l, r; }; std::vector<N> ns; std::priority_queue<std::pair<u64, int>, std::vector<std::pair<u64, int>>, std::greater<std::pair<u64, int>>> q;
    std::vector<int> leaf; for (size_t i = 0; i < f.size(); i++) if (f[i]) { ns.push_back({f[i], -1, int(i)}); q.push({f[i], int(ns.size() - 1)}); }
    std::fill(len.begin(), len.end(), 0); if (ns.empty()) return len; if (ns.size() == 1) { len[ns[0].r] = 1; return len; }
    while (q.size() > 1) { auto a = q.top(); q.pop(); auto b = q.top(); q.pop(); ns.push_back({a.first + b.first, a.second, b.second}); q.push({a.first + b.first, int(ns.size() - 1)}); }
    int mx = 0; std::vector<std::pair<int, int>> st{{int(ns.size() - 1), 0}};
    while (!st.empty()) { auto [n, d] = st.back(); st.pop_back(); if (ns[n].l < 0) { len[ns[n].r] = u8(std::min(d, 255)); mx = std::max(mx, d); } else { st.push_back({ns[n].l, d + 1}); st.push_back({ns[n].r, d + 1}); } }
    if (mx <= limit) return len;
    for (auto& x : f) if (x) x = (x >> 1) | 1;
  }
}
static std::vector<u32> canonical(const std::vector<u8>& len) { u32 cnt[33] = {}, next[33] = {}; for (u8 l : len) if (l) cnt[l]++; u32 c = 0; for (int l = 1; l <= 32; l++) { c = (c + cnt[l - 1]) << 1; if (l == 1) c = 0; next[l] = c; } std::vector<u32> code(len.size(), 0); for (size_t i = 0; i < len.size(); i++) if (len[i]) code[i] = next[len[i]]++; return code; }
// ---------------------------------------------------------------------------------------- DEFLATE
struct LsbW { Bytes& o; u64 acc = 0; int n = 0; void put(u32 v, int c) { acc |= u64(v) << n; n += c; while (n >= 8) { o.push_back(u8(acc)); acc >>= 8; n -= 8; } } void code(u32 v, int c) { u32 rv = 0; for (int i = 0; i < c; i++) rv |= ((v >> i) & 1) << (c - 1 - i); put(rv, c); } void align() { if (n) { o.push_back(u8(acc)); acc = 0; n = 0; } } };
static const u16 kLenBase[29] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258};
static const u8 kLenExtra[29] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static const u16 kDistBase[30] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
static const u8 kDistExtra[30] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
void deflate(Rng& r, const Bytes& in, Bytes& out) {
  LsbW w{out}; struct Tok { u16 len, dist; u8 lit; }; size_t pos = 0; std::vector<int> head(4096, -1); u32 lzden = r.pick({0u, 1u, 2u, 8u}); u32 skew = r.pick({0u, 0u, 0u, 1u, 2u, 2u}); bool far = r.chance(1, 2);
  bool done = false;
  while (!done) {
    size_t left = in.size() - pos; size_t blk = r.chance(1, 3) ? left : std::min(left, size_t(r.below(r.pick({40u, 3000u, 40000u})))); u32 type = r.below(4); if (type == 3) type = 2; if (type == 0 && blk > 65535) blk = 65535;
    done = pos + blk == in.size() && !r.chance(1, 12);
    if (!done && pos + blk == in.size() && r.chance(1, 2)) done = true;
    w.put(done, 1); w.put(type, 2);
    if (type == 0) { w.align(); le16(out, u32(blk)); le16(out, ~u32(blk) & 0xFFFF); for (size_t i = 0; i < blk; i++) out.push_back(in[pos + i]); pos += blk; continue; }
    std::vector<Tok> tk; size_t end = pos + blk;
    while (pos < end) {
      size_t ml = 0, md = 0; 
      if (lzden && pos + 3 <= end) { u32 hsh = (in[pos] * 131u + in[pos + 1] * 31u + in[pos + 2]) & 4095; int p = head[hsh]; if (!far || p < 0 || pos - size_t(p) > 32000) head[hsh] = int(pos);
        if (r.chance(1, lzden)) { if (r.chance(1, 4) && pos) { u32 dd = 1 + r.below(u32(std::min<size_t>(pos, r.chance(1, 2) ? 16 : 32768))); p = int(pos - dd); }
          if (p >= 0 && pos - size_t(p) <= 32768) { size_t k = 0; while (k < 258 && pos + k < end && in[size_t(p) + k] == in[pos + k]) k++; if (k >= 3) { ml = r.chance(1, 4) ? 3 + r.below(u32(k - 2)) : k; md = pos - size_t(p); } } } }
      if (ml) { tk.push_back({u16(ml), u16(md & 0xFFFF), 0}); if (md == 65536) tk.back().dist = 0; pos += ml; } else { tk.push_back({0, 0, in[pos]}); pos++; }
    }
    auto lsym = [](u32 l) { int i = 28; while (kLenBase[i] > l) i--; return i; }; auto dsym = [](u32 d) { int i = 29; while (kDistBase[i] > d) i--; return i; };
    std::vector<u8> ll(288, 0), dl(30, 0);
    if (type == 1) { for (int i = 0; i < 288; i++) ll[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; dl.assign(30, 5); }
    else {
      std::vector<u32> lf(286, 0), df(30, 0); for (auto& t : tk) if (t.len) { lf[257 + lsym(t.len)]++; df[dsym(t.dist)]++; } else lf[t.lit]++; lf[256]++;
      if (skew == 2) { u32 dn = r.pick({2u, 4u, 8u}); for (int i = 0; i < 286; i++) if (lf[i]) lf[i] = 1 + r.below(3); else if (r.chance(1, dn)) lf[i] = 1u << r.below(13); for (auto& x : df) if (x) x = 1; else if (r.chance(1, 2)) x = 1u << r.below(16); }
      if (skew == 1) { for (auto& x : lf) if (x || r.chance(1, 6)) x = 1u << r.below(20); for (auto& x : df) if (x || r.chance(1, 4)) x = 1u << r.below(16); }
      ll = code_lengths(lf, skew == 2 && r.chance(2, 3) ? r.range(11, 12) : 15); dl = code_lengths(df, 15); 
      int nl = 286, nd = 30; while (nl > 257 && !ll[nl - 1]) nl--; while (nd > 1 && !dl[nd - 1]) nd--; if (r.chance(1, 4)) nl = std::min(286, nl + int(r.below(5))); 
      { int used = 0; for (u8 x : ll) used += x != 0; if (used == 1) { ll[r.below(256)] = 1; } }
      std::vector<u8> all(ll.begin(), ll.begin() + nl); all.insert(all.end(), dl.begin(), dl.begin() + nd); struct PC { u8 s, e; }; std::vector<PC> pc;
      for (size_t i = 0; i < all.size();) { size_t k = 1; while (i + k < all.size() && all[i + k] == all[i]) k++; 
        if (all[i] == 0 && k >= 3 && !r.chance(1, 10)) { size_t n = std::min<size_t>(k, r.chance(1, 2) ? 138 : 10); if (n >= 11) pc.push_back({18, u8(n - 11)}); else pc.push_back({17, u8(n - 3)}); i += n; }
        else if (k >= 4 && !r.chance(1, 10)) { pc.push_back({all[i], 0}); size_t n = std::min<size_t>(k - 1, 6); pc.push_back({16, u8(n - 3)}); i += 1 + n; }
        else { pc.push_back({all[i], 0}); i++; } }
      std::vector<u32> pf(19, 0); for (auto& x : pc) pf[x.s]++; { int used = 0; for (u32 x : pf) used += x != 0; if (used < 2) { pf[0]++; pf[18]++; } } auto pl = code_lengths(pf, 7); auto pcodes = canonical(pl);
      static const u8 ord[19] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; int np = 19; while (np > 4 && !pl[ord[np - 1]]) np--;
      w.put(nl - 257, 5); w.put(nd - 1, 5); w.put(np - 4, 4); for (int i = 0; i < np; i++) w.put(pl[ord[i]], 3);
      for (auto& x : pc) { w.code(pcodes[x.s], pl[x.s]); if (x.s == 16) w.put(x.e, 2); else if (x.s == 17) w.put(x.e, 3); else if (x.s == 18) w.put(x.e, 7); }
    }
    auto lc = canonical(ll), dc = canonical(dl);
    for (auto& t : tk) if (!t.len) w.code(lc[t.lit], ll[t.lit]); else { int s = lsym(t.len); w.code(lc[257 + s], ll[257 + s]); w.put(t.len - kLenBase[s], kLenExtra[s]); int d = dsym(t.dist); w.code(dc[d], dl[d]); w.put(t.dist - kDistBase[d], kDistExtra[d]); }
    w.code(lc[256], ll[256]);
  }
  w.align();
}
// ---------------------------------------------------------------------------------------- PNG
struct PngEnc { int type, depth, ch; bool interlace; };
static void pack_pass(Rng& r, const PngEnc& e, const std::vector<u8>& s, int w, int x0, int y0, int dx, int dy, int pw, int ph, Bytes& out) {
  size_t bpl = (size_t(pw) * e.depth * e.ch + 7) / 8, bpp = std::max(1, e.depth * e.ch / 8); Bytes prev(bpl, 0), cur(bpl); u32 mode = r.below(7);
  for (int y = 0; y < ph; y++) { std::fill(cur.begin(), cur.end(), 0);
    for (int x = 0; x < pw; x++) { const u8* p = &s[(size_t(y0 + y * dy) * w + x0 + x * dx) * e.ch]; if (e.depth == 8) for (int c = 0; c < e.ch; c++) cur[size_t(x) * e.ch + c] = p[c]; else { int bit = x * e.depth; cur[bit >> 3] |= u8(p[0] << (8 - e.depth - (bit & 7))); } }
    u32 f = mode < 5 ? mode : r.below(5); out.push_back(u8(f));
    for (size_t i = 0; i < bpl; i++) { int a = i >= bpp ? cur[i - bpp] : 0, b = prev[i], c = i >= bpp ? prev[i - bpp] : 0, pr = 0; if (f == 1) pr = a; else if (f == 2) pr = b; else if (f == 3) pr = (a + b) / 2; else if (f == 4) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); pr = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; } out.push_back(u8(cur[i] - pr)); }
    prev = cur; }
}
static Bytes png_raw(Rng& r, const PngEnc& e, const std::vector<u8>& s, int w, int h) {
  Bytes raw; if (!e.interlace) { pack_pass(r, e, s, w, 0, 0, 1, 1, w, h, raw); return raw; }
  static const int A[7][4] = {{0,0,8,8},{4,0,8,8},{0,4,4,8},{2,0,4,4},{0,2,2,4},{1,0,2,2},{0,1,1,2}};
  for (auto& p : A) { int pw = (w - p[0] + p[2] - 1) / p[2], ph = (h - p[1] + p[3] - 1) / p[3]; if (pw > 0 && ph > 0) pack_pass(r, e, s, w, p[0], p[1], p[2], p[3], pw, ph, raw); }
  return raw;
}
static void chunk(Bytes& o, const char* tag, const Bytes& d) { be32(o, u32(d.size())); size_t at = o.size(); for (int i = 0; i < 4; i++) o.push_back(u8(tag[i])); o.insert(o.end(), d.begin(), d.end()); be32(o, crc32(&o[at], d.size() + 4)); }
static void samples(Rng& r, std::vector<u8>& s, int w, int h, int ch, int depth, int npal) {
  u32 mx = npal ? u32(npal) : 1u << depth; s.resize(size_t(w) * h * ch); u32 mode = r.below(4); u64 k = r.next();
  for (size_t i = 0; i < s.size(); i++) { size_t x = i / ch % w, y = i / ch / w; u32 c = u32(i % ch), v; switch (mode) { case 0: v = u32(mix2(k, i)); break; case 1: v = u32(x * (c + 1) + y * 3); break; case 2: v = u32(mix3(k, x / 5, y / 3) + c * 7); break; default: v = (x ^ y) & 7 ? 3 : u32(mix2(k, i)); } s[i] = u8(v % mx); }
  if (ch == 4 || ch == 2) for (size_t i = ch - 1; i < s.size(); i += ch) { u32 q = u32(mix2(k, i ^ 0x77) & 3); if (q == 0) s[i] = 255; else if (q == 1) s[i] = 0; }
}
File png(Rng& r, int ms) {
  File f; f.codec = "PNG"; int w = side(r, ms), h = side(r, ms); PngEnc e; e.type = r.pick({0, 2, 3, 4, 6, 6, 3}); e.depth = e.type == 0 || e.type == 3 ? int(r.pick({1u, 2u, 4u, 8u})) : 8; e.ch = e.type == 2 ? 3 : e.type == 4 ? 2 : e.type == 6 ? 4 : 1; e.interlace = r.chance(1, 2);
  bool cgbi = (e.type == 2 || e.type == 6) && r.chance(1, 12); int nfr = !cgbi && r.chance(1, 5) ? r.range(2, 4) : 1;
  int rows = 0; if (ms >= 64 && r.chance(1, 10)) { nfr = 1; e.type = 6; e.depth = 8; e.ch = 4; e.interlace = false; w = r.range(60, 120); h = 40000 / (w * 4) + r.range(0, 60); rows = 16384 / (w * 4) + r.range(1, 20); }
  int npal = 0; u8 pal[256][4]; if (e.type == 3) { npal = 1 + r.below(1u << e.depth); for (int i = 0; i < 256; i++) { for (int c = 0; c < 3; c++) pal[i][c] = i < npal ? u8(r.next()) : 0; pal[i][3] = 255; } }
  int ntr = 0, key = -1; if (e.type == 3 && r.chance(1, 2)) { ntr = 1 + r.below(npal); for (int i = 0; i < ntr; i++) pal[i][3] = r.pick({u8(0), u8(255), u8(r.next())}); } if (e.type == 0 && r.chance(1, 3)) key = int(r.below(1u << e.depth));
  f.frames.clear(); Bytes& o = f.data; static const u8 sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; o.assign(sig, sig + 8);
  if (cgbi) chunk(o, "CgBI", Bytes{0x50, 0, 0x20, 2});
  Bytes hd; be32(hd, u32(w)); be32(hd, u32(h)); hd.push_back(u8(e.depth)); hd.push_back(u8(e.type)); hd.push_back(0); hd.push_back(0); hd.push_back(e.interlace); chunk(o, "IHDR", hd);
  if (r.chance(1, 4)) chunk(o, "gAMA", Bytes{0, 0, 0xB1, 0x8F});
  if (nfr > 1) { Bytes a; be32(a, u32(nfr)); be32(a, r.below(3)); chunk(o, "acTL", a); }
  if (npal) { Bytes p; for (int i = 0; i < npal; i++) for (int c = 0; c < 3; c++) p.push_back(pal[i][c]); chunk(o, "PLTE", p); }
  if (ntr) { Bytes t; for (int i = 0; i < ntr; i++) t.push_back(pal[i][3]); chunk(o, "tRNS", t); } if (key >= 0) { Bytes t; be16(t, u32(key)); chunk(o, "tRNS", t); }
  if (r.chance(1, 4)) { Bytes t(r.below(40), 'x'); chunk(o, "tEXt", t); }
  Frame canvas; canvas.w = w; canvas.h = h; canvas.fmt = e.type == 2 ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32; canvas.px.assign(size_t(w) * h, 0);
  std::vector<u32> saved; int px = 0, py = 0, pw = 0, ph = 0; u32 pdis = 0, seq = 0;
  for (int n = 0; n < nfr; n++) {
    int fx = 0, fy = 0, fw = w, fh = h; if (n) { fw = 1 + r.below(u32(w)); fh = 1 + r.below(u32(h)); fx = int(r.below(u32(w - fw + 1))); fy = int(r.below(u32(h - fh + 1))); }
    u32 dis = r.below(3); if (nfr > 1) { Bytes c; be32(c, seq++); be32(c, fw); be32(c, fh); be32(c, fx); be32(c, fy); be16(c, 1); be16(c, 10); c.push_back(u8(dis)); c.push_back(0); chunk(o, "fcTL", c); }
    std::vector<u8> s; samples(r, s, fw, fh, e.ch, e.depth, npal); if (rows) { u32 keep = r.pick({8u, 40u, 400u}); for (size_t i = size_t(rows) * fw * 4; i < s.size(); i++) if (!r.chance(1, keep)) s[i] = s[i - size_t(rows) * fw * 4]; } Bytes raw = png_raw(r, e, s, fw, fh), z; if (!cgbi) { z.push_back(0x78); z.push_back(r.pick({u8(0x01), u8(0x5E), u8(0x9C), u8(0xDA)})); } deflate(r, raw, z); if (!cgbi) be32(z, adler(raw));
    u32 cm = r.pick({0u, 0u, 1u, 7u, 200u}); for (size_t at = 0; at < z.size() || at == 0;) { size_t k = cm ? std::min<size_t>(z.size() - at, r.below(cm) + (cm == 1)) : z.size(); if (z.size() > 3000 && cm && cm < 100) k = std::min<size_t>(z.size() - at, 500 + r.below(700)); Bytes d; if (n) be32(d, seq++); d.insert(d.end(), z.begin() + at, z.begin() + at + k); chunk(o, n ? "fdAT" : "IDAT", d); at += k; if (at == z.size()) break; }
    if (r.chance(1, 8)) { Bytes d; if (n) be32(d, seq++); chunk(o, n ? "fdAT" : "IDAT", d); }
    if (n) { if (pdis == 1) for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) canvas.px[size_t(py + y) * w + px + x] = 0; if (pdis == 2) for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) canvas.px[size_t(py + y) * w + px + x] = saved[size_t(y) * pw + x]; }
    saved.clear(); for (int y = 0; y < fh; y++) for (int x = 0; x < fw; x++) saved.push_back(canvas.px[size_t(fy + y) * w + fx + x]); px = fx; py = fy; pw = fw; ph = fh; pdis = !n && dis == 2 ? 1 : dis;
    for (int y = 0; y < fh; y++) for (int x = 0; x < fw; x++) { const u8* p = &s[(size_t(y) * fw + x) * e.ch]; u32 v; switch (e.type) { case 0: { u32 g = p[0] * 255u / ((1u << e.depth) - 1); v = p[0] == key ? 0 : premul(g, g, g, 255); break; } case 2: v = cgbi ? premul(p[2], p[1], p[0], 255) : premul(p[0], p[1], p[2], 255); break; case 3: v = premul(pal[p[0]][0], pal[p[0]][1], pal[p[0]][2], pal[p[0]][3]); break; case 4: v = premul(p[0], p[0], p[0], p[1]); break; default: v = cgbi ? (u32(p[3]) << 24 | u32(p[2]) << 16 | u32(p[1]) << 8 | p[0]) : premul(p[0], p[1], p[2], p[3]); } canvas.px[size_t(fy + y) * w + fx + x] = v; }
    f.frames.push_back(canvas);
  }
  if (r.chance(1, 6)) chunk(o, "tIME", Bytes{7, 0xE8, 1, 2, 3, 4, 5}); chunk(o, "IEND", Bytes());
  f.desc = strf("PNG %dx%d type %d depth %d%s%s%s frames %d", w, h, e.type, e.depth, e.interlace ? " interlaced" : "", cgbi ? " CgBI" : "", ntr || key >= 0 ? " tRNS" : "", nfr); return f;
}
// ---------------------------------------------------------------------------------------- BMP
File bmp(Rng& r, int ms) {
  File f; f.codec = "BMP"; int w = side(r, ms), h = side(r, ms); int depth = r.pick({1, 4, 8, 16, 24, 32}); bool os2 = depth != 16 && depth != 32 && r.chance(1, 5); bool rle = (depth == 4 || depth == 8) && !os2 && r.chance(1, 2); bool top = !rle && !os2 && r.chance(1, 4);
  Frame fr; fr.w = w; fr.h = h; fr.fmt = BL_FORMAT_XRGB32; fr.px.resize(size_t(w) * h); int hs = os2 ? 12 : 40; bool bf = false, alpha = false; u32 mask[4] = {0, 0, 0, 0};
  if (depth == 16) { bf = r.chance(2, 3); if (bf) { if (r.chance(1, 2)) { mask[0] = 0xF800; mask[1] = 0x7E0; mask[2] = 0x1F; } else { mask[0] = 0x7C00; mask[1] = 0x3E0; mask[2] = 0x1F; } } }
  if (depth == 32) { bf = r.chance(2, 3); if (bf) { int p[4] = {0, 8, 16, 24}; for (int i = 3; i > 0; i--) std::swap(p[i], p[r.below(u32(i + 1))]); for (int i = 0; i < 4; i++) mask[i] = 0xFFu << p[i]; alpha = r.chance(1, 2); if (!alpha) mask[3] = 0; } }
  if (!os2 && bf) { hs = r.pick({40, 52, 56, 108}); if (alpha && hs < 56) hs = 56; }
  int npal = 0; u8 pal[256][3] = {}; if (depth <= 8) { npal = 1 + r.below(1u << depth); for (int i = 0; i < npal; i++) for (auto& c : pal[i]) c = u8(r.next()); }
  size_t bpl = ((size_t(w) * depth + 31) / 32) * 4; Bytes body; std::vector<u8> idx; std::vector<u8> s; u64 k = r.next(); if (npal) samples(r, idx, w, h, 1, depth, npal); else samples(r, s, w, h, 4, 8, 0);
  auto rgb = [&](int x, int y) { if (npal) { auto p = pal[idx[size_t(y) * w + x]]; return premul(p[0], p[1], p[2], 255); } const u8* p = &s[(size_t(y) * w + x) * 4]; return (u32(p[3]) << 24) | (u32(p[0]) << 16) | (u32(p[1]) << 8) | p[2]; };
  (void)k; std::vector<bool> skipped(size_t(w) * h, false);
  for (int row = 0; row < h && !rle; row++) { int y = top ? row : h - 1 - row; Bytes line(bpl, 0);
    for (int x = 0; x < w; x++) { u32 v = rgb(x, y); if (depth <= 8) { int bit = x * depth; line[bit >> 3] |= u8(idx[size_t(y) * w + x] << (8 - depth - (bit & 7))); fr.px[size_t(y) * w + x] = v; }
      else if (depth == 24) { line[x * 3] = u8(v); line[x * 3 + 1] = u8(v >> 8); line[x * 3 + 2] = u8(v >> 16); fr.px[size_t(y) * w + x] = v | 0xFF000000u; }
      else if (depth == 32) { u32 q; if (bf) { u32 a = v >> 24, c[4] = {(v >> 16) & 255, (v >> 8) & 255, v & 255, a}; if (alpha) for (int i = 0; i < 3; i++) c[i] = mul255(c[i], a); q = 0; for (int i = 0; i < 4; i++) if (mask[i]) q |= c[i] << __builtin_ctz(mask[i]); fr.px[size_t(y) * w + x] = (alpha ? c[3] << 24 : 0xFF000000u) | c[0] << 16 | c[1] << 8 | c[2]; } else { q = v; fr.px[size_t(y) * w + x] = v | 0xFF000000u; } for (int i = 0; i < 4; i++) line[x * 4 + i] = u8(q >> (8 * i)); }
      else { u32 m[3] = {mask[0] ? mask[0] : 0x7C00u, mask[1] ? mask[1] : 0x3E0u, mask[2] ? mask[2] : 0x1Fu}; u32 q = 0, e = 0xFF000000u; for (int i = 0; i < 3; i++) { int bits = __builtin_popcount(m[i]); u32 c = ((v >> (16 - 8 * i)) & 255) >> (8 - bits); q |= c << __builtin_ctz(m[i]); u32 ex = bits == 5 ? (c << 3 | c >> 2) : (c << 2 | c >> 4); e |= ex << (16 - 8 * i); } line[x * 2] = u8(q); line[x * 2 + 1] = u8(q >> 8); fr.px[size_t(y) * w + x] = e; } }
    body.insert(body.end(), line.begin(), line.end()); }
  if (rle) { // runs, absolute runs, end of line, optional skips are avoided (their colour is not specified)
    bool skips = r.chance(1, 3); if (skips) { fr.bg.assign(size_t(w) * h, 0); f.desc = "skips"; } auto skip = [&](int y0, int x0, int x1) { for (; x0 < x1; x0++) fr.bg[size_t(y0) * w + x0] = 1; }; int x0 = 0; bool stop = false;
    for (int row = 0; row < h && !stop; row++) { int y = h - 1 - row, x = x0; x0 = 0; const u8* p = &idx[size_t(y) * w]; bool moved = false;
      while (x < w) { int run = 1;
        if (skips && r.chance(1, 12)) { u32 k = r.below(8); if (k == 0 && r.chance(1, 3)) { skip(y, x, w); for (int q = 0; q < y; q++) skip(q, 0, w); stop = true; break; } if (k < 3 && row != h - 1) { skip(y, x, w); break; }
          int dx = int(r.below(u32(std::min(w - x, 255) + 1))), dy = r.chance(1, 2) ? 0 : int(r.below(u32(std::min(h - 1 - row, 255) + 1))); body.push_back(0); body.push_back(2); body.push_back(u8(dx)); body.push_back(u8(dy));
          if (!dy) { skip(y, x, x + dx); x += dx; continue; } skip(y, x, w); for (int q = 1; q < dy; q++) skip(y - q, 0, w); skip(y - dy, 0, x + dx); x0 = x + dx; row += dy - 1; moved = true; break; } while (x + run < w && run < 255 && (depth == 8 ? p[x + run] == p[x] : p[x + run] == p[x + (run & 1)] )) run++;
        if (run >= 3 || w - x < 3 || r.chance(1, 5)) { int n = r.chance(1, 4) ? 1 + int(r.below(u32(run))) : run; body.push_back(u8(n)); body.push_back(depth == 8 ? p[x] : u8(p[x] << 4 | (n > 1 ? p[x + 1] : 0))); x += n; }
        else { int n = std::min({w - x, 255, 3 + int(r.below(20))}); body.push_back(0); body.push_back(u8(n)); size_t at = body.size(); if (depth == 8) for (int i = 0; i < n; i++) body.push_back(p[x + i]); else for (int i = 0; i < n; i += 2) body.push_back(u8(p[x + i] << 4 | (i + 1 < n ? p[x + i + 1] : 0))); if ((body.size() - at) & 1) body.push_back(0); x += n; } }
      if (row != h - 1 && !moved && !stop) { body.push_back(0); body.push_back(0); } }
    body.push_back(0); body.push_back(1);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) fr.px[size_t(y) * w + x] = rgb(x, y); }
  if (alpha) fr.fmt = BL_FORMAT_PRGB32;
  Bytes& o = f.data; int extra = hs == 40 && bf ? (alpha ? 16 : 12) : 0; int pes = os2 ? 3 : 4; u32 off = 14 + hs + extra + npal * pes + (r.chance(1, 5) && !npal ? r.below(9) * 2 : 0);
  o.push_back('B'); o.push_back('M'); le32(o, u32(off + body.size())); le32(o, 0); le32(o, off); le32(o, u32(hs));
  if (os2) { le16(o, w); le16(o, h); le16(o, 1); le16(o, depth); } else { le32(o, u32(w)); le32(o, u32(top ? -h : h)); le16(o, 1); le16(o, depth); le32(o, rle ? (depth == 8 ? 1 : 2) : bf ? 3 : 0); le32(o, rle || r.chance(1, 2) ? u32(body.size()) : 0); le32(o, 2835); le32(o, 2835); le32(o, u32(npal)); le32(o, 0); if (hs > 40 || extra) for (int i = 0; i < (hs >= 56 || extra == 16 ? 4 : 3); i++) le32(o, mask[i]); while (o.size() < size_t(14 + hs)) o.push_back(0); }
  for (int i = 0; i < npal; i++) { o.push_back(pal[i][2]); o.push_back(pal[i][1]); o.push_back(pal[i][0]); if (pes == 4) o.push_back(0); }
  while (o.size() < off) o.push_back(0); o.insert(o.end(), body.begin(), body.end()); f.frames.push_back(fr); f.tol = 1;
  f.desc = strf("BMP %dx%d depth %d header %d%s%s%s%s", w, h, depth, hs, rle ? fr.bg.empty() ? " RLE" : " RLE with skips" : "", bf ? " bitfields" : "", alpha ? " alpha" : "", top ? " top-down" : ""); return f;
}
// ---------------------------------------------------------------------------------------- QOI
File qoi(Rng& r, int ms) {
  File f; f.codec = "QOI"; int w = side(r, ms), h = side(r, ms); bool al = r.chance(1, 2); std::vector<u8> s; samples(r, s, w, h, 4, 8, 0); u32 smooth = r.below(3); if (smooth) for (size_t i = 4; i < s.size(); i++) { if (smooth == 1) s[i] = u8(s[i - 4] + int(s[i] % 5) - 2); else if (s[i] & 0xC0) s[i] = s[i - 4]; else s[i] = u8(s[i - 4] + (s[i] & 31) - 16); }
  if (r.chance(1, 4)) { size_t k = 1 + r.below(3), m = s.size() / 4; for (size_t i = 0; i < m; i++) if (i < k || r.chance(1, 5)) { s[i * 4] = s[i * 4 + 1] = s[i * 4 + 2] = 0; s[i * 4 + 3] = 255; } }
  Bytes& o = f.data; for (char c : {'q', 'o', 'i', 'f'}) o.push_back(u8(c)); be32(o, w); be32(o, h); o.push_back(al ? 4 : 3); o.push_back(r.below(2)); u8 tab[64][4] = {}; u8 pv[4] = {0, 0, 0, 255}; int run = 0; Frame fr; fr.w = w; fr.h = h; fr.fmt = al ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32;
  size_t n = size_t(w) * h; for (size_t i = 0; i < n; i++) { u8 p[4] = {s[i * 4], s[i * 4 + 1], s[i * 4 + 2], al ? s[i * 4 + 3] : u8(255)}; fr.px.push_back(al ? premul(p[0], p[1], p[2], p[3]) : premul(p[0], p[1], p[2], 255));
    if (!memcmp(p, pv, 4)) { run++; memcpy(tab[(p[0] * 3 + p[1] * 5 + p[2] * 7 + p[3] * 11) & 63], p, 4); // every pixel seen is in the table, the one implied at the start too
      if (run == 62 || i + 1 == n) { o.push_back(u8(0xC0 | (run - 1))); run = 0; } continue; }
    if (run) { o.push_back(u8(0xC0 | (run - 1))); run = 0; }
    u32 hs = (p[0] * 3 + p[1] * 5 + p[2] * 7 + p[3] * 11) & 63;
    if (!memcmp(tab[hs], p, 4)) o.push_back(u8(hs)); else { memcpy(tab[hs], p, 4); if (p[3] == pv[3]) { int dr = int8_t(p[0] - pv[0]), dg = int8_t(p[1] - pv[1]), db = int8_t(p[2] - pv[2]); int drg = dr - dg, dbg = db - dg;
        if (dr > -3 && dr < 2 && dg > -3 && dg < 2 && db > -3 && db < 2) o.push_back(u8(0x40 | (dr + 2) << 4 | (dg + 2) << 2 | (db + 2))); else if (drg > -9 && drg < 8 && dg > -33 && dg < 32 && dbg > -9 && dbg < 8) { o.push_back(u8(0x80 | (dg + 32))); o.push_back(u8((drg + 8) << 4 | (dbg + 8))); } else { o.push_back(0xFE); o.push_back(p[0]); o.push_back(p[1]); o.push_back(p[2]); } } else { o.push_back(0xFF); for (u8 c : p) o.push_back(c); } }
    memcpy(pv, p, 4); }
  for (int i = 0; i < 7; i++) o.push_back(0); o.push_back(1); f.frames.push_back(fr); f.desc = strf("QOI %dx%d %s", w, h, al ? "RGBA" : "RGB"); return f;
}
// ---------------------------------------------------------------------------------------- JPEG
static const u8 kZig[64] = {0,1,8,16,9,2,3,10,17,24,32,25,18,11,4,5,12,19,26,33,40,48,41,34,27,20,13,6,7,14,21,28,35,42,49,56,57,50,43,36,29,22,15,23,30,37,44,51,58,59,52,45,38,31,39,46,53,60,61,54,47,55,62,63};
struct JComp { int H, V, bw, bh, pw, ph; std::vector<int16_t> co; };     // coefficients in zigzag order per block
struct JScan { std::vector<int> comps; int ss, se, ah, al; };
struct JSym { u8 cls, tab, sym; u8 nbits; u32 bits; };                    // cls 2: raw bits, 3: restart
static int nbits(int v) { v = abs(v); int n = 0; while (v) { n++; v >>= 1; } return n; }
struct JEnc {
  int w, h, mh, mv; std::vector<JComp> c; bool prog; int rst;
  // Produces the symbols of one scan.
  void scan(const JScan& s, std::vector<JSym>& o) const {
    int pred[3] = {}; u32 eobrun = 0; std::vector<u8> corr; int tac = 0;
    auto raw = [&](u32 v, int n) { if (n) o.push_back({2, 0, 0, u8(n), v & ((1u << n) - 1)}); };
    auto flush_eob = [&]() { if (!eobrun) return; int n = 0; while ((eobrun >> (n + 1)) != 0) n++; o.push_back({1, u8(tac), u8(n << 4), 0, 0}); raw(eobrun, n); eobrun = 0; for (u8 b : corr) raw(b, 1); corr.clear(); };
    auto block = [&](int ci, const int16_t* z) {
      int t = ci ? 1 : 0; tac = t;
      if (!prog) { int d = z[0] - pred[ci]; pred[ci] = z[0]; int n = nbits(d); o.push_back({0, u8(t), u8(n), 0, 0}); raw(u32(d < 0 ? d - 1 : d), n); int r = 0; for (int k = 1; k < 64; k++) { if (!z[k]) { r++; continue; } while (r > 15) { o.push_back({1, u8(t), 0xF0, 0, 0}); r -= 16; } int m = nbits(z[k]); o.push_back({1, u8(t), u8(r << 4 | m), 0, 0}); raw(u32(z[k] < 0 ? z[k] - 1 : z[k]), m); r = 0; } if (r) o.push_back({1, u8(t), 0, 0, 0}); return; }
      if (s.ss == 0) { if (!s.ah) { int v = z[0] >> s.al; int d = v - pred[ci]; pred[ci] = v; int n = nbits(d); o.push_back({0, u8(t), u8(n), 0, 0}); raw(u32(d < 0 ? d - 1 : d), n); } else raw(u32(z[0] >> s.al) & 1, 1); return; }
      auto val = [&](int k) { return (abs(z[k]) >> s.al); };
      if (!s.ah) { int r = 0; for (int k = s.ss; k <= s.se; k++) { int v = val(k); if (!v) { r++; continue; } flush_eob(); while (r > 15) { o.push_back({1, u8(t), 0xF0, 0, 0}); r -= 16; } int m = nbits(v); o.push_back({1, u8(t), u8(r << 4 | m), 0, 0}); raw(u32(z[k] < 0 ? ~v : v), m); r = 0; } if (r) { eobrun++; if (eobrun == 0x7FFF) flush_eob(); } return; }
      int eob = 0; for (int k = s.ss; k <= s.se; k++) if (val(k) == 1) eob = k; int r = 0; std::vector<u8> br;
      for (int k = s.ss; k <= s.se; k++) { int v = val(k); if (!v) { r++; continue; }
        while (r > 15 && k <= eob) { flush_eob(); o.push_back({1, u8(t), 0xF0, 0, 0}); r -= 16; for (u8 b : br) raw(b, 1); br.clear(); }
        if (v > 1) { br.push_back(u8(v & 1)); continue; }
        flush_eob(); o.push_back({1, u8(t), u8(r << 4 | 1), 0, 0}); raw(z[k] < 0 ? 0 : 1, 1); for (u8 b : br) raw(b, 1); br.clear(); r = 0; }
      if (r > 0 || !br.empty()) { eobrun++; corr.insert(corr.end(), br.begin(), br.end()); if (eobrun == 0x7FFF || corr.size() > 937) flush_eob(); }
    };
    int count = 0; auto restart = [&](bool last) { if (rst && ++count == rst && !last) { flush_eob(); o.push_back({3, 0, 0, 0, 0}); count = 0; pred[0] = pred[1] = pred[2] = 0; } };
    if (s.comps.size() == 1) { const JComp& q = c[s.comps[0]]; int bx = (q.pw + 7) / 8, by = (q.ph + 7) / 8; for (int y = 0; y < by; y++) for (int x = 0; x < bx; x++) { block(s.comps[0], &q.co[(size_t(y) * q.bw + x) * 64]); restart(y == by - 1 && x == bx - 1); } }
    else { int mw = (w + mh * 8 - 1) / (mh * 8), mhh = (h + mv * 8 - 1) / (mv * 8); for (int y = 0; y < mhh; y++) for (int x = 0; x < mw; x++) { for (int ci : s.comps) { const JComp& q = c[ci]; for (int v = 0; v < q.V; v++) for (int u = 0; u < q.H; u++) block(ci, &q.co[(size_t(y * q.V + v) * q.bw + x * q.H + u) * 64]); } restart(y == mhh - 1 && x == mw - 1); } }
    flush_eob();
  }
  void write(Rng& r, Bytes& o, const std::vector<JScan>& scans, const u16 q[2][64], int base_id) const {
    o.push_back(0xFF); o.push_back(0xD8); auto seg = [&](u8 m, const Bytes& d) { o.push_back(0xFF); o.push_back(m); be16(o, u32(d.size() + 2)); o.insert(o.end(), d.begin(), d.end()); };
    if (r.chance(3, 4)) seg(0xE0, Bytes{'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0}); if (r.chance(1, 3)) seg(0xFE, Bytes(r.below(30), 'c')); if (r.chance(1, 4)) seg(0xE1, Bytes(r.below(30), 'e'));
    bool one = r.chance(1, 2), big = r.chance(1, 4); Bytes dq; int nt = c.size() > 1 ? 2 : 1; for (int t = 0; t < nt; t++) { dq.push_back(u8(big << 4 | t)); for (int k = 0; k < 64; k++) { if (big) be16(dq, q[t][k]); else dq.push_back(u8(q[t][k])); } if (!one) { seg(0xDB, dq); dq.clear(); } } if (one) seg(0xDB, dq);
    Bytes sf{8}; be16(sf, h); be16(sf, w); sf.push_back(u8(c.size())); for (size_t i = 0; i < c.size(); i++) { sf.push_back(u8(i + base_id)); sf.push_back(u8(c[i].H << 4 | c[i].V)); sf.push_back(i ? 1 : 0); } seg(prog ? 0xC2 : r.chance(1, 4) ? 0xC1 : 0xC0, sf);
    if (rst) { Bytes d; be16(d, u32(rst)); seg(0xDD, d); }
    for (auto& s : scans) { std::vector<JSym> sy; scan(s, sy); std::vector<u32> fr[2][2]; for (auto& a : fr) for (auto& b : a) b.assign(257, 0); for (auto& x : sy) if (x.cls < 2) fr[x.cls][x.tab][x.sym]++;
      std::vector<u8> len[2][2]; std::vector<u32> code[2][2]; Bytes dh; bool oneh = r.chance(1, 2);
      for (int cl = 0; cl < 2; cl++) for (int t = 0; t < 2; t++) { auto& f = fr[cl][t]; bool any = false; for (u32 x : f) any |= x != 0; bool need = any; for (int ci : s.comps) if ((ci ? 1 : 0) == t && (cl == 0 ? s.ss == 0 : s.se > 0)) need = true; if (!need) continue; if (!any) f[0] = 1; f[256] = 1; if (r.chance(1, 4)) for (int i = 0; i < 256; i++) if (f[i] && i) f[i] = 1u << r.below(14);
        auto l = code_lengths(f, 15); // the all-ones code must stay unused: give the reserved symbol the longest code
        { u8 mx = 0; size_t at = 256; for (size_t i = 0; i < 257; i++) if (l[i] > mx) mx = l[i]; if (l[256] != mx) { for (size_t i = 0; i < 256; i++) if (l[i] == mx) at = i; std::swap(l[256], l[at]); } }
        len[cl][t] = l; code[cl][t] = canonical(l); dh.push_back(u8(cl << 4 | t)); for (int n = 1; n <= 16; n++) { int k = 0; for (int i = 0; i < 256; i++) k += l[i] == n; dh.push_back(u8(k)); } for (int n = 1; n <= 16; n++) for (int i = 0; i < 256; i++) if (l[i] == n) dh.push_back(u8(i)); if (!oneh) { seg(0xC4, dh); dh.clear(); } }
      if (!dh.empty()) seg(0xC4, dh);
      Bytes ss{u8(s.comps.size())}; for (int ci : s.comps) { ss.push_back(u8(ci + base_id)); ss.push_back(ci ? 0x11 : 0); } ss.push_back(u8(s.ss)); ss.push_back(u8(s.se)); ss.push_back(u8(s.ah << 4 | s.al)); seg(0xDA, ss);
      u64 acc = 0; int n = 0, rn = 0; auto byte = [&](u8 b) { o.push_back(b); if (b == 0xFF) o.push_back(0); }; auto put = [&](u32 v, int k) { acc = acc << k | v; n += k; while (n >= 8) { byte(u8(acc >> (n - 8))); n -= 8; acc &= (u64(1) << n) - 1; } }; auto pad = [&]() { if (n) put((1u << (8 - n)) - 1, 8 - n); };
      for (auto& x : sy) { if (x.cls == 2) { if (x.nbits > 16) { put(x.bits >> 16, x.nbits - 16); put(x.bits & 0xFFFF, 16); } else put(x.bits, x.nbits); } else if (x.cls == 3) { pad(); o.push_back(0xFF); o.push_back(u8(0xD0 + (rn++ & 7))); } else put(code[x.cls][x.tab][x.sym], len[x.cls][x.tab][x.sym]); }
      pad(); }
    o.push_back(0xFF); o.push_back(0xD9);
  }
};
static void fdct(const double* in, double* out) { static double cs[8][8]; static bool init = false; if (!init) { for (int x = 0; x < 8; x++) for (int u = 0; u < 8; u++) cs[x][u] = cos((2 * x + 1) * u * M_PI / 16) * (u ? 0.5 : 0.35355339059327373); init = true; }
  double t[64]; for (int y = 0; y < 8; y++) for (int u = 0; u < 8; u++) { double a = 0; for (int x = 0; x < 8; x++) a += in[y * 8 + x] * cs[x][u]; t[y * 8 + u] = a; } for (int v = 0; v < 8; v++) for (int u = 0; u < 8; u++) { double a = 0; for (int y = 0; y < 8; y++) a += t[y * 8 + u] * cs[y][v]; out[v * 8 + u] = a; } }
static std::vector<JScan> scans_for(Rng& r, int nc, bool prog) {
  std::vector<JScan> o; std::vector<int> all; for (int i = 0; i < nc; i++) all.push_back(i);
  if (!prog) { if (nc == 1 || r.chance(1, 2)) o.push_back({all, 0, 63, 0, 0}); else for (int i : all) o.push_back({{i}, 0, 63, 0, 0}); return o; }
  int al = int(r.below(3)); if (r.chance(1, 2) || nc == 1) o.push_back({all, 0, 0, 0, al}); else for (int i : all) o.push_back({{i}, 0, 0, 0, al});
  for (int i : all) { int k = 1, a = int(r.below(3)); std::vector<std::pair<int, int>> bands; while (k < 64) { int e = r.chance(1, 2) ? 63 : std::min(63, k + int(r.below(30))); bands.push_back({k, e}); k = e + 1; } for (auto& b : bands) { o.push_back({{i}, b.first, b.second, 0, a}); for (int l = a; l > 0; l--) o.push_back({{i}, b.first, b.second, l, l - 1}); } }
  for (int l = al; l > 0; l--) { if (r.chance(1, 2)) o.push_back({all, 0, 0, l, l - 1}); else for (int i : all) o.push_back({{i}, 0, 0, l, l - 1}); }
  return o;
}
File jpeg(Rng& r, int ms) {
  File f; f.codec = "JPEG"; JEnc e; e.w = side(r, ms); e.h = side(r, ms); int nc = r.chance(1, 4) ? 1 : 3; int H = 1, V = 1; if (nc == 3) { H = r.pick({1, 2}); V = r.pick({1, 2}); } e.mh = H; e.mv = V; bool sub = H * V > 1; bool coarse = r.chance(1, 3);
  u16 q[2][64]; for (auto& t : q) for (auto& x : t) x = coarse ? u16(1 + r.below(40)) : 1; u32 mode = r.below(3); u64 key = r.next(); int cb = r.range(108, 148), cr = r.range(108, 148);
  auto plane = [&](int i, int x, int y) -> double { if (i == 0) { switch (mode) { case 0: return 60 + double(mix3(key, x, y) % 130); case 1: return 60 + ((x * 3 + y * 5) % 130); default: return 100 + double(mix3(key, x / 6, y / 7) % 60) + ((x ^ y) & 3); } } if (sub) return i == 1 ? cb : cr; return (i == 1 ? cb : cr) + double((x * (i + 1) + y) % 24) - 12; };
  int mw = (e.w + H * 8 - 1) / (H * 8), mhh = (e.h + V * 8 - 1) / (V * 8); e.c.resize(nc);
  for (int i = 0; i < nc; i++) { JComp& c = e.c[i]; c.H = i ? 1 : H; c.V = i ? 1 : V; c.bw = mw * c.H; c.bh = mhh * c.V; c.pw = (e.w * c.H + H - 1) / H; c.ph = (e.h * c.V + V - 1) / V; c.co.resize(size_t(c.bw) * c.bh * 64);
    for (int by = 0; by < c.bh; by++) for (int bx = 0; bx < c.bw; bx++) { double in[64], out[64]; for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) in[y * 8 + x] = plane(i, bx * 8 + x, by * 8 + y) - 128; fdct(in, out); for (int k = 0; k < 64; k++) c.co[(size_t(by) * c.bw + bx) * 64 + k] = int16_t(lrint(out[kZig[k]] / q[i ? 1 : 0][k])); } }
  Frame fr; fr.w = e.w; fr.h = e.h; fr.fmt = BL_FORMAT_XRGB32; if (!coarse) for (int y = 0; y < e.h; y++) for (int x = 0; x < e.w; x++) { double Y = plane(0, x, y), B = nc == 3 ? plane(1, x, y) - 128 : 0, R = nc == 3 ? plane(2, x, y) - 128 : 0; auto cl = [](double v) { return u32(std::max(0.0, std::min(255.0, floor(v + 0.5)))); }; fr.px.push_back(0xFF000000u | cl(Y + 1.402 * R) << 16 | cl(Y - 0.344136 * B - 0.714136 * R) << 8 | cl(Y + 1.772 * B)); }
  f.tol = 5; if (!fr.px.empty()) f.frames.push_back(fr); else { fr.px.clear(); f.frames.push_back(fr); }
  // two encodings of the same coefficients
  bool p1 = r.chance(1, 2); for (int n = 0; n < 2; n++) { e.prog = n ? !p1 || r.chance(1, 3) : p1; e.rst = r.chance(1, 2) ? 0 : 1 + int(r.below(9)); auto sc = scans_for(r, nc, e.prog); e.write(r, n ? f.twin : f.data, sc, q, r.chance(1, 6) ? 0 : 1); std::string d = strf("JPEG %dx%d %s comps %d H%dV%d restart %d scans %zu%s", e.w, e.h, e.prog ? "progressive" : "baseline", nc, H, V, e.rst, sc.size(), sc[0].comps.size() == 1 && nc > 1 ? " non-interleaved" : ""); (n ? f.twin_desc : f.desc) = d; }
  return f;
}
File random_file(Rng& r, int ms) { switch (r.below(7)) { case 0: case 1: case 2: return png(r, ms); case 3: return bmp(r, ms); case 4: return qoi(r, ms); default: return jpeg(r, ms); } }
void reshape(Rng& r, Bytes& b, const std::string& codec, std::string* ds) {
  auto put = [&](size_t at, u32 v, int n, bool be) { for (int j = 0; j < n && at + j < b.size(); j++) b[at + j] = u8(v >> (be ? 8 * (n - 1 - j) : 8 * j)); };
  auto get = [&](size_t at, int n, bool be) { u32 v = 0; for (int j = 0; j < n && at + j < b.size(); j++) v |= u32(b[at + j]) << (be ? 8 * (n - 1 - j) : 8 * j); return v; };
  auto other = [&](u32 v) { switch (r.below(7)) { case 0: return v + 1; case 1: return v ? v - 1 : 1; case 2: return v / 2; case 3: return v * 2; case 4: return u32(1 + r.below(40)); case 5: return r.pick({65535u, 32768u, 65536u, 4096u, 0u}); default: return v + r.below(30); } };
  if (codec == "PNG") { if (r.chance(1, 3)) { // any chunk: IHDR, fcTL, acTL
      std::vector<size_t> at; size_t p = 8; while (p + 12 <= b.size()) { u32 n = get(p, 4, true); if (n > b.size() - p - 12) break; at.push_back(p); p += 12 + n; }
      if (at.empty()) return; size_t c = at[r.below(u32(at.size()))]; if (r.chance(1, 4)) { u32 n = other(get(c, 4, true)); put(c, n, 4, true); *ds += strf("chunk@%zu=%u ", c, n); } else { size_t k = c + 8 + 4 * r.below(6); u32 v = other(get(k, 4, true)); put(k, v, 4, true); *ds += strf("field@%zu=%u ", k, v); } }
    else { size_t k = r.chance(1, 2) ? 16 : 20; if (r.chance(1, 4)) { k = 24 + r.below(5); u32 v = r.pick({0u, 1u, 2u, 3u, 4u, 6u, 8u, 16u}); put(k, v, 1, true); *ds += strf("ihdr@%zu=%u ", k, v); } else { u32 v = other(get(k, 4, true)); put(k, v, 4, true); *ds += strf("ihdr@%zu=%u ", k, v); } } }
  else if (codec == "BMP") { size_t k = r.pick({size_t(10), size_t(14), size_t(18), size_t(22), size_t(28), size_t(30), size_t(34)}); int n = k == 28 ? 2 : 4; u32 v = k == 28 ? r.pick({1u, 4u, 8u, 16u, 24u, 32u}) : k == 30 ? r.below(5) : other(get(k, n, false)); put(k, v, n, false); *ds += strf("field@%zu=%u ", k, v); if (r.chance(1, 2) && b.size() > 60) { size_t at = 54 + r.below(u32(b.size() - 54)); b[at] = 0; if (at + 3 < b.size()) { b[at + 1] = u8(r.below(3)); b[at + 2] = u8(r.below(40)); b[at + 3] = u8(r.below(40)); } *ds += strf("rle@%zu ", at); } }
  else if (codec == "QOI") { size_t k = r.pick({size_t(4), size_t(8)}); u32 v = other(get(k, 4, true)); put(k, v, 4, true); *ds += strf("field@%zu=%u ", k, v); }
  else { size_t p = 2; std::vector<std::pair<size_t, u8>> seg; while (p + 4 <= b.size() && b[p] == 0xFF) { u8 m = b[p + 1]; seg.push_back({p, m}); if (m == 0xDA) { p += 2 + get(p + 2, 2, true); while (p + 1 < b.size() && !(b[p] == 0xFF && b[p + 1] && (b[p + 1] < 0xD0 || b[p + 1] > 0xD7))) p++; } else p += 2 + get(p + 2, 2, true); }
    if (seg.empty()) return; auto s = seg[r.below(u32(seg.size()))]; switch (r.below(4)) {
      case 0: for (auto& x : seg) if (x.second >= 0xC0 && x.second <= 0xC2) { size_t k = x.first + r.pick({5, 7}); if (r.chance(1, 3)) { k = x.first + 11 + 3 * r.below(3); u32 v = u32(r.range(1, 4)) << 4 | u32(r.range(1, 4)); put(k, v, 1, true); *ds += strf("factor@%zu=%x ", k, v); } else { u32 v = other(get(k, 2, true)); put(k, v, 2, true); *ds += strf("size@%zu=%u ", k, v); } } break;
      case 1: { size_t n = std::min(b.size(), s.first + 2 + get(s.first + 2, 2, true)); b.erase(b.begin() + s.first, b.begin() + n); *ds += strf("no-segment-%02x ", s.second); break; }
      case 2: { size_t n = std::min(b.size(), s.first + 2 + get(s.first + 2, 2, true)); Bytes c(b.begin() + s.first, b.begin() + n); auto t = seg[r.below(u32(seg.size()))]; b.insert(b.begin() + t.first, c.begin(), c.end()); *ds += strf("segment-%02x-before-%02x ", s.second, t.second); break; }
      default: { size_t k = s.first + 4 + r.below(24); if (k < b.size()) b[k] = u8(r.chance(1, 2) ? r.below(64) : r.next()); *ds += strf("segment-%02x-field ", s.second); } } }
}
void damage(Rng& r, Bytes& b, const Bytes& other, std::string* ds) {
  int n = 1 + int(r.below(r.pick({1u, 3u, 12u}))); 
  for (int i = 0; i < n && !b.empty(); i++) { size_t head = std::min<size_t>(b.size(), 200); size_t at = r.chance(1, 2) ? r.below(u32(head)) : r.below(u32(b.size()));
    switch (r.below(9)) {
      case 0: b[at] ^= u8(1u << r.below(8)); *ds += strf("bit@%zu ", at); break;
      case 1: b[at] = u8(r.next()); *ds += strf("byte@%zu ", at); break;
      case 2: b[at] = r.pick({u8(0), u8(255), u8(127), u8(128), u8(1)}); *ds += strf("edge@%zu ", at); break;
      case 3: { u32 v = r.pick({0u, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x10000u, 65535u, 32768u, u32(r.next()), 1u, 0x00010001u}); bool be = r.chance(1, 2); int k = r.chance(1, 2) ? 4 : 2; for (int j = 0; j < k && at + j < b.size(); j++) b[at + j] = u8(v >> (be ? 8 * (k - 1 - j) : 8 * j)); *ds += strf("word@%zu=%x ", at, v); break; }
      case 4: b.resize(r.chance(1, 3) ? at : b.size() - r.below(u32(std::min<size_t>(b.size(), 20)))); *ds += strf("cut=%zu ", b.size()); break;
      case 5: { size_t s = r.below(u32(b.size())) & ~size_t(511); for (size_t j = s; j < s + 512 && j < b.size(); j++) b[j] = 0; *ds += strf("lost@%zu ", s); break; }
      case 6: { size_t s = r.below(u32(b.size())); for (size_t j = s; j < b.size() && j < other.size(); j++) b[j] = other[j]; *ds += strf("foreign@%zu ", s); break; }
      case 7: { size_t k = 1 + r.below(16); size_t e = std::min(b.size(), at + k); if (r.chance(1, 2)) { Bytes c(b.begin() + at, b.begin() + e); b.insert(b.begin() + at, c.begin(), c.end()); *ds += strf("dup@%zu ", at); } else { b.erase(b.begin() + at, b.begin() + e); *ds += strf("del@%zu ", at); } break; }
      default: { size_t k = 1 + r.below(40); for (size_t j = at; j < at + k && j < b.size(); j++) b[j] = u8(r.next()); *ds += strf("noise@%zu ", at); }
    } }
}
}
