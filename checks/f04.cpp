// F04: encoders: what an encoder writes decodes to the same pixels, depends on nothing but the pixels, and is either written completely
// or not at all, whatever I/O calls and allocations fail and whatever the encoder, the array and the image were used for before.
#include "common.h"
using namespace sim; using namespace cm;
namespace {
u64 io_faults() { u64 n = 0; for (u32 k = F_OPEN; k <= F_MMAP; k++) if (k != F_READ_SHORT && k != F_WRITE_SHORT) n += faults_fired(FaultKind(k)); return n + faults_fired(F_ALLOC); }
__attribute__((noinline)) void scrub_stack(u8 v) { volatile u8 b[48 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = u8(v + i * 7); asm volatile("" ::: "memory"); }
struct Pic { BLImage im; int w = 0, h = 0; BLFormat fmt = BL_FORMAT_PRGB32; std::vector<u32> px; u8* mem = nullptr; size_t mem_n = 0; u64 mem_hash = 0; bool ro = false; std::string desc; };
u32 premul(u32 a, u32 c) { u32 x = c * a + 128; return (x + (x >> 8)) >> 8; }
// Random content; kinds that matter to run lengths, the QOI index and differences, and to matches of the DEFLATE encoder.
void fill(Rng& q, Pic& p, std::string* what) {
  u32 kind = q.below(9); size_t n = size_t(p.w) * p.h; p.px.resize(n); u32 pal[80]; u32 np = 1 + q.below(79); auto rnd = [&]() -> u32 { u32 v = u32(q.next()); if (p.fmt == BL_FORMAT_A8) return v & 255; if (p.fmt == BL_FORMAT_XRGB32) return v | 0xFF000000u; u32 a = q.chance(1, 3) ? 255 : q.chance(1, 4) ? 0 : v >> 24; return a << 24 | premul(a, v >> 16 & 255) << 16 | premul(a, v >> 8 & 255) << 8 | premul(a, v & 255); };
  for (u32 i = 0; i < np; i++) pal[i] = rnd(); static const char* nm[] = {"noise", "constant", "palette", "runs", "rows", "slow changes", "periodic", "sparse", "runs of few lengths"}; *what += nm[kind]; u32 cur = q.chance(1, 2) ? pal[0] : (p.fmt == BL_FORMAT_A8 ? (q.chance(1, 2) ? 0u : 255u) : 0xFF000000u); size_t left = 0, per = 1 + q.below(q.chance(1, 2) ? 300 : 9);
  for (size_t i = 0; i < n; i++) { u32 v; size_t x = i % size_t(p.w), y = i / size_t(p.w);
    switch (kind) { case 0: v = rnd(); break; case 1: v = cur; break; case 2: v = pal[q.below(np)]; break; case 3: if (!left) { left = 1 + q.below(q.chance(1, 3) ? 200 : 5); cur = i ? pal[q.below(np)] : cur; } left--; v = cur; break; case 4: v = y && !q.chance(1, 8 + u32(p.w)) ? p.px[i - size_t(p.w)] : rnd(); break;
      case 5: { u32 d = q.below(6); if (p.fmt == BL_FORMAT_A8) { cur = (cur + d - 2) & 255; v = cur; } else { u32 a = p.fmt == BL_FORMAT_PRGB32 && q.chance(1, 30) ? q.below(256) : cur >> 24; u32 c[3]; for (int k = 0; k < 3; k++) { int t = int(cur >> (8 * k) & 255) + int(q.below(q.pick({3u, 6u, 40u}))) - int(d); if (p.fmt == BL_FORMAT_PRGB32) t = std::max(0, std::min(t, int(a))); c[k] = u32(t) & 255; } v = a << 24 | c[2] << 16 | c[1] << 8 | c[0]; cur = v; } break; }
      case 6: v = i >= per && !q.chance(1, 60) ? p.px[i - per] : rnd(); break; case 7: v = q.chance(1, 40) ? rnd() : cur; break;
      default: if (!left) { left = q.pick({1u, 2u, 61u, 62u, 63u, 64u, 124u, 125u, 258u, 259u}); cur = pal[q.below(np)]; } left--; v = cur; break; }
    (void)x; if (p.fmt == BL_FORMAT_PRGB32) { u32 a = v >> 24; for (int s = 0; s < 24; s += 8) if ((v >> s & 255) > a) v = (v & ~(255u << s)) | a << s; } p.px[i] = v; }
}
void drop(Pic& p) { p.im.reset(); if (p.mem) { if (p.ro && hash_bytes(p.mem, p.mem_n) != p.mem_hash) fail("external-written", "pixels of a read-only external image were modified"); user_free(p.mem); } p.mem = nullptr; }
void make(Rng& q, Pic& p, bool big) {
  drop(p); p.fmt = q.pick({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); switch (q.below(big ? 7 : 6)) { case 0: p.w = 1 + q.below(4); p.h = 1 + q.below(4); break; case 1: p.w = 1 + q.below(1200); p.h = 1; break; case 2: p.w = 1; p.h = 1 + q.below(400); break; case 6: p.w = 200 + q.below(300); p.h = 100 + q.below(200); break; default: p.w = 1 + q.below(q.pick({20u, 70u, 130u})); p.h = 1 + q.below(40); }
  u32 bpp = p.fmt == BL_FORMAT_A8 ? 1 : 4; p.desc = strf("%dx%d format %u, ", p.w, p.h, u32(p.fmt)); std::string c; fill(q, p, &c); p.desc += c; BLImageData d;
  bool ext = q.chance(1, 3); intptr_t stride = intptr_t(p.w) * bpp + intptr_t(ext ? q.pick({0u, 0u, 1u, 3u, 7u, 40u}) * bpp : 0);
  if (ext) { bool neg = q.chance(1, 3); p.ro = q.chance(1, 2); size_t n = size_t(stride) * (p.h - 1) + size_t(p.w) * bpp; p.mem = (u8*)user_alloc(n); p.mem_n = n; for (size_t i = 0; i < n; i++) p.mem[i] = u8(q.next()); u8* first = neg ? p.mem + size_t(stride) * (p.h - 1) : p.mem; if (neg) stride = -stride; p.desc += strf(", external with stride %d", int(stride));
    for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { u32 v = p.px[size_t(y) * p.w + x]; if (bpp == 1) first[y * stride + x] = u8(v); else { if (p.fmt == BL_FORMAT_XRGB32) v = (v & 0xFFFFFF) | u32(q.next()) << 24; memcpy(first + y * stride + x * 4, &v, 4); } } p.mem_hash = hash_bytes(p.mem, p.mem_n);
    if (p.im.create_from_data(p.w, p.h, p.fmt, first, stride, p.ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW)) harness_error("create_from_data"); }
  else { if (p.im.create(p.w, p.h, p.fmt) || p.im.make_mutable(&d)) harness_error("create"); for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { u32 v = p.px[size_t(y) * p.w + x]; u8* t = (u8*)d.pixel_data + y * d.stride; if (bpp == 1) t[x] = u8(v); else { if (p.fmt == BL_FORMAT_XRGB32) v = (v & 0xFFFFFF) | u32(q.next()) << 24; memcpy(t + x * 4, &v, 4); } } }
}
// The picture a decoder has to return for `p`.
u32 expect(const Pic& p, const std::string& codec, size_t i) { u32 v = p.px[i]; if (p.fmt == BL_FORMAT_A8) return codec == "QOI" ? v * 0x01010101u : 0xFF000000u | v * 0x010101u; return v; }
std::string differs(const Pic& p, const std::string& codec, const BLImage& im) {
  BLImageData d; if (im.get_data(&d)) return "get_data() fails"; if (d.size.w != p.w || d.size.h != p.h) return strf("size %dx%d instead of %dx%d", d.size.w, d.size.h, p.w, p.h);
  for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { const u8* s = (const u8*)d.pixel_data + y * d.stride; u32 v; if (d.format == BL_FORMAT_A8) v = s[x] * 0x01010101u; else { memcpy(&v, s + x * 4, 4); if (d.format == BL_FORMAT_XRGB32) v |= 0xFF000000u; } u32 e = expect(p, codec, size_t(y) * p.w + x); if (v != e) return strf("pixel %d,%d is %08x instead of %08x", x, y, v, e); }
  return "";
}
// Checksums and sizes in the file itself (decoders do not look at all of them).
std::string malformed(const std::string& codec, const u8* p, size_t n, const Pic& pic) {
  auto be = [&](size_t i) { return u32(p[i]) << 24 | u32(p[i + 1]) << 16 | u32(p[i + 2]) << 8 | p[i + 3]; }; auto le = [&](size_t i) { u32 v; memcpy(&v, p + i, 4); return v; };
  if (codec == "PNG") { static u32 tab[256]; if (!tab[1]) for (u32 i = 0; i < 256; i++) { u32 c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; }
    size_t i = 8; bool end = false; if (n < 8 || memcmp(p, "\x89PNG\r\n\x1a\n", 8)) return "no PNG signature"; while (i + 12 <= n) { u32 l = be(i); if (l > n - i - 12) return "a chunk is longer than the file"; u32 c = ~0u; for (size_t k = i + 4; k < i + 8 + l; k++) c = tab[(c ^ p[k]) & 255] ^ (c >> 8); if (~c != be(i + 8 + l)) return strf("the CRC of chunk %.4s is wrong", (const char*)p + i + 4);
      if (!memcmp(p + i + 4, "IDAT", 4)) { u32 bpp = pic.fmt == BL_FORMAT_A8 ? 1 : pic.fmt == BL_FORMAT_XRGB32 ? 3 : 4; u32 s1 = 1, s2 = 0; auto add = [&](u32 x) { s1 = (s1 + x) % 65521; s2 = (s2 + s1) % 65521; }; for (int y = 0; y < pic.h; y++) { add(0); for (int x = 0; x < pic.w; x++) { u32 v = pic.px[size_t(y) * pic.w + x]; if (bpp == 1) { add(v); continue; } u32 a = v >> 24; if (bpp == 4 && a && a < 255) return i + 12 + l + 12 == n ? "" : "data after the last chunk"; if (bpp == 4 && !a) v = 0; add(v >> 16 & 255); add(v >> 8 & 255); add(v & 255); if (bpp == 4) add(a); } } if (l < 6 || be(i + 8 + l - 4) != (s2 << 16 | s1)) return "the Adler checksum is wrong"; if ((p[i + 8] * 256 + p[i + 9]) % 31 || (p[i + 8] & 15) != 8) return "the zlib header is wrong"; }
      end = !memcmp(p + i + 4, "IEND", 4); i += 12 + l; } return end && i == n ? "" : "the file does not end with IEND"; }
  if (codec == "BMP") { if (n < 54 || p[0] != 'B' || p[1] != 'M') return "no BMP signature"; if (le(2) != n) return strf("the file size field says %u instead of %zu", le(2), n); u32 bits = le(28) & 0xFFFF; size_t row = (size_t(pic.w) * bits / 8 + 3) & ~size_t(3); if (le(10) + row * pic.h != n) return "the offset of pixels and the size of the file do not agree"; for (int y = 0; y < pic.h; y++) for (size_t k = size_t(pic.w) * bits / 8; k < row; k++) if (p[le(10) + row * y + k]) return "padding of a line is not zero"; return ""; }
  if (n < 22 || memcmp(p, "qoif", 4) || be(4) != u32(pic.w) || be(8) != u32(pic.h) || memcmp(p + n - 8, "\0\0\0\0\0\0\0\1", 8)) return "header or end marker of QOI is wrong"; return "";
}
struct Arr { BLArray<uint8_t> a; std::vector<u8> m; };
void check_arr(const Arr& x, const char* what, const std::string& ds) { if (x.a.size() != x.m.size() || (x.m.size() && memcmp(x.a.data(), x.m.data(), x.m.size()))) fail("array-changed", std::string(what) + ": the content of an array changed; " + ds); }
void check_pic(const Pic& p, const std::string& ds) { BLImageData d; if (p.im.get_data(&d)) fail("image-changed", "get_data() fails"); if (d.size.w != p.w || d.size.h != p.h || d.format != p.fmt) fail("image-changed", "the encoded image changed: " + ds); for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { const u8* s = (const u8*)d.pixel_data + y * d.stride; u32 v; if (p.fmt == BL_FORMAT_A8) v = s[x]; else { memcpy(&v, s + x * 4, 4); if (p.fmt == BL_FORMAT_XRGB32) v |= 0xFF000000u; } if (v != p.px[size_t(y) * p.w + x]) fail("image-changed", strf("pixel %d,%d of the encoded image changed: ", x, y) + ds); } }
const char* kNames[] = {"PNG", "BMP", "QOI"};
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_heap(r); T.strategy = 3; T.sync_den = 0; T.max_events = 400000000; faults_here(false);
  if (r.chance(2, 3)) T.fault[F_ALLOC] = r.pick({1500u, 6000u, 20000u}); u32 den = r.pick({0u, 3000u, 12000u}); for (u32 k : {F_OPEN, F_READ_ERR, F_READ_EINTR, F_WRITE_ERR, F_WRITE_NOSPC, F_SEEK, F_STAT, F_CLOSE, F_MMAP}) if (r.chance(1, 2)) T.fault[k] = den; T.fault[F_READ_SHORT] = r.pick({0u, 30000u}); T.fault[F_WRITE_SHORT] = r.pick({0u, 30000u});
  bool big = r.chance(1, 8); tuning_applied(); u32 nops = u32(r.range(2, big ? 5 : 14)); u64 wseed = r.next(); set_nops(nops); std::string ds; u64 oh = 1; faults_on(true); release_caches(); u64 mark = heap_mark();
  { Pic pic[2]; Arr arr[2]; BLImageEncoder enc[3]; BLImageCodec codec[3]; u32 level = 6; BLImage sink; { Rng q(mix2(wseed, 1)); for (auto& p : pic) make(q, p, big); } for (int k = 0; k < 3; k++) if (codec[k].find_by_name(kNames[k]) || codec[k].create_encoder(&enc[k])) harness_error("codec");
    auto decode = [&](const u8* d, size_t n, const Pic& p, int k, const char* what) { std::string mf = malformed(kNames[k], d, n, p); if (!mf.empty()) fail(std::string("malformed:") + kNames[k], std::string(what) + ": " + mf + "; " + ds); u8* in = (u8*)user_alloc(n); memcpy(in, d, n); BLResult e = sink.read_from_data(in, n); user_free(in); if (e) fail(std::string("undecodable:") + kNames[k], strf("%s: the file does not decode (0x%x): ", what, e) + ds); std::string df = differs(p, kNames[k], sink); if (!df.empty()) fail(std::string("pixels:") + kNames[k], std::string(what) + ": " + df + "; " + ds); count((std::string("exact_") + kNames[k]).c_str()); };
    for (u32 i = 0; i < nops; i++) { if (!op_enabled(i)) continue; op_begin(i); Rng q(mix3(wseed, 0xF04, i)); int k = q.chance(1, 2) ? 0 : int(1 + q.below(2)); Pic& p = pic[q.below(2)]; Arr& A = arr[q.below(2)]; if (q.chance(1, 3)) make(q, p, big);
      switch (q.below(6)) { case 0: A.a.clear(); A.m.clear(); break; case 1: A.a.reset(); A.m.clear(); A.a.reserve(q.below(5000)); break; case 2: arr[0].a = arr[1].a; arr[0].m = arr[1].m; break; case 3: { size_t n = q.below(40); A.m.assign(n, u8(7)); if (A.a.resize(n, 7)) harness_error("resize"); for (size_t t = 0; t < n; t++) A.m[t] = A.a[t]; break; } default: break; }
      u32 how = q.below(6); ds += strf("%s of %s by %s; ", kNames[k], p.desc.c_str(), how < 2 ? "write_to_data" : how < 4 ? "encoder" : how < 5 ? "write_to_file" : "file without codec"); u64 f0 = io_faults(); size_t old = A.m.size(); BLResult e = 0;
      if (how < 4) { u32 setl = q.below(4); bool clean = false;
        for (int attempt = 0;; attempt++) { f0 = io_faults(); scrub_stack(u8(q.next()));
          if (how >= 2 && k == 0 && setl == 0 && attempt == 0) { u32 l = q.below(14); faults_here(!clean); BLResult s = enc[0].set_property("compression", BLVar(u64(l))); faults_here(false); if (s) { if (io_faults() == f0) fail("set_property", strf("set_property(compression) = 0x%x: ", s) + ds); } else { level = std::min(l, 12u); ds += strf("level %u; ", level); } }
          if (how >= 2 && setl == 1 && attempt == 0) { if (enc[k].restart()) fail("restart", "restart() failed: " + ds); if (k == 0) level = 6; }
          if (how >= 2 && k == 0) { BLVar v; u64 g = 99; if (enc[0].get_property("compression", v) || v.to_uint64(&g) || g != level) fail("get_property", strf("compression is %u instead of %u: ", u32(g), level) + ds); }
          f0 = io_faults(); faults_here(!clean); e = how < 2 ? p.im.write_to_data(A.a, codec[k]) : enc[k].write_frame(A.a, p.im); faults_here(false);
          check_pic(p, ds); if (!e) break; if (io_faults() == f0) fail(std::string("encode-error:") + kNames[k], strf("encoding failed with 0x%x although nothing failed: ", e) + ds); count("encode_failed"); note_nontrivial(); check_arr(A, "a failed encoding", ds); clean = attempt >= 3; }
        const u8* d = A.a.data(); size_t n = A.a.size(); size_t off = k == 0 ? old : 0; if (n < off || (off && memcmp(d, A.m.data(), off))) fail("array-prefix", "encoding changed what the array held before: " + ds); decode(d + off, n - off, p, k, "encoded data"); A.m.assign(d, d + n);
        if (q.chance(1, 3)) { u64 g = T.garbage; T.garbage = q.next(); scrub_stack(u8(q.next())); BLArray<uint8_t> b; BLImageEncoder e2; BLResult e1 = codec[k].create_encoder(&e2); if (!e1 && k == 0 && how >= 2) e1 = e2.set_property("compression", BLVar(u64(level))); if (!e1) e1 = e2.write_frame(b, p.im); T.garbage = g; if (e1) fail("encode-error", strf("encoding again failed with 0x%x: ", e1) + ds); if (b.size() != n - off || memcmp(b.data(), d + off, n - off)) fail(std::string("unstable:") + kNames[k], strf("encoding the same image twice gives different files (%zu and %zu bytes): ", n - off, b.size()) + ds); count("repeated"); } }
      else if (how == 4 || how == 5) { static const char* fn[] = {"/data/o.png", "/data/o.bmp", "/data/o.qoi"}; f0 = io_faults(); faults_here(true); e = how == 4 ? p.im.write_to_file(fn[k], codec[k]) : bl_image_write_to_file(&p.im, fn[k], nullptr); faults_here(false); check_pic(p, ds);
        if (e) { if (io_faults() == f0) fail("file-error", strf("write_to_file() = 0x%x although nothing failed: ", e) + ds); count("file_write_failed"); note_nontrivial(); }
        else { std::vector<u8> b = fs::get(fn[k]); decode(b.data(), b.size(), p, k, "written file"); f0 = io_faults(); faults_here(true); BLImage back; e = back.read_from_file(fn[k]); faults_here(false); if (e) { if (io_faults() == f0) fail("file-read", strf("read_from_file() = 0x%x although nothing failed: ", e) + ds); } else { std::string df = differs(p, kNames[k], back); if (!df.empty()) fail("file-pixels", df + "; " + ds); } count("files"); } fs::remove(fn[k]); }
      if (q.chance(1, 12)) { BLImage none; BLImageCodec jp; if (jp.find_by_name("JPEG")) harness_error("JPEG"); if (enc[k].write_frame(A.a, none) == BL_SUCCESS) fail("accepted:empty", "an empty image was encoded"); check_arr(A, "encoding an empty image", ds); if (p.im.write_to_data(A.a, jp) != BL_ERROR_IMAGE_ENCODER_NOT_PROVIDED) fail("accepted:jpeg", "writing JPEG did not report that there is no encoder"); check_arr(A, "a codec without encoder", ds); }
      for (auto& x : arr) check_arr(x, "another array", ds); if (A.m.size() > 2000000) { A.a.reset(); A.m.clear(); } oh = mix2(oh, hash_bytes(A.m.data(), A.m.size())); op_end();
    }
    for (auto& p : pic) drop(p);
  }
  faults_on(false); release_caches(); if (fs::open_fds()) fail("fd-leak", "file descriptors are open"); leak_check(mark, "encoding"); sample(ds.substr(0, 1200)); out(mix2(oh, hash_bytes(ds.data(), ds.size())));
}
static int reg = (register_check({"F04",
  "A run takes two images (three formats, random sizes and content that exercises runs, the QOI index and matches, own or external memory with any stride) and up to 14 times writes one of them as PNG (compression 0 to 12), BMP or QOI into one of two arrays that are empty, used, reserved or shared, with new or reused encoders, or to a file, under failing allocations and failing, short and interrupted I/O. Checked: the file decodes to exactly the same pixels, its checksums and size fields are right, the same image gives the same bytes whatever fresh memory contained, no failure without a fault, a failed encoding leaves array and image as they were and can be repeated, no access outside of pixels and buffers, no leak. Non-trivial: an encoding or a write failed.",
  "real: PNG, BMP and QOI encoders and decoders, DEFLATE encoder and decoder, pixel conversion, file system layer; simulated: POSIX file calls, disk, heap",
  run, nullptr}), 0);
