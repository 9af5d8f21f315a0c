// F02: decoding of image files: intact files give their pixels under any I/O and allocation fault, damaged files give an
// error or an image, without touching memory outside of the objects involved and independently of what memory contained before.
#include "common.h"
#include "imggen.h"
using namespace sim; using namespace cm;
namespace {
u64 io_faults() { u64 n = 0; for (u32 k = F_OPEN; k <= F_MMAP; k++) if (k != F_READ_SHORT && k != F_WRITE_SHORT) n += faults_fired(FaultKind(k)); return n + faults_fired(F_ALLOC); }
__attribute__((noinline)) void scrub_stack(u8 v) { volatile u8 b[48 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = u8(v + i * 7); asm volatile("" ::: "memory"); }
// Input in a block of exactly its size, so that every read outside of it hits a red zone.
struct Input { u8* p; size_t n; explicit Input(const ig::Bytes& b, size_t k) : n(k) { p = (u8*)user_alloc(n ? n : 1); memcpy(p, b.data(), n); } explicit Input(const ig::Bytes& b) : Input(b, b.size()) {} ~Input() { user_free(p); } };
u64 image_digest(const BLImage& im) {
  BLImageData d; if (im.get_data(&d)) return 1; u64 h = mix3(u64(u32(d.size.w)), u64(u32(d.size.h)), d.format); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4;
  if (d.size.w <= 0 || d.size.h <= 0) return h;
  if (d.format == BL_FORMAT_XRGB32) { std::vector<u32> row(size_t(d.size.w)); for (int y = 0; y < d.size.h; y++) { memcpy(row.data(), (u8*)d.pixel_data + y * d.stride, size_t(d.size.w) * 4); for (auto& v : row) v |= 0xFF000000u; h = mix2(h, hash_bytes(row.data(), row.size() * 4)); } }
  else for (int y = 0; y < d.size.h; y++) h = mix2(h, hash_bytes((u8*)d.pixel_data + y * d.stride, size_t(d.size.w) * bpp));
  return h;
}
std::string differs(const BLImage& im, const ig::Frame& F, int tol) {
  BLImageData d; if (im.get_data(&d)) return "get_data() fails"; if (d.size.w != F.w || d.size.h != F.h) return strf("size %dx%d instead of %dx%d", d.size.w, d.size.h, F.w, F.h); if (d.format != F.fmt) return strf("format %u instead of %u", u32(d.format), u32(F.fmt));
  if (F.px.empty()) return "";
  i64 bg = -1;
  for (int y = 0; y < F.h; y++) { const u32* row = (const u32*)((const u8*)d.pixel_data + y * d.stride); for (int x = 0; x < F.w; x++) { u32 a = row[x], b = F.px[size_t(y) * F.w + x]; if (!F.bg.empty() && F.bg[size_t(y) * F.w + x]) { if (bg < 0) bg = i64(a); b = u32(bg); } if (F.fmt == BL_FORMAT_XRGB32) a |= 0xFF000000u, b |= 0xFF000000u; for (int s = 0; s < 32; s += 8) if (abs(int((a >> s) & 255) - int((b >> s) & 255)) > tol) return strf("pixel %d,%d is %08x instead of %08x", x, y, a, b); } }
  return "";
}
BLResult make_decoder(const Input& in, BLImageDecoder& dec, BLImageCodec* co = nullptr) { BLImageCodec c; BLResult e = c.find_by_data(in.p, in.n); if (e) return e; if (co) *co = c; return c.create_decoder(&dec); }
// Everything a decoder tells about a (possibly damaged) file.
struct Outcome { std::vector<u64> v; BLResult first = 0; int frames = 0; bool operator==(const Outcome& o) const { return v == o.v; } };
Outcome decode_all(const Input& in, int max_frames, const char* who, bool info_first) {
  Outcome o; BLImageDecoder dec; BLResult e = make_decoder(in, dec); o.v.push_back(e); o.first = e; if (e) return o;
  BLImageInfo inf; memset(&inf, 0, sizeof inf); BLResult ei = 0;
  if (info_first) { ei = dec.read_info(inf, in.p, in.n); }
  BLImage im; for (int k = 0; k < max_frames; k++) { e = dec.read_frame(im, in.p, in.n); o.v.push_back(e); if (e) break; o.frames++; o.v.push_back(image_digest(im));
    if (im.width() <= 0 || im.height() <= 0) fail("decode:empty-image", strf("%s: read_frame() succeeded with an image of size %dx%d", who, im.width(), im.height()));
    BLImageInfo i2; if (!dec.read_info(i2, in.p, in.n) && (i2.size.w != im.width() || i2.size.h != im.height())) fail("decode:info-size", strf("%s: read_info() reports %dx%d, the frame is %dx%d", who, i2.size.w, i2.size.h, im.width(), im.height())); }
  if (!info_first) ei = dec.read_info(inf, in.p, in.n);
  o.v.push_back(ei); o.v.push_back(hash_bytes(&inf, sizeof inf)); o.first = BLResult(o.v[1]); return o;
}
}

namespace {
const char* kPath = "/data/in.img";
// An intact file decodes to its pixels (all frames, twice for animations); an error needs a fault.
void decode_exact(const ig::File& f, const ig::Bytes& data, Rng& q, const char* what) {
  Input in(data); u64 f0 = io_faults(); BLImageDecoder dec; BLImageCodec co; BLResult e = make_decoder(in, dec, &co); if (e) { if (io_faults() == f0) fail(std::string("intact:no-codec:") + f.codec, strf("%s: no decoder (0x%x) for an intact file: ", what, e) + f.desc); return; }
  if (!(co.name() == f.codec.c_str())) fail("intact:wrong-codec", strf("%s: the codec found is %s for: ", what, co.name().data()) + f.desc);
  BLImage im; if (q.chance(1, 3)) { im.create(3, 3, BL_FORMAT_A8); } int loops = f.frames.size() > 1 ? 1 + q.below(2) : 1; bool info = q.chance(1, 2);
  if (info) { BLImageInfo inf; e = dec.read_info(inf, in.p, in.n); if (e) { if (io_faults() == f0) fail("intact:info:" + f.codec, strf("%s: read_info() = 0x%x for an intact file: ", what, e) + f.desc); return; } if (inf.size.w != f.frames[0].w || inf.size.h != f.frames[0].h || inf.frame_count != f.frames.size()) fail("intact:info:" + f.codec, strf("%s: read_info() reports %dx%d, %d frames for: ", what, inf.size.w, inf.size.h, int(inf.frame_count)) + f.desc); }
  for (int l = 0; l < loops; l++) for (size_t k = 0; k < f.frames.size(); k++) { scrub_stack(u8(q.next())); e = dec.read_frame(im, in.p, in.n);
    if (e) { if (io_faults() == f0) fail("intact:error:" + f.codec, strf("%s: read_frame() = 0x%x for frame %zu (pass %d) of an intact file: ", what, e, k, l) + f.desc); count("decode_oom"); return; }
    std::string d = differs(im, f.frames[k], f.tol); if (!d.empty()) fail("intact:pixels:" + f.codec, strf("%s: frame %zu (pass %d): ", what, k, l) + d + "; " + f.desc); }
  if (f.frames.size() == 1) { e = dec.read_frame(im, in.p, in.n); if (!e) fail("intact:extra-frame", "a decoder returned more frames than the file has: " + f.desc); }
  if (q.chance(1, 4)) { e = dec.restart(); if (!e) e = dec.read_frame(im, in.p, in.n); if (e) { if (io_faults() == f0) fail("intact:restart:" + f.codec, strf("%s: read_frame() = 0x%x after restart(): ", what, e) + f.desc); return; } std::string d = differs(im, f.frames[0], f.tol); if (!d.empty()) fail("intact:restart-pixels:" + f.codec, "after restart(): " + d + "; " + f.desc); count("restarted"); }
  count(("exact_" + f.codec).c_str()); if (f.frames.size() > 1) count("exact_animation");
}
// Decodes arbitrary bytes several times; every pass has to say the same.
Outcome decode_any(const ig::Bytes& b, Rng& q, const std::string& desc) {
  Outcome o[2]; bool info = q.chance(1, 2); u64 g = T.garbage; for (int k = 0; k < 2; k++) { T.garbage = mix2(g, u64(k) + q.next()); scrub_stack(u8(k ? 0xFF : 0x00)); u64 mark = heap_mark(); { Input in(b); o[k] = decode_all(in, 12, desc.c_str(), info); } leak_check(mark, ("decoding " + desc).c_str()); }
  T.garbage = g; if (!(o[0] == o[1])) { size_t i = 0; while (i < o[0].v.size() && i < o[1].v.size() && o[0].v[i] == o[1].v[i]) i++; fail("damaged:unstable", strf("decoding the same bytes twice differs (item %zu: %llx / %llx, frames %d / %d), the result depends on the content of uninitialised memory: ", i, (unsigned long long)(i < o[0].v.size() ? o[0].v[i] : 0), (unsigned long long)(i < o[1].v.size() ? o[1].v[i] : 0), o[0].frames, o[1].frames) + desc); }
  count(o[0].frames ? "damaged_accepted" : "damaged_refused"); return o[0];
}
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_heap(r); T.strategy = 3; T.sync_den = 0; T.alloc_limit = r.pick({u64(2) << 20, u64(16) << 20, u64(48) << 20}); T.max_events = 400000000;
  u32 mode = r.below(20); u32 den = r.pick({0u, 1500u, 6000u});
  if (mode < 8) { if (r.chance(1, 2)) T.fault[F_ALLOC] = r.pick({600u, 3000u, 12000u}); for (u32 k : {F_OPEN, F_READ_ERR, F_READ_EINTR, F_WRITE_ERR, F_WRITE_NOSPC, F_SEEK, F_STAT, F_CLOSE, F_MMAP}) if (r.chance(1, 2)) T.fault[k] = den; T.fault[F_READ_SHORT] = r.pick({0u, 30000u}); T.fault[F_WRITE_SHORT] = r.pick({0u, 30000u}); }
  if (mode >= 16) { T.fault[F_TEAR] = 30000; T.fault[F_LOST] = 20000; T.fault[F_FLIP] = r.pick({0u, 20000u}); }
  tuning_applied(); int side = r.pick({9, 24, 60, 60, 110}); u32 nops = u32(r.range(1, 5)); u64 wseed = r.next(); set_nops(nops); std::string ds; u64 oh = 1;
  { Rng q(5); faults_here(false); { BLArray<uint8_t> w; BLImage i; i.create(4, 4, BL_FORMAT_PRGB32); BLImageData d; i.make_mutable(&d); for (int y = 0; y < 4; y++) memset((u8*)d.pixel_data + y * d.stride, 0, 16); BLImageCodec c; c.find_by_name("PNG"); i.write_to_data(w, c); } faults_here(true); }
  u64 mark0 = heap_mark(); faults_on(true);
  for (u32 i = 0; i < nops; i++) { if (!op_enabled(i)) continue; op_begin(i); Rng q(mix3(wseed, 0xF02, i)); faults_here(false); ig::File f = ig::random_file(q, side); bool tw = !f.twin.empty() && q.chance(1, 2); ig::Bytes& data = tw ? f.twin : f.data; if (tw) f.desc = f.twin_desc; ds += f.desc;
    if (mode < 8) { // intact: through memory or the disk
      u64 f0 = io_faults(); faults_here(true);
      if (q.chance(1, 2)) { BLArray<uint8_t> a; faults_here(false); a.assign_data(data.data(), data.size()); faults_here(true); BLResult e = BLFileSystem::write_file(kPath, a); ds += strf(" write=%x", e);
        if (!e) { BLImage im; u64 f1 = io_faults(); e = im.read_from_file(kPath); ds += strf(" read=%x", e); if (e) { if (io_faults() == f1) fail("intact:file-error:" + f.codec, strf("read_from_file() = 0x%x without a fault: ", e) + f.desc); count("file_read_error"); } else { std::string d = differs(im, f.frames[0], f.tol); if (!d.empty()) fail("intact:file-pixels:" + f.codec, "read_from_file(): " + d + "; " + f.desc); count("file_read_ok"); } }
        else { if (io_faults() == f0) fail("write_file", strf("write_file() = 0x%x without a fault", e)); count("file_write_error"); }
        faults_here(false); fs::remove(kPath); faults_here(true); }
      decode_exact(f, data, q, tw ? "second encoding" : "intact file"); ds += "; "; faults_here(false);
      if (!f.twin.empty()) { Input a(f.data), b(f.twin); BLImage x, y; BLResult e1 = x.read_from_data(a.p, a.n), e2 = y.read_from_data(b.p, b.n); if (e1 || e2 || image_digest(x) != image_digest(y)) fail("intact:twins:" + f.codec, strf("two encodings of the same coefficients decode differently (0x%x, 0x%x): ", e1, e2) + f.desc + " / " + f.twin_desc); count("twins"); }
      // a decoder that got only a part of the file
      if (q.chance(1, 2)) { BLImageDecoder dec; Input whole(data); if (make_decoder(whole, dec)) fail("intact:no-codec:" + f.codec, f.desc); size_t cut = q.below(u32(data.size())); if (q.chance(1, 3)) cut = data.size() - 1 - q.below(u32(std::min<size_t>(data.size(), 30))); BLImage im; { Input part(data, cut); BLResult e = dec.read_frame(im, part.p, part.n); if (!e) count("prefix_accepted"); else count("prefix_refused"); BLImageInfo inf; dec.read_info(inf, part.p, part.n); }
        BLResult e = dec.restart(); if (!e) e = dec.read_frame(im, whole.p, whole.n); if (e) fail("restart:error:" + f.codec, strf("read_frame() = 0x%x after restart() of a decoder that got %zu of %zu bytes before: ", e, cut, data.size()) + f.desc); std::string d = differs(im, f.frames[0], f.tol); if (!d.empty()) fail("restart:pixels:" + f.codec, strf("after restart() of a decoder that got %zu of %zu bytes before: ", cut, data.size()) + d + "; " + f.desc); }
    }
    else if (mode < 16) { ig::File other = ig::random_file(q, side); std::string dd = f.desc + ", damage: "; ig::Bytes b = data; if (q.chance(1, 5)) ig::reshape(q, b, f.codec, &dd); if (dd.back() == ' ' || q.chance(1, 2)) ig::damage(q, b, other.data, &dd); ds += " {" + dd + "} ";
      Outcome o = decode_any(b, q, dd); for (u64 v : o.v) oh = mix2(oh, v); note_nontrivial();
      // the decoder that failed is usable again
      BLImageDecoder dec; Input bad(b), good(data); if (!make_decoder(bad, dec)) { BLImage im; for (int k = 0; k < 3; k++) if (dec.read_frame(im, bad.p, bad.n)) break; BLImageCodec c1; if (!c1.find_by_data(bad.p, bad.n) && c1.name() == f.codec.c_str()) { BLResult e = dec.restart(); if (!e) e = dec.read_frame(im, good.p, good.n); if (e) fail("restart:error:" + f.codec, strf("read_frame() of an intact file = 0x%x after restart() of a decoder that got a damaged file: ", e) + dd); std::string d = differs(im, f.frames[0], f.tol); if (!d.empty()) fail("restart:pixels:" + f.codec, "an intact file decoded after a damaged one: " + d + "; " + dd); count("restart_after_damage"); } }
    }
    else { // the machine crashes after the file was written
      BLArray<uint8_t> a; a.assign_data(data.data(), data.size()); BLResult e = BLFileSystem::write_file(kPath, a); if (e) fail("write_file", strf("write_file() = 0x%x without a fault", e)); fs::crash(); ig::Bytes b; if (fs::exists(kPath)) b = fs::get(kPath); bool same = b == data; ds += strf(" crash: %zu of %zu bytes%s ", b.size(), data.size(), same ? " intact" : ""); count(same ? "crash_intact" : "crash_damaged");
      if (fs::exists(kPath)) { BLImage im; BLResult e2 = im.read_from_file(kPath); if (same) { if (e2) fail("intact:file-error:" + f.codec, strf("read_from_file() = 0x%x for an intact file: ", e2) + f.desc); std::string d = differs(im, f.frames[0], f.tol); if (!d.empty()) fail("intact:file-pixels:" + f.codec, d + "; " + f.desc); }
        if (!same && !b.empty()) { Outcome o = decode_any(b, q, f.desc + " after a crash"); if ((o.frames > 0) != (e2 == 0)) fail("damaged:file-vs-memory", strf("read_from_file() = 0x%x but decoding the same bytes gives %d frames", e2, o.frames)); } if (b.empty() && !e2) fail("empty-file", "read_from_file() of an empty file succeeded"); note_nontrivial(); }
      fs::remove(kPath); }
    faults_here(true); op_end();
  }
  faults_on(false); if (fs::open_fds()) fail("fd-leak", "file descriptors are open"); (void)mark0;
  u64 n = io_faults() + faults_fired(F_READ_SHORT) + faults_fired(F_WRITE_SHORT); if (n) note_nontrivial();
  sample(ds.substr(0, 1200)); out(mix2(oh, hash_bytes(ds.data(), ds.size())));
}
static int reg = (register_check({"F02",
  "A run generates 1 to 5 image files (PNG of every colour type, depth, filter and interlacing with a random DEFLATE stream structure, APNG, BMP of every kind, QOI, baseline and progressive JPEG with random scans, sampling and restarts) and then (a) decodes them intact from memory and through the simulated disk under short, failing and interrupted I/O and failing allocations, (b) decodes a damaged version (flipped bits, extreme length and size fields, lost sectors, cut, duplicated or foreign ranges) twice with different content of fresh memory and stack, or (c) writes the file, crashes the machine with lost, torn or flipped sectors and decodes what is on the disk. Checked: exact pixels of intact files, an error needs a fault, no access outside of any object (address sanitizer and red zones of the simulated heap), equal outcome of both passes, no leak, reported size, and that a decoder which failed decodes an intact file after restart(). Non-trivial: a fault fired or a file was damaged.",
  "real: PNG, APNG, JPEG, BMP and QOI decoders, DEFLATE decoder, pixel conversion, images, file system layer; simulated: POSIX file calls, disk, heap",
  run, nullptr}), 0);
