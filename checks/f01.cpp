// F01: file access transfers exactly the right bytes (or reports an error and says how far it got) under every I/O fault.
#include "common.h"
#include "res.h"
using namespace sim; using namespace rops; using namespace cm;
namespace {
struct ModelFile { std::vector<u8> data; bool exists = false; u64 mtime_us = 0; };
const char* kNames[4] = {"/data/a.bin", "/data/b.bin", "/data/c.bin", "/data/dir name/d.bin"};
std::vector<u8> rnd_bytes(Rng& r, size_t n) { std::vector<u8> v(n); u64 k = r.next(); for (size_t i = 0; i < n; i++) v[i] = u8(mix2(k, i)); return v; }
u64 io_faults() { u64 n = 0; for (u32 k = F_OPEN; k <= F_MMAP; k++) if (k != F_READ_SHORT && k != F_WRITE_SHORT) n += faults_fired(FaultKind(k)); return n + faults_fired(F_ALLOC); }
size_t rnd_size(Rng& r) { switch (r.below(6)) { case 0: return r.below(4); case 1: case 2: return r.below(200); case 3: return r.below(5000); case 4: return 16384 - 2 + r.below(5); default: return r.below(80000); } }
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r); tune_heap(r);
  u32 den = r.pick({0u, 1500u, 6000u, 16000u});
  for (u32 k : {F_OPEN, F_READ_ERR, F_READ_EINTR, F_WRITE_ERR, F_WRITE_EINTR, F_WRITE_NOSPC, F_SEEK, F_STAT, F_CLOSE, F_MMAP}) if (r.chance(1, 2)) T.fault[k] = den;
  T.fault[F_READ_SHORT] = r.pick({0u, 20000u, 60000u}); T.fault[F_WRITE_SHORT] = r.pick({0u, 20000u, 60000u}); if (r.chance(1, 4)) T.fault[F_CLOCK_JUMP] = 3000; if (r.chance(1, 4)) T.fault[F_ALLOC] = 2000; tuning_applied();
  u32 nops = u32(r.range(4, 60)); u64 wseed = r.next(); set_nops(nops);
  u64 mark0; std::string ds;
  { BLImage pic; { Rng r2(wseed); random_image(r2, pic, 17, 13, BL_FORMAT_PRGB32); } BLFontFace fref; if (font_face(fref)) harness_error("font");
  { BLImageCodec c; c.find_by_name("PNG"); BLArray<uint8_t> warm; pic.write_to_data(warm, c); }
  mark0 = heap_mark();
  ModelFile mf[4]; struct H { BLFile f; int file = -1; u32 mode = 0; i64 pos = 0; }; { H hs[3];
  for (int i = 0; i < 4; i++) if (r.chance(2, 3)) { mf[i].data = rnd_bytes(r, rnd_size(r)); mf[i].exists = true; fs::put(kNames[i], mf[i].data.data(), mf[i].data.size()); }
  std::vector<BLArray<uint8_t>> keep; std::vector<std::vector<u8>> keepv;
  faults_on(true);
  auto same_file = [&](int i, const char* op) { if (fs::exists(kNames[i]) != mf[i].exists) fail(std::string("file:exists:") + op, strf("%s: file %d exists=%d, expected %d; ops: ", op, i, fs::exists(kNames[i]), mf[i].exists) + ds); if (mf[i].exists) { auto v = fs::get(kNames[i]); if (v != mf[i].data) { size_t k = 0; while (k < v.size() && k < mf[i].data.size() && v[k] == mf[i].data[k]) k++; fail(std::string("file:content:") + op, strf("%s: file has %zu bytes, expected %zu, first difference at byte %zu; ops: ", op, v.size(), mf[i].data.size(), k) + ds); } } };
  auto expect_err = [&](BLResult e, bool had_fault, const char* op) { if (e && !had_fault) fail(std::string("error-without-fault:") + op, strf("%s returned 0x%x although no fault was injected; ops: ", op, e) + ds); };
  for (u32 i = 0; i < nops; i++) { if (!op_enabled(i)) continue; op_begin(i); Rng q(mix3(wseed, 0xF01, i)); u64 f0 = io_faults(); H& h = hs[q.below(3)];
    auto faulted = [&]() { return io_faults() != f0; };
    switch (q.below(14)) {
      case 0: case 1: { int k = q.below(4); u32 mode = q.range(1, 3); u32 fl = mode; if ((mode & 2) && q.chance(2, 3)) fl |= BL_FILE_OPEN_CREATE; if ((mode & 2) && q.chance(1, 4)) fl |= BL_FILE_OPEN_TRUNCATE; if ((mode & 2) && q.chance(1, 8)) fl |= BL_FILE_OPEN_CREATE_EXCLUSIVE; if (q.chance(1, 12)) fl = q.pick({0u, u32(BL_FILE_OPEN_READ | BL_FILE_OPEN_CREATE), u32(BL_FILE_OPEN_READ | BL_FILE_OPEN_TRUNCATE)});
        bool bad = !(fl & 3) || (!(fl & 2) && (fl & (BL_FILE_OPEN_CREATE | BL_FILE_OPEN_TRUNCATE | BL_FILE_OPEN_CREATE_EXCLUSIVE))); bool can = !bad && (mf[k].exists ? !(fl & BL_FILE_OPEN_CREATE_EXCLUSIVE) : (fl & (BL_FILE_OPEN_CREATE | BL_FILE_OPEN_CREATE_EXCLUSIVE)) != 0);
        u64 of = faults_fired(F_OPEN); intptr_t hb = h.f.handle; BLResult e = h.f.open(kNames[k], BLFileOpenFlags(fl)); ds += strf("open(%d,%x)=%x ", k, fl, e); 
        if (!e) { if (!can) fail("open:accepted", strf("open(flags 0x%x, exists=%d) must fail", fl, mf[k].exists)); h.file = k; h.mode = fl & 3; h.pos = 0; if (!mf[k].exists) { mf[k].exists = true; mf[k].data.clear(); } if (fl & BL_FILE_OPEN_TRUNCATE) mf[k].data.clear(); if (!h.f.is_open()) fail("open:not-open", "open() succeeded but the file is not open"); }
        else { if (can && faults_fired(F_OPEN) == of) fail("open:failed", strf("open(flags 0x%x) = 0x%x without a fault", fl, e)); if (h.f.handle != hb) fail("open:not-atomic", "a failed open() changed the handle"); }
        same_file(k, "open"); break; }
      case 2: { bool was = h.f.is_open(); u64 cf = faults_fired(F_CLOSE); BLResult e = h.f.close(); ds += strf("close=%x ", e); if (h.f.is_open()) fail("close:still-open", "the file is open after close()"); if (bool(e) != (faults_fired(F_CLOSE) != cf)) fail("close:result", strf("close() = 0x%x", e)); (void)was; h.file = -1; break; }
      case 3: case 4: { size_t n = rnd_size(q); u8* buf = (u8*)user_alloc(n + 8); memset(buf, 0xEE, n + 8); size_t got = 12345; BLResult e = h.f.read(buf, n, &got); ds += strf("read(%zu)=%x/%zu ", n, e, got);
        if (h.file < 0) { if (!e || got) fail("read:closed", "read() of a closed file succeeded"); }
        else if (!(h.mode & 1)) { if (!e || got) fail("read:write-only", "read() of a write-only file succeeded"); }
        else { auto& d = mf[h.file].data; size_t av = u64(h.pos) < d.size() ? d.size() - size_t(h.pos) : 0; size_t want = n < av ? n : av; if (got > want) fail("read:too-much", "read() reports more bytes than there are");
          if (!e && got != want) fail("read:short", strf("read(%zu) at %lld of %zu bytes succeeded with %zu bytes instead of %zu; ops: ", n, (long long)h.pos, d.size(), got, want) + ds); if (e && !faulted()) fail("read:error", strf("read() = 0x%x without a fault", e));
          if (memcmp(buf, d.data() + (got ? h.pos : 0), got)) { size_t k = 0; while (buf[k] == d[size_t(h.pos) + k]) k++; fail("read:content", strf("read(%zu) at %lld returned wrong data from byte %zu of %zu; ops: ", n, (long long)h.pos, k, got) + ds); }
          for (size_t k = got; k < n + 8; k++) if (buf[k] != 0xEE) fail("read:overwrite", strf("read(%zu) which got %zu bytes changed byte %zu of the buffer", n, got, k)); h.pos += i64(got); count(e ? "read_error" : "read_ok"); }
        user_free(buf); break; }
      case 5: case 6: { auto v = rnd_bytes(q, rnd_size(q)); size_t got = 12345; u8* buf = (u8*)user_alloc(v.size() + 1); memcpy(buf, v.data(), v.size()); BLResult e = h.f.write(buf, v.size(), &got); user_free(buf); ds += strf("write(%zu)=%x/%zu ", v.size(), e, got);
        if (h.file < 0) { if (!e || got) fail("write:closed", "write() to a closed file succeeded"); }
        else if (!(h.mode & 2)) { if (!e || got) fail("write:read-only", "write() to a read-only file succeeded"); }
        else { if (got > v.size()) fail("write:too-much", "write() reports too many bytes"); if (!e && got != v.size()) fail("write:short", strf("write(%zu) succeeded with %zu bytes", v.size(), got)); if (e && !faulted()) fail("write:error", strf("write() = 0x%x without a fault", e));
          auto& d = mf[h.file].data; if (got) { if (d.size() < size_t(h.pos) + got) d.resize(size_t(h.pos) + got); memcpy(d.data() + h.pos, v.data(), got); } h.pos += i64(got); same_file(h.file, "write"); count(e ? "write_error" : "write_ok"); }
        break; }
      case 7: { i64 off = q.chance(1, 8) ? -i64(q.below(100)) : i64(q.below(60000)); u32 wh = q.below(3); i64 pos = 77; BLResult e = h.f.seek(off, BLFileSeekType(wh), &pos); ds += strf("seek(%lld,%u)=%x ", (long long)off, wh, e);
        if (h.file < 0) { if (!e) fail("seek:closed", "seek() of a closed file succeeded"); break; }
        i64 base = wh == 0 ? 0 : wh == 1 ? h.pos : i64(mf[h.file].data.size()); i64 want = base + off; if (want < 0) { if (!e) fail("seek:negative", "seek() to a negative position succeeded"); } else if (!e) { if (pos != want) fail("seek:position", strf("seek() = %lld instead of %lld", (long long)pos, (long long)want)); h.pos = want; } else expect_err(e, faulted(), "seek"); break; }
      case 8: { i64 n = i64(q.below(70000)); if (q.chance(1, 10)) n = -1; BLResult e = h.f.truncate(n); ds += strf("truncate(%lld)=%x ", (long long)n, e); if (h.file < 0) { if (!e) fail("truncate:closed", "truncate() of a closed file succeeded"); break; } if (n < 0 || !(h.mode & 2)) { if (!e) fail("truncate:accepted", "truncate() must fail"); } else if (!e) mf[h.file].data.resize(size_t(n)); else expect_err(e, faulted(), "truncate"); same_file(h.file, "truncate"); break; }
      case 9: { uint64_t sz = 5; BLResult e = h.f.get_size(&sz); if (h.file < 0) { if (!e || sz) fail("size:closed", "get_size() of a closed file"); } else if (!e) { if (sz != mf[h.file].data.size()) fail("size:wrong", strf("get_size() = %llu instead of %zu", (unsigned long long)sz, mf[h.file].data.size())); } else { expect_err(e, faulted(), "get_size"); if (sz) fail("size:error", "a failed get_size() must report zero"); } break; }
      case 10: { int k = q.below(4); BLFileInfo inf; memset(&inf, 0xAB, sizeof inf); bool byh = h.file >= 0 && q.chance(1, 2); if (byh) k = h.file; u64 now = now_ns() / 1000; BLResult e = byh ? h.f.get_info(&inf) : BLFileSystem::file_info(kNames[k], &inf); ds += strf("info=%x ", e);
        if (!e) { if (!mf[k].exists) fail("info:missing", "get_info() of a missing file succeeded"); if (inf.size != mf[k].data.size()) fail("info:size", "get_info() reports a wrong size"); if (!inf.is_regular() || inf.is_directory() || !inf.has_owner_r() || inf.has_owner_x() || !inf.has_other_r() || inf.has_other_w()) fail("info:flags", strf("get_info() reports flags 0x%x for a regular file with mode 0644", u32(inf.flags)));
          u64 mt = u64(inf.modified_time); if (mt > now || mt + 3600ull * 1000000 * 24 * 365 < now) fail("info:mtime", strf("modified_time is %llu although the file was written less than a year before %llu (microseconds)", (unsigned long long)mt, (unsigned long long)now)); count("info_ok"); }
        else { if (mf[k].exists) expect_err(e, faulted(), "get_info"); if (inf.size || u32(inf.flags) || inf.modified_time) fail("info:error", "a failed get_info() must report an empty info"); } break; }
      case 11: { int k = q.below(4); BLArray<uint8_t> a; if (q.chance(1, 2)) a.append(uint8_t(1)); u32 fl = q.pick({0u, 0u, 1u, 3u, 9u, 11u}); size_t mx = q.chance(1, 3) ? rnd_size(q) : 0; u64 mmf = faults_fired(F_MMAP); BLResult e = BLFileSystem::read_file(kNames[k], a, mx, BLFileReadFlags(fl)); ds += strf("read_file(%d,%x,%zu)=%x ", k, fl, mx, e);
        if (!mf[k].exists) { if (!e) fail("read_file:missing", "read_file() of a missing file succeeded"); break; }
        auto& d = mf[k].data; size_t want = mx && mx < d.size() ? mx : d.size();
        if (!e) { if (a.size() != want || memcmp(a.data(), d.data(), want)) fail("read_file:content", strf("read_file(flags %u) of %zu bytes returned %zu bytes (expected %zu) or wrong data; ops: ", fl, d.size(), a.size(), want) + ds); count(fl & 1 ? "read_file_mmap_flag" : "read_file_ok"); if (faults_fired(F_MMAP) != mmf) count("mmap_fallback");
          if (q.chance(1, 2)) { keep.push_back(a); keepv.push_back(std::vector<u8>(d.begin(), d.begin() + want)); if (q.chance(1, 2)) { a.append(uint8_t(7)); if (a.size() == want + 1 && (memcmp(a.data(), d.data(), want) || a[want] != 7)) fail("read_file:append", "appending to a loaded array corrupts it"); } } }
        else { expect_err(e, faulted(), "read_file"); size_t g = a.size(); if (g > want || memcmp(a.data(), d.data(), g)) fail("read_file:error-content", "a failed read_file() left wrong data"); }
        break; }
      case 12: { int k = q.below(4); auto v = rnd_bytes(q, rnd_size(q)); size_t got = 99; u64 cf = faults_fired(F_CLOSE); BLResult e = bl_file_system_write_file(kNames[k], v.data(), v.size(), &got); ds += strf("write_file(%d,%zu)=%x/%zu ", k, v.size(), e, got); bool opened = fs::exists(kNames[k]) && (!e || got || fs::get(kNames[k]).empty());
        if (!e && faults_fired(F_CLOSE) != cf) fail("write_file:close", "write_file() succeeded although closing the file failed");
        if (!e) { if (got != v.size()) fail("write_file:short", "write_file() succeeded without writing everything"); mf[k].exists = true; mf[k].data = v; }
        else { expect_err(e, faulted(), "write_file"); if (got > v.size()) fail("write_file:count", "write_file() reports too many bytes"); if (opened) { mf[k].exists = true; mf[k].data.assign(v.begin(), v.begin() + got); } }
        same_file(k, "write_file"); break; }
      default: { // whole images and fonts through files
        if (q.chance(1, 2)) { BLImageCodec c; c.find_by_name("PNG"); const char* nm = "/data/pic.png"; BLResult e = pic.write_to_file(nm, c); ds += strf("image.write=%x ", e);
          if (!e) { faults_on(false); BLImage back; BLResult e2 = back.read_from_file(nm); std::string df; if (e2 || !same_pixels(pic, back, &df)) fail("image:file-written", strf("write_to_file() succeeded but reading the file back gives 0x%x ", e2) + df); faults_on(true); count("image_written");
            BLImage b2; b2 = pic; e2 = b2.read_from_file(nm); if (!e2) { if (!same_pixels(pic, b2, &df)) fail("image:file-read", "read_from_file() succeeded with wrong pixels: " + df); count("image_read"); } else { if (!faulted()) fail("image:read-error", strf("read_from_file() = 0x%x without a fault", e2)); } }
          else expect_err(e, faulted(), "image.write_to_file"); fs::remove(nm); }
        else { faults_on(false); const char* nm = "/data/f.ttf"; Res fr = res_font(); fs::put(nm, fr.data, fr.size); faults_on(true); BLFontData fd; BLResult e = fd.create_from_file(nm, BLFileReadFlags(q.pick({0u, 1u, 3u, 9u}))); ds += strf("font.load=%x ", e);
          if (!e) { BLArray<uint8_t> keepd; faults_on(false); fs::remove(nm); BLFontFace ff; BLResult e2 = ff.create_from_data(fd, 0); if (e2) fail("font:face", strf("create_from_data() = 0x%x for a font loaded from a file", e2)); if (ff.glyph_count() != fref.glyph_count() || !(ff.family_name() == fref.family_name())) fail("font:content", "a font loaded from a file differs from the same font in memory"); faults_on(true); count("font_loaded"); }
          else expect_err(e, faulted(), "font.create_from_file"); }
        break; }
    }
    op_end();
    int open = 0; for (auto& x : hs) open += x.file >= 0; if (fs::open_fds() != open) fail("fd-leak", strf("%d file descriptors are open, expected %d; ops: ", fs::open_fds(), open) + ds);
  }
  faults_on(false);
  for (size_t k = 0; k < keep.size(); k++) if (keep[k].size() != keepv[k].size() || memcmp(keep[k].data(), keepv[k].data(), keepv[k].size())) fail("array-changed", "an array returned by read_file() changed afterwards");
  }
  if (fs::open_fds()) fail("fd-leak", "file descriptors are open after every file was destroyed"); if (fs::mapped()) fail("map-leak", strf("%d mappings exist after every array was destroyed", fs::mapped()));
  fs::remove("/data/pic.png");
  }
  u64 n = io_faults() + faults_fired(F_READ_SHORT) + faults_fired(F_WRITE_SHORT); if (n || fs::reads + fs::writes) note_nontrivial();
  sample(ds.substr(0, 1200)); out(hash_bytes(ds.data(), ds.size()));
}
static int reg = (register_check({"F01",
  "A run executes a random sequence of BLFile / BLFileSystem calls (open with every flag combination, close, read, write, seek, truncate, size, info, read_file with every mmap flag, write_file, image and font files) against the simulated disk, which injects short reads and writes, EINTR, EIO, ENOSPC and other errors, failing open/close/stat/seek/mmap, allocation failures and clock jumps. A byte-exact model of every file, position and handle is compared after each call; open descriptors and mappings are counted. Non-trivial: at least one read or write reached the disk.",
  "real: file system layer, arrays, PNG codec, font loading; simulated: POSIX file calls, mmap, clock, heap",
  run, nullptr}), 0);
