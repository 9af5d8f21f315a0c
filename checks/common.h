// Helpers shared by the checks.
#pragma once
#include "render_ops.h"
#include <cstring>
#include <pthread.h>
extern "C" { int sim_pthread_mutex_lock(pthread_mutex_t*); int sim_pthread_mutex_unlock(pthread_mutex_t*); }
namespace cm {
using namespace sim;
struct Mutex { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; void lock() { sim_pthread_mutex_lock(&m); } void unlock() { sim_pthread_mutex_unlock(&m); } };
struct Guard { Mutex& m; explicit Guard(Mutex& x) : m(x) { m.lock(); } ~Guard() { m.unlock(); } };
// Random scheduling strategy (swarm).
inline void tune_sched(Rng& r, u64 max_events = 120000000) {
  T.strategy = r.below(4); T.sync_den = r.pick({1u, 2u, 4u, 16u, 64u}); T.access_mean = r.pick({u64(0), u64(0), u64(200), u64(3000), u64(30000)});
  T.pct_changes = 1 + r.below(8); T.pct_span = r.pick({u64(20000), u64(300000), u64(2000000)}); T.max_events = max_events;
}
inline void tune_heap(Rng& r) { T.heap_reuse = r.below(3); T.heap_jitter = r.below(3); T.garbage = r.next(); }
inline void tune_waits(Rng& r) { if (r.chance(1, 2)) T.fault[F_SPURIOUS] = 6000; if (r.chance(1, 3)) T.fault[F_FUTEX_EINTR] = 6000; if (r.chance(1, 4)) T.fault[F_STALL] = 600; }
inline void tune_threads(Rng& r) { if (r.chance(1, 3)) T.fault[F_THREAD_CREATE] = r.pick({9000u, 30000u, 60000u}); if (r.chance(1, 6)) T.fault[F_THREAD_ATTR] = 20000; }
inline BLContextCreateInfo random_create_info(Rng& r) {
  BLContextCreateInfo ci{}; ci.thread_count = r.pick({1u, 2u, 2u, 3u, 4u, 5u, 8u, 17u, 33u}); if (r.chance(1, 3)) ci.command_queue_limit = r.pick({1u, 2u, 10u, 100u, 300u});
  if (r.chance(1, 6)) ci.flags |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; if (r.chance(1, 6)) ci.flags |= BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC; return ci;
}
inline BLFormat random_format(Rng& r) { return r.chance(1, 5) ? BL_FORMAT_A8 : r.chance(1, 3) ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32; }
// Copies pixels by hand (independent of the image functions under test).
inline BLImage pixel_copy(const BLImage& a) {
  BLImageData d; a.get_data(&d); BLImage s; s.create(d.size.w, d.size.h, BLFormat(d.format)); BLImageData e; s.make_mutable(&e); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4;
  for (int y = 0; y < d.size.h; y++) memcpy((char*)e.pixel_data + y * e.stride, (char*)d.pixel_data + y * d.stride, size_t(d.size.w) * bpp);
  return s;
}
// Memory which the library keeps on purpose until it is told to clean up.
inline void release_caches() { bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); run_others_until_idle(); }
inline void leak_check(u64 mark, const char* what) {
  if (heap_live_since(mark)) { std::string sg; std::string d = heap_describe_live(mark, 6, &sg); fail(std::string("leak") + sg, strf("memory still allocated after %s:\n", what) + d); }
}
}
