// T01: const use of one object by many threads is safe and gives the same results as use by one.
#include "objs.h"
using namespace sim; using namespace objs; using namespace cm;

static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r, 150000000); tune_heap(r); if (r.chance(1, 3)) T.fault[F_ALLOC] = r.pick({300u, 2000u, 8000u}); tuning_applied(); ext_reset();
  u32 nu = u32(r.range(2, 5)), ns = u32(r.range(1, 3)), per = u32(r.range(1, 8)); set_nops(nu * per); u64 mark = heap_mark(); std::string ds; bool cleanup = r.chance(1, 4);
  { std::vector<Ptr> sh; std::vector<u64> want(nu * per), dig; std::vector<u32> what(nu * per), how(nu * per); std::vector<u64> sd(nu * per), pool; for (int k = 0; k < 4; k++) pool.push_back(r.next());
    { std::vector<Ptr> ref; for (u32 k = 0; k < ns; k++) { u32 kind = r.below(nkinds()); u64 s = r.next(); sh.push_back(make(kind, s)); ref.push_back(make(kind, s)); ds += std::string(sh[k]->kind()) + " "; dig.push_back(ref[k]->digest()); }
      for (u32 i = 0; i < nu * per; i++) { what[i] = r.below(ns); how[i] = r.below(4); sd[i] = r.chance(2, 3) ? pool[r.below(4)] : r.next(); if (op_enabled(i)) want[i] = how[i] == 0 ? dig[what[i]] : ref[what[i]]->reads(sd[i]); } }
    faults_on(true);
    auto body = [&](u32 u) { faults_here(false); for (u32 i = u * per; i < (u + 1) * per; i++) { if (!op_enabled(i)) continue; op_begin(i); const Obj& o = *sh[what[i]]; u64 f0 = faults_fired_here(), v; Ptr w; if (how[i] == 1) w = o.weak(); faults_here(true);
        v = how[i] == 0 ? o.digest() : how[i] == 1 ? w->reads(sd[i]) : o.reads(sd[i]); faults_here(false);
        if (faults_fired_here() != f0) count("out_of_memory"); else if (v != want[i]) fail(std::string("reads:") + o.kind(), strf("thread %u: a query of a shared %s gives another result than alone; ", u, o.kind()) + ds); else count("queries");
        out(want[i]); op_end(); } };
    std::vector<int> fs; for (u32 u = 0; u < nu; u++) fs.push_back(spawn(strf("user%u", u).c_str(), [&, u]() { body(u); }));
    if (cleanup) { for (int k = r.below(20); k > 0; k--) yield_point(); bl_runtime_cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); count("runtime_cleanup"); }
    for (int f : fs) join(f);
    faults_on(false); note_nontrivial();
    for (u32 k = 0; k < ns; k++) if (sh[k]->digest() != dig[k]) fail(std::string("changed:") + sh[k]->kind(), "queries changed a shared object; " + ds);
    for (u32 i = 0; i < nu * per; i++) if (op_enabled(i) && how[i]) { if (sh[what[i]]->reads(sd[i]) != want[i]) fail(std::string("later:") + sh[what[i]]->kind(), "after concurrent queries a query gives another result; " + ds); } }
  release_caches(); leak_check(mark, ("concurrent queries; " + ds).c_str());
  Ext x = ext_counts(); if (ext_double()) fail("destroyed-twice", "external memory was handed back twice; " + ds); if (x.created != x.destroyed) fail("not-destroyed", "external memory was not handed back; " + ds);
  sample(strf("%u threads, %u queries each, objects: %s, strategy %u", nu, per, ds.c_str(), T.strategy));
}
static int reg = (register_check({"T01",
  "A run makes 1-3 random objects (their lazily computed parts not computed yet) and lets 2-5 threads query the same objects at the same time through const functions: reading content, bounding boxes, hit tests, comparisons, searches, encoding, scaling, drawing with them, shaping, glyph outlines, font tables. Every result must equal that of the same query on an identical object used by one thread; any data race is a violation. Some runs fail allocations, after which later queries must be right again. Non-trivial: always (at least two threads).",
  "real: all value types, fonts, codecs and the synchronous renderer; simulated: threads, heap, failing allocations",
  run, nullptr}), 0);
