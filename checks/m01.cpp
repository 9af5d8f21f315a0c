// M01: an operation on an object which fails for lack of memory leaves the object as it was.
#include "objs.h"
using namespace sim; using namespace objs; using namespace cm;

static void run(RunEnv& env) {
  Rng& r = env.rng; T.strategy = 0; T.sync_den = 0; tune_heap(r); tuning_applied(); ext_reset();
  u32 nops = u32(r.range(2, 24)); set_nops(nops); u64 mark = heap_mark(); std::string ds; u64 fired = 0;
  { u32 k = r.below(nkinds()); Ptr a = make(k, r.next()); std::vector<Ptr> others; std::vector<u64> dig; ds = strf("%s: ", a->kind());
    for (u32 i = 0; i < nops; i++) { u64 s = mix2(env.plan.seed, i); if (!op_enabled(i)) continue; Rng q(mix2(s, 5)); op_begin(i);
      if (q.chance(1, 3)) { others.push_back(a->weak()); dig.push_back(a->digest()); if (others.size() > 3) { others.erase(others.begin()); dig.erase(dig.begin()); } }
      if (q.chance(1, 6)) { a->reads(s); }
      std::string n; Op op = a->prep(s, &n); if (ds.size() < 1500) ds += n + " ";
      u64 before = a->digest(); Ptr twin = a->deep(); if (!twin) harness_error("deep copy failed: " + ds); if (twin->digest() != before) fail("copy:" + n, "a deep copy differs from the original; " + ds);
      BLResult te = op(*twin); u64 want = twin->digest(); if (te == BL_ERROR_OUT_OF_MEMORY) skip("operation needs more than the simulated machine has");
      bool done = false;
      for (int f = 0; f < 40 && !done; f++) {
        u64 f0 = faults_fired(F_ALLOC); faults_on(true); if (q.chance(1, 5)) force_alloc_fail_from(f); else force_alloc_fail_at(f);
        BLResult e = op(*a);
        force_alloc_fail_at(-1); force_alloc_fail_from(-1); faults_on(false);
        bool hit = faults_fired(F_ALLOC) != f0; u64 now = a->digest(); if (hit) fired++;
        if (!hit || e != BL_ERROR_OUT_OF_MEMORY) { if (e != te) fail("result:" + n, strf("%s returned 0x%x on a shared object but 0x%x on an equal one (allocation failed: %d); ", n.c_str(), e, te, hit) + ds);
          if (now != want) fail("content:" + n, strf("%s on a shared object gives other content than on an equal object (allocation failed: %d); ", n.c_str(), hit) + ds); done = true; if (hit) count("survived"); }
        else { count("out_of_memory"); if (now != before) fail("damaged:" + n, strf("%s ran out of memory (allocation %d failed) and changed the object; ", n.c_str(), f) + heap_last_failure(8) + ds); }
        for (size_t j = 0; j < others.size(); j++) if (others[j]->digest() != dig[j]) fail("other:" + n, strf("%s changed another object sharing the content; ", n.c_str()) + ds);
      }
      if (!done) { BLResult e = op(*a); if (e != te || a->digest() != want) fail("retry:" + n, strf("%s returned 0x%x once memory is available again, expected 0x%x; ", n.c_str(), e, te) + ds); }
      if (q.chance(1, 8)) { Ptr w = a->weak(); a->reset(); if (w->digest() != want) fail("reset:" + n, "reset() of one object changed another; " + ds); a->move_from(*w); if (a->digest() != want) fail("move:" + n, "moving changed the content; " + ds); }
      out(want); op_end(); } }
  if (fired) note_nontrivial();
  release_caches(); leak_check(mark, ("failing operations; " + ds).c_str());
  Ext x = ext_counts(); if (ext_double()) fail("destroyed-twice", "external memory was handed back twice; " + ds); if (x.created != x.destroyed) fail("not-destroyed", strf("%u external blocks, %u handed back; ", x.created, x.destroyed) + ds);
  sample(ds.substr(0, 900));
}
static int reg = (register_check({"M01",
  "A run takes one random object (array, string, path, gradient, image, pattern, bit set, bit array, stroke options, font settings, variant, font), possibly shared with others or backed by external memory, and applies random modifications; each is repeated with its 1st, 2nd, ... allocation failing until it succeeds. After every failure the object, and always every other object sharing its content, must be unchanged; the final success must equal the same operation on an unshared equal object. Non-trivial: at least one allocation failed.",
  "real: all value types of the public API; simulated: heap with failing allocations",
  run, nullptr}), 0);
