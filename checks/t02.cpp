// T02: objects sharing content never influence each other, whatever threads do with them.
#include "objs.h"
using namespace sim; using namespace objs; using namespace cm;

namespace {
struct Pair { Ptr mine, twin; std::vector<Ptr> kept; std::vector<u64> dig; std::string h; };   // twin shares nothing
struct Box { Mutex m; Pair p; bool full = false; };
}
static void run(RunEnv& env) {
  Rng& r = env.rng; tune_sched(r, 150000000); tune_heap(r); if (r.chance(1, 3)) T.fault[F_ALLOC] = r.pick({300u, 2000u, 8000u}); tuning_applied(); ext_reset();
  u32 nu = u32(r.range(2, 4)), ns = u32(r.range(1, 3)), per = u32(r.range(2, 14)); set_nops(nu * per); u64 mark = heap_mark(); std::string ds; bool drop_early = r.chance(1, 2);
  { std::vector<Ptr> src; std::vector<u64> sd; for (u32 k = 0; k < ns; k++) { src.push_back(make(r.below(nkinds()), r.next())); ds += std::string(src[k]->kind()) + " "; if (r.chance(1, 2)) src[k]->reads(r.next()); sd.push_back(src[k]->digest()); }
    std::vector<std::vector<Pair>> own(nu); Box box[2];
    for (u32 u = 0; u < nu; u++) for (u32 k = 0; k < ns; k++) { Pair p; p.mine = src[k]->weak(); p.twin = src[k]->deep(); if (!p.twin) harness_error("deep copy failed"); if (p.twin->digest() != sd[k]) fail(std::string("copy:") + src[k]->kind(), "a deep copy differs from the original; " + ds); own[u].push_back(std::move(p)); }
    faults_on(true);
    auto body = [&](u32 u) { std::vector<Pair>& my = own[u]; faults_here(false);
      for (u32 i = 0; i < per; i++) { u32 id = u * per + i; if (!op_enabled(id)) continue; u64 s = mix3(env.plan.seed, 77, id); Rng q(s); op_begin(id);
        Pair& p = my[q.below(u32(my.size()))]; u32 act = q.below(16);
        auto check = [&](const char* what) { u64 a = p.mine->digest(), b = p.twin->digest(); if (a != b) fail(std::string("content:") + what, strf("thread %u: %s gives other content than on an object nobody shares; ", u, what) + p.h); };
        if (act < 7) { std::string n; Op op = p.mine->prep(q.next(), &n); p.h += n + " "; bool fired = false; BLResult e, te; u64 before = p.mine->digest();
          u64 f0 = faults_fired_here(); faults_here(true); e = op(*p.mine); faults_here(false); fired = faults_fired_here() != f0;
          if (fired && e == BL_ERROR_OUT_OF_MEMORY) { count("out_of_memory"); if (p.mine->digest() != before) fail("damaged:" + n, strf("thread %u: %s ran out of memory and changed the object; ", u, n.c_str()) + p.h); }
          else { te = op(*p.twin); if (te != e) { fail("result:" + n, strf("thread %u: %s returned 0x%x on a shared object but 0x%x on one nobody shares; ", u, n.c_str(), e, te) + p.h); } check(n.c_str()); if (!e) count("modified"); } }
        else if (act < 9) { p.kept.push_back(p.mine->weak()); p.dig.push_back(p.twin->digest()); p.h += "copy "; }
        else if (act == 9 && !p.kept.empty()) { u32 j = q.below(u32(p.kept.size())); p.mine->move_from(*p.kept[j]); p.twin = p.mine->deep(); if (!p.twin) skip("no memory"); if (p.mine->digest() != p.dig[j]) fail("moved", strf("thread %u: moving changed the content; ", u) + p.h); check("move"); p.kept.erase(p.kept.begin() + j); p.dig.erase(p.dig.begin() + j); p.h += "move_back "; }
        else if (act == 10 && !p.kept.empty()) { p.mine->assign(*p.kept.back()); p.twin = p.mine->deep(); if (!p.twin) skip("no memory"); check("assign"); p.h += "assign_back "; }
        else if (act == 11) { p.mine->reset(); p.twin->reset(); check("reset"); p.h += "reset "; }
        else if (act == 12) { u64 s2 = q.next(), a = p.mine->reads(s2), b = p.twin->reads(s2); if (a != b) fail(std::string("reads:") + p.mine->kind(), strf("thread %u: a query of a shared object gives another result than on one nobody shares; ", u) + p.h); }
        else { Box& b = box[q.below(2)]; Guard g(b.m); if (b.full) { std::swap(b.p, p); count("received"); } else { b.p.mine = p.mine->weak(); b.p.twin = p.mine->deep(); if (!b.p.twin) skip("no memory"); b.p.h = p.h; b.full = true; count("sent"); } p.h += "exchange "; }
        Pair& z = my[q.below(u32(my.size()))]; for (size_t j = 0; j < z.kept.size(); j++) if (z.kept[j]->digest() != z.dig[j]) fail(std::string("other:") + z.mine->kind(), strf("thread %u: a copy changed although nobody modified it; ", u) + z.h);
        if (z.kept.size() > 2) { z.kept.erase(z.kept.begin()); z.dig.erase(z.dig.begin()); }
        out(p.twin->digest()); op_end(); }
      for (Pair& z : my) { for (size_t j = 0; j < z.kept.size(); j++) if (z.kept[j]->digest() != z.dig[j]) fail(std::string("other:") + z.mine->kind(), strf("thread %u: a copy changed although nobody modified it; ", u) + z.h); }
      my.clear(); };
    std::vector<int> fs; for (u32 u = 0; u < nu; u++) fs.push_back(spawn(strf("user%u", u).c_str(), [&, u]() { body(u); }));
    if (drop_early) { for (int k = r.below(40); k > 0; k--) yield_point(); src.clear(); }
    for (int f : fs) join(f);
    faults_on(false); note_nontrivial();
    for (size_t k = 0; k < src.size(); k++) if (src[k]->digest() != sd[k]) fail(std::string("source:") + src[k]->kind(), "an object changed although only its copies were modified; " + ds); }
  release_caches(); leak_check(mark, ("sharing objects between threads; " + ds).c_str());
  Ext x = ext_counts(); if (ext_double()) fail("destroyed-twice", "external memory was handed back twice; " + ds); if (x.created != x.destroyed) fail("not-destroyed", strf("%u external blocks, %u handed back; ", x.created, x.destroyed) + ds);
  sample(strf("%u threads, %u operations each, objects: %s, strategy %u%s", nu, per, ds.c_str(), T.strategy, drop_early ? ", originals dropped early" : ""));
}
static int reg = (register_check({"T02",
  "A run makes 1-3 random objects and gives 2-4 threads copies which share their content; every thread modifies, copies, moves, resets, queries and exchanges (through mailboxes) its own copies, each accompanied by a twin which shares nothing. After every step object and twin must agree in result and content, copies set aside must not change, the originals (sometimes dropped meanwhile) must be as before, and at the end everything must have been released exactly once. Some runs fail allocations. Non-trivial: always (at least two threads).",
  "real: all value types of the public API; simulated: threads, heap, failing allocations",
  run, nullptr}), 0);
