// Runs a check's workload natively: real library build, real threads, no simulator. Used to confirm that a
// violation found in simulation is a defect of the library and not of the simulator. Not part of any check.
#include "../sim/sim.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <set>
namespace sim {
Tuning T; bool g_minimising; u64 g_run_index; static std::vector<Check> C; static std::set<u32> drop;
const char* const kFaultNames[F_KIND_COUNT] = {};
void tuning_applied() {} void fail(const std::string& s, const std::string& m) { printf("FAIL %s: %s\n", s.c_str(), m.c_str()); fflush(stdout); _Exit(1); }
void skip(const std::string& w) { printf("skip %s\n", w.c_str()); _Exit(0); } void harness_error(const std::string& w) { printf("harness error %s\n", w.c_str()); _Exit(2); }
std::string strf(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void count(const char*, u64) {} void note_nontrivial() {} void sample(const std::string& s) { printf("sample %s\n", s.c_str()); } void trace(u64) {} void out(u64 v) {}
u64 hash_bytes(const void* p, size_t n) { u64 h = 1; for (size_t i = 0; i < n; i++) h = h * 31 + ((const u8*)p)[i]; return h; }
bool op_enabled(u32 o) { return !drop.count(o); } void set_nops(u32) {} void op_begin(u32) {} void op_end() {} void faults_on(bool) {}
void register_check(const Check& c) { C.push_back(c); }
i64 RunEnv::cfgi(const char* k, i64 d) const { return d; } std::string RunEnv::cfg(const char* k, const char* d) const { return d; }
}
int main(int argc, char** argv) { using namespace sim; Plan p; p.seed = strtoull(argv[1], 0, 10); for (int i = 2; i < argc; i++) drop.insert(atoi(argv[i])); T.seed = p.seed; RunEnv e(p); e.rng.s = mix64(p.seed); C[0].run(e); printf("ok\n"); }
