// Batch runner: fork-per-run server, parallel workers, gating, minimisation, replay files, evidence.
#include "core.h"
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include <csignal>
#include <sys/time.h>
#include <cerrno>
#include <cxxabi.h>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <chrono>
#include <fstream>
#include <sstream>

namespace sim {
static std::vector<Check>& checks() { static std::vector<Check>* v = new std::vector<Check>(); return *v; }
void register_check(const Check& c) { checks().push_back(c); }
static const Check* find_check(const std::string& id) { for (auto& c : checks()) if (id == c.id) return &c; return nullptr; }
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------------------------------ symbols ------
struct Sym { u64 a, n; const char* name; };
static std::vector<Sym>* g_syms;
static void load_syms() {
  g_syms = new std::vector<Sym>();
  int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return;
  char* m = (char*)mmap(nullptr, size_t(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  auto* eh = (Elf64_Ehdr*)m; auto* sh = (Elf64_Shdr*)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    auto* s = (Elf64_Sym*)(m + sh[i].sh_offset); const char* str = m + sh[sh[i].sh_link].sh_offset;
    for (size_t k = 0; k < sh[i].sh_size / sizeof(*s); k++) if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_size) g_syms->push_back({s[k].st_value, s[k].st_size, str + s[k].st_name});
  }
  std::sort(g_syms->begin(), g_syms->end(), [](const Sym& a, const Sym& b) { return a.a < b.a; });
}
static std::string demangle(const char* n) { int st; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st); if (!d) return n; std::string s = d; free(d); return s; }
static std::string sym_short(u64 pc) {
  if (!g_syms) load_syms();
  auto it = std::upper_bound(g_syms->begin(), g_syms->end(), pc, [](u64 a, const Sym& s) { return a < s.a; });
  if (it == g_syms->begin()) return "?"; --it;
  if (pc > it->a + it->n + 16) return "?";
  std::string n = it->name; size_t cut; for (const char* suf : {".constprop", ".isra", ".part", ".cold", ".lto"}) if ((cut = n.find(suf)) != std::string::npos) n.resize(cut);
  std::string s = demangle(n.c_str()); if (s.compare(0, 5, "void ") == 0) s = s.substr(5);
  s = s.substr(0, s.find('('));
  int depth = 0; std::string o; for (char c : s) { if (c == '<') depth++; if (!depth) o += c; if (c == '>') depth--; }
  return o;
}
static std::string exe_path() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return n > 0 ? std::string(b, size_t(n)) : "simcheck"; }
static std::string addr2line(const std::vector<u64>& pcs) {
  std::string cmd = "addr2line -f -C -i -p -e '" + exe_path() + "'"; for (u64 p : pcs) cmd += strf(" 0x%llx", (unsigned long long)(p ? p - 1 : 0)); cmd += " 2>/dev/null";
  std::string o; if (FILE* f = popen(cmd.c_str(), "r")) { char b[1024]; while (fgets(b, sizeof b, f)) { std::string l = b; if (l.compare(0, 2, "??") == 0) continue; o += "      " + l; } pclose(f); }
  return o;
}
static std::string symbolize_msg(std::string m) {   // @0x... -> function name
  std::string o; for (size_t i = 0; i < m.size();) { if (m.compare(i, 3, "@0x") == 0) { char* e; u64 a = strtoull(m.c_str() + i + 1, &e, 16); size_t k = size_t(e - m.c_str()); o += sym_short(a); i = k; } else o += m[i++]; }
  return o;
}
static bool is_tool_fn(const std::string& s) { return s == "?" || s.find("sim_") == 0 || s.find("std::") == 0 || s.find("__tsan") == 0 || s.find("sim::") == 0 || s.find("operator") == 0; }
static std::string final_sig(const RunResult& r) {
  std::string s = r.sig;
  auto first_fn = [&](u32 from) { std::string fb; for (u32 i = from; i < r.npcs && r.pcs[i]; i++) { std::string f = sym_short(r.pcs[i]); if (fb.empty()) fb = f; if (!is_tool_fn(f)) return f; } return fb; };
  if (s == "race") { u32 z = 0; while (z < r.npcs && r.pcs[z]) z++; std::string a = first_fn(0), b = first_fn(z + 1); if (b < a) std::swap(a, b); return "race:" + a + "|" + b; }
  if (s.compare(0, 7, "memory:") == 0 || s.compare(0, 6, "crash:") == 0) { u32 from = 0; if (s[0] == 'c' && r.npcs > 1) { std::string f = sym_short(r.pcs[0]); if (!is_tool_fn(f)) return s + ":" + f; from = 2; } return s + ":" + first_fn(from); }
  return symbolize_msg(s);
}

// ------------------------------------------------------------------------------------------- one run -----
static RunResult* new_result() { return (RunResult*)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void reset_result(RunResult* r) { memset(r, 0, offsetof(RunResult, counters)); r->sig[0] = r->msg[0] = r->sample[0] = 0; r->npcs = 0; }
static int g_errfd = -1;
static u32 g_hang_s = 60;
static void run_plan(const Plan& p, const Check& c, RunResult* r) {
  reset_result(r);
#ifdef SIM_ASAN
  if (g_errfd < 0) g_errfd = memfd_create("err", 0);
  if (ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET);
#endif
  pid_t pid = fork();
  if (pid == 0) {
#ifdef SIM_ASAN
    dup2(g_errfd, 2);
#endif
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; sigaction(SIGPROF, &sa, nullptr); sigaction(SIGALRM, &sa, nullptr); itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_hang_s; setitimer(ITIMER_PROF, &it, nullptr); alarm(600);
    run_in_child(p, r, c); _exit(0);
  }
  if (pid < 0) { r->status = RUN_ERROR; strcpy(r->msg, "fork failed"); return; }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == RUN_EMPTY) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r->status = RUN_ERROR; strcpy(r->msg, "run stuck in real time"); return; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r->status = RUN_VIOLATION; strcpy(r->sig, "hang"); snprintf(r->msg, sizeof r->msg, "the run did not finish within %u s of processor time budget (endless loop)", g_hang_s); r->trace_hash = 0x4A46; return; }
#ifdef SIM_ASAN
    std::string err; char b[65536]; lseek(g_errfd, 0, SEEK_SET); ssize_t n = read(g_errfd, b, sizeof b - 1); if (n > 0) err.assign(b, size_t(n));
    size_t k = err.find("ERROR: AddressSanitizer: "); size_t u = err.find("runtime error: ");
    if (k != std::string::npos || u != std::string::npos) {
      r->status = RUN_VIOLATION; std::string kind, fn;
      if (k != std::string::npos) { size_t e = err.find_first_of(" \n", k + 25); kind = err.substr(k + 25, e - k - 25); } else { kind = "ubsan-" + err.substr(u + 15, err.find('\n', u) - u - 15).substr(0, 40); k = u; }
      for (int f = 0; f < 12; f++) { size_t q = err.find(strf("    #%d ", f), k); if (q == std::string::npos) break; size_t e = err.find('\n', q); std::string l = err.substr(q, e - q); size_t in = l.find(" in "); if (in == std::string::npos) continue; std::string name = l.substr(in + 4); name = name.substr(0, name.find_first_of("(<")); name = name.substr(0, name.find(" /")); if (name.compare(0, 2, "__") == 0 || is_tool_fn(name) || name.find("memcpy") != std::string::npos) continue; if (name.compare(0, 5, "void ") == 0) name = name.substr(5); fn = name; break; }
      snprintf(r->sig, sizeof r->sig, "asan:%s:%s", kind.c_str(), fn.c_str()); snprintf(r->msg, sizeof r->msg, "%s", err.substr(k > 80 ? k - 60 : 0, 3500).c_str());
      r->trace_hash = hash_bytes(r->sig, strlen(r->sig)); return;
    }
    snprintf(r->msg, sizeof r->msg, "child ended with status 0x%x: %s", st, err.substr(0, 1500).c_str());
    if (WIFSIGNALED(st)) { r->status = RUN_VIOLATION; snprintf(r->sig, sizeof r->sig, "crash:signal%d", WTERMSIG(st)); r->trace_hash = 0xC4A5; return; }
    r->status = RUN_ERROR; return;
#else
    if (WIFSIGNALED(st)) { r->status = RUN_VIOLATION; snprintf(r->sig, sizeof r->sig, "crash:signal%d", WTERMSIG(st)); snprintf(r->msg, sizeof r->msg, "the process was ended by signal %d", WTERMSIG(st)); r->trace_hash = 0xC4A5; return; }
    r->status = RUN_ERROR; snprintf(r->msg, sizeof r->msg, "child ended with status 0x%x without a result", st);
#endif
  } else if (r->status == RUN_VIOLATION) {
    std::string s = final_sig(*r); snprintf(r->sig, sizeof r->sig, "%s", s.c_str());
  }
}

// --------------------------------------------------------------------------------------- replay files ----
static void write_plan(const std::string& path, const Plan& p, const RunResult& r, const std::string& extra) {
  std::ofstream f(path);
  f << "blend2d-sim-replay 1\ncheck " << p.check << "\nseed " << p.seed << "\n";
  for (auto& kv : p.cfg) f << "cfg " << kv.first << "=" << kv.second << "\n";
  if (!p.drop.empty()) { f << "drop"; for (u32 d : p.drop) f << " " << d; f << "\n"; }
  f << "faults " << (p.faults_explicit ? "explicit" : "seeded") << "\n";
  for (auto& x : p.faults) f << "fault " << kFaultNames[x.kind] << " " << x.scope << " " << x.n << "\n";
  f << "schedule " << (p.sched_explicit ? "explicit" : "seeded") << "\n";
  for (auto& x : p.sched) f << "switch " << x.ev << " " << x.fiber << "\n";
  f << "expect-hash " << r.trace_hash << "\nexpect-sig " << r.sig << "\n";
  std::istringstream is(extra); std::string l; while (std::getline(is, l)) f << "# " << l << "\n";
}
static bool read_plan(const std::string& path, Plan& p, u64& hash, std::string& sig) {
  std::ifstream f(path); std::string l; if (!f || !std::getline(f, l) || l != "blend2d-sim-replay 1") return false;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "check") is >> p.check; else if (k == "seed") is >> p.seed;
    else if (k == "cfg") { std::string kv; is >> kv; size_t e = kv.find('='); p.cfg[kv.substr(0, e)] = kv.substr(e + 1); }
    else if (k == "drop") { u32 d; while (is >> d) p.drop.push_back(d); }
    else if (k == "faults") { std::string m; is >> m; p.faults_explicit = m == "explicit"; }
    else if (k == "fault") { std::string n; FaultId x; is >> n >> x.scope >> x.n; x.kind = 0; for (u32 i = 0; i < F_KIND_COUNT; i++) if (n == kFaultNames[i]) x.kind = i; p.faults.push_back(x); }
    else if (k == "schedule") { std::string m; is >> m; p.sched_explicit = m == "explicit"; }
    else if (k == "switch") { SchedDev d; is >> d.ev >> d.fiber; p.sched.push_back(d); }
    else if (k == "expect-hash") is >> hash; else if (k == "expect-sig") { std::getline(is, sig); if (!sig.empty()) sig.erase(0, 1); }
  }
  return true;
}
static std::string describe(const RunResult& r) {
  std::string s = "signature: " + std::string(r.sig) + "\n" + symbolize_msg(r.msg) + "\n";
  std::vector<u64> pcs(r.pcs, r.pcs + r.npcs); bool any = false; for (u64 p : pcs) any |= p != 0;
  if (any) { std::vector<u64> part; int n = 0; auto flush = [&]() { if (!part.empty()) { s += n++ == 0 ? "    stack:\n" : "    other stack:\n"; s += addr2line(part); part.clear(); } };
    for (u64 p : pcs) { if (!p) flush(); else part.push_back(p); } flush(); }
  return s;
}

// ------------------------------------------------------------------------------------------ minimiser ----
static bool same_class(const RunResult& r, const std::string& sig) { return r.status == RUN_VIOLATION && sig == r.sig; }
template<typename T, typename F> static void ddmin(std::vector<T>& items, double until, F test) {
  // removes chunks of items while test(items) stays true
  if (items.empty()) return;
  { std::vector<T> none; if (test(none)) { items.clear(); return; } }
  size_t chunk = (items.size() + 1) / 2;
  while (chunk >= 1 && now_s() < until) {
    bool removed = false;
    for (size_t i = 0; i < items.size() && now_s() < until;) {
      std::vector<T> c(items.begin(), items.begin() + i); if (i + chunk < items.size()) c.insert(c.end(), items.begin() + i + chunk, items.end());
      if (test(c)) { items = c; removed = true; } else i += chunk;
    }
    if (chunk == 1 && !removed) break;
    if (chunk > 1) chunk /= 2; else if (!removed) break;
  }
}
static Plan minimise(Plan p, const Check& c, RunResult* r, double budget, const std::string& sig) {
  double t0 = now_s(), until = t0 + budget;
  run_plan(p, c, r); if (!same_class(*r, sig)) return p;
  u32 nops = r->nops;
  auto drop_ops = [&](double until2) {
    std::vector<u32> keep; for (u32 i = 0; i < nops; i++) if (std::find(p.drop.begin(), p.drop.end(), i) == p.drop.end()) keep.push_back(i);
    auto drop_of = [&](const std::vector<u32>& k) { std::vector<u32> d; std::set<u32> ks(k.begin(), k.end()); for (u32 i = 0; i < nops; i++) if (!ks.count(i)) d.push_back(i); return d; };
    ddmin(keep, until2, [&](const std::vector<u32>& k) { Plan q = p; q.drop = drop_of(k); run_plan(q, c, r); return same_class(*r, sig); });
    p.drop = drop_of(keep);
  };
  if (nops) drop_ops(t0 + budget * 0.4);
  run_plan(p, c, r); if (!same_class(*r, sig)) { p.drop.clear(); run_plan(p, c, r); }
  if (r->nfaults <= 1024 && r->nsched <= 20000) {
    Plan q = p; q.faults_explicit = q.sched_explicit = true;
    q.faults.assign(r->faults, r->faults + r->nfaults); q.sched.assign(r->sched, r->sched + r->nsched);
    run_plan(q, c, r);
    if (same_class(*r, sig)) {
      p = q;
      ddmin(p.faults, t0 + budget * 0.6, [&](const std::vector<FaultId>& k) { Plan z = p; z.faults = k; run_plan(z, c, r); return same_class(*r, sig); });
      ddmin(p.sched, t0 + budget * 0.85, [&](const std::vector<SchedDev>& k) { Plan z = p; z.sched = k; run_plan(z, c, r); return same_class(*r, sig); });
      if (nops) drop_ops(until);
    }
  }
  return p;
}

// -------------------------------------------------------------------------------------------- batches ----
struct Known { std::string prop, sig, text; };
static std::vector<Known> load_known(const std::string& path, const std::string& prop) {
  // known: property=<id> sig=<signature> :: <description>
  std::vector<Known> v; std::ifstream f(path); std::string l;
  while (std::getline(f, l)) { if (l.compare(0, 6, "known:") != 0) continue; size_t a = l.find("property="), b = l.find(" sig="), c = l.find(" :: "); if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    Known k{l.substr(a + 9, l.find(' ', a) - a - 9), l.substr(b + 5, c - b - 5), l.substr(c + 4)}; if (k.prop == prop) v.push_back(k); }
  return v;
}
struct Viol { u64 seed, index; char sig[512]; };
struct Shared {
  volatile u32 stop; volatile u64 next_index;
  struct W { u64 runs, ok, skipped, errors, nontrivial, events, sim_ns, switches, known_hits; u64 faults[F_KIND_COUNT]; u32 ncounters; struct { char name[40]; u64 v; } counters[kMaxCounters]; u32 nviol; Viol viol[8]; char err[1000]; u32 nsamples; char samples[3][1400]; u32 nsched; u32 nstate; char skipwhy[200]; } w[64];
};
static std::string json_str(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; } return o + "\""; }

static int cmd_run(const std::string& id, const std::map<std::string, std::string>& a) {
  auto opt = [&](const char* k, const char* d) { auto it = a.find(k); return it == a.end() ? std::string(d) : it->second; };
  const Check* c = find_check(id); if (!c) { fprintf(stderr, "no such check %s\n", id.c_str()); return 2; }
  double t0 = now_s();
  u64 vseed = strtoull(opt("seed", "1").c_str(), nullptr, 10); double secs = atof(opt("seconds", "30").c_str()); u32 jobs = u32(atoi(opt("jobs", "8").c_str())); u64 first = strtoull(opt("first", "0").c_str(), nullptr, 10), maxruns = strtoull(opt("max-runs", "1000000000").c_str(), nullptr, 10);
  std::string outdir = opt("out", "."), tier = opt("tier", "quick"); bool keep_going = a.count("keep-going");
  if (jobs > 64) jobs = 64;
  u64 base = mix3(vseed, hash_bytes(id.data(), id.size()), 0xB1E4D2D);
  printf("check %s: VERIF_SEED=%llu base seed %llu, %u workers, %.0f s\n", id.c_str(), (unsigned long long)vseed, (unsigned long long)base, jobs, secs); fflush(stdout);
  auto known = load_known(opt("known", "known-findings.txt"), id);
  if (c->prepare) c->prepare();
  load_syms();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const u32 kSetCap = 1 << 20; u64* sets = (u64*)mmap(nullptr, size_t(jobs) * kSetCap * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto plan_of = [&](u64 idx) { Plan p; p.check = id; p.seed = mix2(base, idx); p.cfg["index"] = std::to_string(idx); auto it = a.find("cfg"); if (it != a.end()) { std::istringstream is(it->second); std::string kv; while (std::getline(is, kv, ',')) { size_t e = kv.find('='); p.cfg[kv.substr(0, e)] = kv.substr(e + 1); } } return p; };
  std::vector<pid_t> pids;
  double search_t0 = now_s();
  for (u32 w = 0; w < jobs; w++) {
    pid_t pid = fork();
    if (pid) { pids.push_back(pid); continue; }
    auto& W = sh->w[w]; RunResult* r = new_result();
    for (u64 idx = first + w; idx - first < maxruns; idx += jobs) {
      if (sh->stop) break;
      if (now_s() - search_t0 > secs && idx >= c->enum_runs && W.runs) break;
      Plan p = plan_of(idx);
      run_plan(p, *c, r);
      W.runs++; W.events += r->events; W.sim_ns += r->sim_ns; W.switches += r->switches;
      for (u32 k = 0; k < F_KIND_COUNT; k++) W.faults[k] += r->faults_fired[k];
      for (u32 i = 0; i < r->ncounters; i++) { u32 k = 0; while (k < W.ncounters && strcmp(W.counters[k].name, r->counters[i].name)) k++; if (k == W.ncounters && k < kMaxCounters) { strcpy(W.counters[k].name, r->counters[i].name); W.ncounters++; } if (k < kMaxCounters) W.counters[k].v += r->counters[i].v; }
      if (r->status == RUN_OK) {
        W.ok++; if (r->nontrivial) { W.nontrivial++; if (W.nsched < kSetCap) { sets[(size_t(w) * 2) * kSetCap + W.nsched++] = r->sched_hash; sets[(size_t(w) * 2 + 1) * kSetCap + W.nstate++] = r->trace_hash; } }
        if (W.nsamples < 3 && r->sample[0] && r->nontrivial) snprintf(W.samples[W.nsamples++], 1400, "seed %llu: %s", (unsigned long long)p.seed, r->sample);
      } else if (r->status == RUN_SKIP) { W.skipped++; snprintf(W.skipwhy, sizeof W.skipwhy, "%s", r->msg); }
      else if (r->status == RUN_VIOLATION) {
        bool kn = false; for (auto& k : known) if (k.sig == r->sig) kn = true;
        if (kn) { W.known_hits++; continue; }
        if (W.nviol < 8) { W.viol[W.nviol].seed = p.seed; W.viol[W.nviol].index = idx; snprintf(W.viol[W.nviol].sig, 512, "%s", r->sig); }
        W.nviol++; if (!keep_going) { sh->stop = 1; break; }
      } else { W.errors++; snprintf(W.err, sizeof W.err, "seed %llu: %s", (unsigned long long)p.seed, r->msg); sh->stop = 1; break; }
    }
    _exit(0);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  double search_s = now_s() - search_t0;
  // aggregate
  u64 runs = 0, ok = 0, skipped = 0, errors = 0, nontriv = 0, events = 0, simns = 0, switches = 0, knownhits = 0, nviol = 0; u64 faults[F_KIND_COUNT] = {}; std::map<std::string, u64> ctr; std::vector<std::string> samples; std::unordered_set<u64> scheds, states; std::string errtxt, skipwhy; std::vector<Viol> viols;
  for (u32 w = 0; w < jobs; w++) { auto& W = sh->w[w]; runs += W.runs; ok += W.ok; skipped += W.skipped; errors += W.errors; nontriv += W.nontrivial; events += W.events; simns += W.sim_ns; switches += W.switches; knownhits += W.known_hits; nviol += W.nviol;
    for (u32 k = 0; k < F_KIND_COUNT; k++) faults[k] += W.faults[k]; for (u32 i = 0; i < W.ncounters; i++) ctr[W.counters[i].name] += W.counters[i].v;
    for (u32 i = 0; i < W.nsamples && samples.size() < 6; i++) samples.push_back(W.samples[i]);
    for (u32 i = 0; i < W.nsched; i++) { scheds.insert(sets[(size_t(w) * 2) * kSetCap + i]); states.insert(sets[(size_t(w) * 2 + 1) * kSetCap + i]); }
    if (W.errors) errtxt = W.err; if (W.skipped) skipwhy = W.skipwhy; for (u32 i = 0; i < W.nviol && i < 8; i++) viols.push_back(W.viol[i]); }
  std::sort(viols.begin(), viols.end(), [](const Viol& x, const Viol& y) { return x.index < y.index; });
  int rc = 0; u32 reported = 0;
  RunResult* r = new_result();
  if (keep_going) { if (errors) printf("  HARNESS ERROR: %s\n", errtxt.c_str()); std::map<std::string, std::pair<u64, u64>> by; for (auto& v : viols) { auto& e = by[v.sig]; e.first++; e.second = v.index; } for (auto& kv : by) printf("  FOUND %s x%llu (e.g. index %llu)\n", kv.first.c_str(), (unsigned long long)kv.second.first, (unsigned long long)kv.second.second); }
  else if (!viols.empty()) {
    // gate: same seed twice -> same signature and same trace; then minimise; then replay in a fresh process
    for (Viol& v : viols) { rc = 0; Plan p = plan_of(v.index); u64 h[2]; bool good = true;
    for (int k = 0; k < 2; k++) { run_plan(p, *c, r); h[k] = r->trace_hash; if (!same_class(*r, v.sig)) good = false; }
    if (!good || h[0] != h[1]) { printf("ERROR: violation '%s' of seed %llu does not repeat exactly (simulator nondeterminism)\n", v.sig, (unsigned long long)p.seed); rc = 3; }
    else {
      bool slow = !strcmp(v.sig, "hang");
      if (slow) g_hang_s = 20;
      u32 nops0 = r->nops, nf0 = r->nfaults, ns0 = r->nsched;
      Plan m = minimise(p, *c, r, slow ? 60 : atof(opt("min-seconds", "45").c_str()), v.sig);
      run_plan(m, *c, r);
      if (!same_class(*r, v.sig)) { m = p; run_plan(m, *c, r); }
      std::string info = describe(*r) + strf("minimised: %u of %u operations, %zu of %u faults, %zu of %u schedule deviations\n", nops0 - u32(m.drop.size()), nops0, m.faults_explicit ? m.faults.size() : size_t(nf0), nf0, m.sched_explicit ? m.sched.size() : size_t(ns0), ns0) + (r->sample[0] ? std::string("workload: ") + r->sample + "\n" : "");
      std::string path = outdir + "/" + id + strf("-%016llx.replay", (unsigned long long)p.seed);
      write_plan(path, m, *r, info);
      std::string cmd = "'" + exe_path() + "' replay '" + path + "' >/dev/null 2>&1";
      int st = system(cmd.c_str());
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {  // fall back to the unminimised plan
        run_plan(p, *c, r); write_plan(path, p, *r, describe(*r)); st = system(cmd.c_str()); }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { printf("%s", info.c_str()); printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str()); rc = 1; reported = 1; }
      else { printf("ERROR: replay file %s does not reproduce '%s' in a fresh process\n", path.c_str(), v.sig); rc = 3; }
    }
      if (rc == 1) break; }
  } else if (errors) { printf("ERROR: harness error: %s\n", errtxt.c_str()); rc = 3; }
  for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
  double wall = now_s() - t0;
  // evidence
  std::string ev = opt("evidence", "");
  if (!ev.empty()) {
    std::ofstream f(ev); f << "{\n \"property\": " << json_str(id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << vseed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << states.size() << ",\n  \"rule\": " << json_str(std::string(c->rule) + " Two runs count as distinct when their full trace hashes (operations, scheduling decisions, synchronisation events, faults, results) differ.") << ",\n";
    f << "  \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << json_str(samples[i]); f << "\n  ],\n";
    f << "  \"runs_ok\": " << ok << ",\n  \"runs_skipped\": " << skipped << ",\n  \"skip_reason_example\": " << json_str(skipwhy) << ",\n  \"runs_hitting_known_findings\": " << knownhits << ",\n";
    f << "  \"seeds_per_hour\": " << u64(double(runs) / std::max(search_s, 1e-3) * 3600) << ",\n  \"search_wall_s\": " << search_s << ",\n  \"simulated_time_s\": " << double(simns) / 1e9 << ",\n";
    f << "  \"simulated_events\": " << events << ",\n  \"context_switches\": " << switches << ",\n  \"distinct_interleavings\": " << scheds.size() << ",\n  \"distinct_interleavings_measure\": \"hash over the sequence of (from fiber, to fiber, scheduling point) of every context switch of a run\",\n";
    f << "  \"faults_injected\": {"; bool first = true; for (u32 k = 0; k < F_KIND_COUNT; k++) if (faults[k]) { f << (first ? "" : ", ") << json_str(kFaultNames[k]) << ": " << faults[k]; first = false; } f << "},\n";
    f << "  \"reach\": {"; first = true; for (auto& kv : ctr) { if (kv.first == "sim_elapsed_us") continue; f << (first ? "" : ", ") << json_str(kv.first) << ": " << kv.second; first = false; } f << "},\n";
    f << "  \"components\": " << json_str(c->real_stub) << "\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << reported << "\n}\n";
  }
  printf("check %s: %llu runs (%llu ok, %llu skipped), %llu nontrivial, %zu distinct traces, %zu interleavings, %llu events, %.1f s\n", id.c_str(), (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)skipped, (unsigned long long)nontriv, states.size(), scheds.size(), (unsigned long long)events, wall);
  if (a.count("verbose")) { for (auto& kv : ctr) printf("   %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second); for (u32 k = 0; k < F_KIND_COUNT; k++) if (faults[k]) printf("   fault %-34s %llu\n", kFaultNames[k], (unsigned long long)faults[k]); for (auto& s : samples) printf("   sample: %s\n", s.c_str()); if (skipped) printf("   skip: %s\n", skipwhy.c_str()); }
  if (rc == 0 && ok == 0 && !keep_going) { printf("ERROR: no run completed\n"); rc = 3; }
  return rc;
}
static int cmd_replay(const std::string& path) {
  Plan p; u64 h = 0; std::string sig; if (!read_plan(path, p, h, sig)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
  const Check* c = find_check(p.check); if (!c) { fprintf(stderr, "no such check %s\n", p.check.c_str()); return 2; }
  if (c->prepare) c->prepare();
  if (sig == "hang") g_hang_s = 20;
  RunResult* r = new_result(); run_plan(p, *c, r);
  if (r->status == RUN_VIOLATION) {
    printf("%s", describe(*r).c_str());
    bool same = sig == r->sig && h == r->trace_hash;
    printf("%s: signature %s, trace hash %llu (expected %llu)\n", same ? "REPRODUCED" : "DIFFERENT VIOLATION", r->sig, (unsigned long long)r->trace_hash, (unsigned long long)h);
    return same ? 1 : 4;
  }
  printf("no violation (status %u: %s)\n", r->status, r->msg); return r->status == RUN_ERROR ? 3 : 0;
}
static int cmd_determinism(const std::string& id, u64 n, u64 vseed, u64 first) {
  const Check* c = find_check(id); if (!c) return 2; if (c->prepare) c->prepare();
  RunResult* r = new_result(); u64 base = mix3(vseed, hash_bytes(id.data(), id.size()), 0xB1E4D2D);
  for (u64 i = first; i < first + n; i++) { Plan p; p.check = id; p.seed = mix2(base, i); p.cfg["index"] = std::to_string(i); run_plan(p, *c, r); printf("%llu status=%u trace=%016llx events=%llu sig=%s\n", (unsigned long long)i, r->status, (unsigned long long)r->trace_hash, (unsigned long long)r->events, r->sig);
    if (r->status == RUN_OK || r->status == RUN_VIOLATION) { // explicit replay must equal the seeded run
      if (r->nfaults <= 1024 && r->nsched <= 20000 && r->trace_hash != 0x4A46) { Plan q = p; q.faults_explicit = q.sched_explicit = true; q.faults.assign(r->faults, r->faults + r->nfaults); q.sched.assign(r->sched, r->sched + r->nsched); u64 h = r->trace_hash; run_plan(q, *c, r); if (h != r->trace_hash) printf("%llu EXPLICIT-REPLAY-DIFFERS %016llx status=%u sig=%s\n", (unsigned long long)i, (unsigned long long)r->trace_hash, r->status, r->sig); } } }
  return 0;
}
int sim_main(int argc, char** argv) {
  // addresses of the process image and of the C library heap must not vary between executions
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  std::vector<std::string> pos; std::map<std::string, std::string> o;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.compare(0, 2, "--") == 0) { size_t e = s.find('='); if (e == std::string::npos) o[s.substr(2)] = "1"; else o[s.substr(2, e - 2)] = s.substr(e + 1); } else pos.push_back(s); }
  heap_init();
  if (pos.size() >= 2 && pos[0] == "run") return cmd_run(pos[1], o);
  if (pos.size() >= 2 && pos[0] == "replay") return cmd_replay(pos[1]);
  if (pos.size() >= 2 && pos[0] == "determinism") return cmd_determinism(pos[1], o.count("n") ? strtoull(o["n"].c_str(), nullptr, 10) : 20, o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 10) : 1, o.count("first") ? strtoull(o["first"].c_str(), nullptr, 10) : 0);
  if (pos.size() >= 3 && pos[0] == "one") { const Check* c = find_check(pos[1]); if (!c) return 2; if (c->prepare) c->prepare(); u64 vseed = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 10) : 1; u64 base = mix3(vseed, hash_bytes(pos[1].data(), pos[1].size()), 0xB1E4D2D); Plan p; p.check = pos[1]; p.seed = mix2(base, strtoull(pos[2].c_str(), nullptr, 10)); p.cfg["index"] = pos[2]; if (o.count("cfg")) { std::istringstream is(o["cfg"]); std::string kv; while (std::getline(is, kv, ',')) { size_t e = kv.find('='); p.cfg[kv.substr(0, e)] = kv.substr(e + 1); } }
    RunResult* r = new_result(); double t = now_s(); run_plan(p, *c, r); printf("status %u events %llu switches %llu nops %u faults %u sched %u wall %.3f\n%s\n%s\n", r->status, (unsigned long long)r->events, (unsigned long long)r->switches, r->nops, r->nfaults, r->nsched, now_s() - t, r->sample, r->status == RUN_VIOLATION ? describe(*r).c_str() : r->msg); for (u32 i = 0; i < r->ncounters; i++) printf("   %s %llu\n", r->counters[i].name, (unsigned long long)r->counters[i].v); return r->status == RUN_OK ? 0 : 1; }
  if (pos.size() >= 1 && pos[0] == "list") { for (auto& c : checks()) printf("%s\n", c.id); return 0; }
  fprintf(stderr, "usage: simcheck run|replay|determinism|one|list ...\n"); return 2;
}
}
int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
