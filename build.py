#!/usr/bin/env python3
"""Builds the simulator, the library (from /repo's working tree) and one check binary. Usage: build.py CHECK..."""
import os, sys, subprocess, glob, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(V, "_build"))
sys.path.insert(0, V)
from checks_table import CHECKS

ISA = [("_ssse3", "-mssse3"), ("_sse4_1", "-msse4.1"), ("_sse4_2", "-mpopcnt -mpclmul -msse4.2"),
       ("_avx512", "-mpopcnt -mpclmul -mbmi -mbmi2 -mavx512f -mavx512bw -mavx512dq -mavx512cd -mavx512vl -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2"),
       ("_avx2", "-mpopcnt -mpclmul -mbmi -mbmi2 -mavx2 -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2"), ("_avx", "-mpopcnt -mpclmul -mavx")]
COMMON = ("-std=c++17 -pthread -fno-pie -fvisibility=hidden -fno-math-errno -fno-exceptions -fno-rtti -fno-semantic-interposition "
          "-fno-trapping-math -fno-finite-math-only -fno-threadsafe-statics -fmerge-all-constants -fno-enforce-eh-specs "
          "-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DNDEBUG -DBL_BUILD_OPT_AVX512 -DBL_BUILD_NO_JIT -DBL_STATIC -w")
FLAVOR = {
  "t": dict(lib="-O1 -g1 -fsanitize=thread -U__SANITIZE_THREAD__", core="-O2 -g1", chk="-O1 -g1 -fsanitize=thread -U__SANITIZE_THREAD__", link=""),
  "a": dict(lib="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fsanitize=bounds -fno-sanitize-recover=all", core="-O2 -g1 -DSIM_ASAN", chk="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", link="-fsanitize=address -fsanitize=undefined -static-libasan"),
}
def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "blend2d")):
        if os.sep + "jit" in root[len(REPO):]: continue
        for f in sorted(files):
            if f.endswith(".cpp") and "_test" not in f and not f.endswith("_asimd.cpp") and "_asimd_" not in f: out.append(os.path.join(root, f))
    return sorted(out, key=lambda f: (os.path.basename(f) not in SLOW, f))   # the longest compilations start first
SLOW = ("fixedpiperuntime.cpp", "rastercontextops.cpp", "otlayout.cpp", "rastercontext.cpp", "pathstroke.cpp", "workerproc.cpp")
# the pipelines and the composition operators of the raster context: no check of the address-sanitized flavour renders anything
PLAIN = {"a": ("fixedpiperuntime.cpp", "rastercontextops.cpp")}
def gen(flavors, names):
    n = ["ninja_required_version = 1.5", "builddir = " + OUT,
         "rule lib\n  command = g++ $flags -I%s -MMD -MF $out.d -c $in -o $out.tmp && objcopy --redefine-syms=%s/sim/redefine.txt $out.tmp $out && rm -f $out.tmp\n  depfile = $out.d\n  deps = gcc\n  description = LIB $in" % (REPO, V),
         "rule cc\n  command = g++ $flags -I%s -I%s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in" % (REPO, V),
         "rule ar\n  command = rm -f $out && ar crs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in",
         "rule link\n  command = g++ -no-pie -pthread $lf -o $out $objs -Wl,--start-group $libs -Wl,--end-group\n  description = LINK $out"]
    for fl in flavors:
        F = FLAVOR[fl]; objs = []; rest = []
        for s in lib_sources():
            o = "%s/%s/lib/%s.o" % (OUT, fl, os.path.relpath(s, REPO).replace("/", "_"))
            isa = next((f for k, f in ISA if k in os.path.basename(s)), "")
            (n if os.path.basename(s) in SLOW else rest).append("build %s: lib %s | %s/sim/redefine.txt\n  flags = %s %s %s" % (o, s, V, COMMON, "-O1 -g1" if os.path.basename(s) in PLAIN.get(fl, ()) else F["lib"], isa)); objs.append(o)
        core = []
        for s in ["sched", "heap", "rt", "shims", "runner"]:
            o = "%s/%s/sim/%s.o" % (OUT, fl, s); core.append(o)
            n.append("build %s: cc %s/sim/%s.cpp\n  flags = -std=c++17 -pthread -fno-pie -fno-strict-aliasing -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wall -Wno-unused -Wno-misleading-indentation -Wno-format-truncation -Wno-stringop-truncation %s" % (o, V, s, F["core"]))
        seen = set()
        for c in names:
            d = CHECKS[c]
            if d["flavor"] != fl: continue
            co = []
            for s in d["src"]:
                o = "%s/%s/chk/%s.o" % (OUT, fl, s.replace("/", "_")); co.append(o)
                if o not in seen:
                    seen.add(o); n.append("build %s: cc %s/checks/%s\n  flags = -std=c++17 -pthread -fno-pie -fno-strict-aliasing -DBL_STATIC -DDATA_DIR=\\\"%s/checks/data\\\" -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -w %s" % (o, V, s, V, F["chk"]))
            n.append("build %s/simcheck-%s: link %s %s %s/%s/libbl.a\n  objs = %s\n  libs = %s/%s/libbl.a\n  lf = %s" % (OUT, c, " ".join(core), " ".join(co), OUT, fl, " ".join(core + co), OUT, fl, F["link"]))
        n += rest; n.append("build %s/%s/libbl.a: ar %s" % (OUT, fl, " ".join(objs)))
    return "\n".join(n) + "\n"
def main():
    names = sys.argv[1:] or list(CHECKS)
    flavors = sorted({CHECKS[c]["flavor"] for c in names})
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    # the ninja file always describes everything, so that building one check never invalidates another
    txt = gen(sorted(FLAVOR), list(CHECKS)); path = os.path.join(OUT, "build.ninja")
    if not os.path.exists(path) or open(path).read() != txt: open(path, "w").write(txt)
    r = subprocess.run(["ninja", "-C", OUT, "-f", path] + ["%s/simcheck-%s" % (OUT, c) for c in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: sys.stdout.write(r.stdout[-6000:]); print("ERROR: build failed"); return 3
    return 0
if __name__ == "__main__": sys.exit(main())
