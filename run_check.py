#!/usr/bin/env python3
"""run_check.py ID: rebuilds what the check needs from /repo's working tree and runs it (quick or thorough by VERIF_TIER)."""
import os, sys, subprocess
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build
from checks_table import CHECKS
def main():
    cid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    sys.argv = ["build.py", cid]
    if build.main(): return 3
    ev, rep = os.path.join(V, "evidence"), os.path.join(V, "replays")
    os.makedirs(ev, exist_ok=True); os.makedirs(rep, exist_ok=True)
    d = CHECKS[cid]; jobs = max(1, min(8, os.cpu_count() or 1))
    cmd = [os.path.join(build.OUT, "simcheck-" + cid), "run", cid, "--seed=" + seed, "--seconds=%d" % d[tier], "--jobs=%d" % jobs, "--out=" + rep, "--tier=" + tier,
           "--evidence=" + os.path.join(ev, cid + ".json"), "--known=" + os.path.join(V, "known-findings.txt"), "--verbose"]
    sys.stdout.flush()
    env = dict(os.environ); env.pop("SIM_NOASLR", None); env["ASAN_OPTIONS"] = d.get("asan", "")
    r = subprocess.run(cmd, env=env)
    return r.returncode if r.returncode in (0, 1) else 3
if __name__ == "__main__": sys.exit(main())
