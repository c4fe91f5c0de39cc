#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough]   decide one property (see DESIGN.md)
run.py all [--tier T] [ID...]            run several checks, print a summary"""
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "check":
        import vf
        return vf.run_check(a[1], tier, seed)
    if a[0] == "all":
        ids = a[1:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks"))
                              if f[0] == "p" and f.endswith(".py"))
        worst = 0
        for p in ids:
            t = time.time()
            r = subprocess.run([sys.executable, __file__, "check", p, "--tier", tier],
                               capture_output=True, text=True)
            tail = "" if r.returncode == 0 else "\n" + (r.stdout + r.stderr)[-1500:]
            print(f"{p} rc={r.returncode} {time.time() - t:6.1f}s{tail}", flush=True)
            worst = max(worst, r.returncode)
        return worst


sys.exit(main())
