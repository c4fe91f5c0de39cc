"""Try changes of /repo against a check:  mutate.py P20 < list
Each entry of the list (blank-line separated):  file / old text / new text, separated by lines '==='."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = sys.argv[1].split(",")
muts = [m.strip("\n").split("\n===\n") for m in sys.stdin.read().split("\n----\n") if m.strip()]


def one(k):
    f, old, new = (muts[k] + [""])[:3]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("MUT_SRC", "/repo") + "/include", d + "/include")
        p = f"{d}/include/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return k, "TEXT NOT FOUND"
        open(p, "w").write(s.replace(old, new, 1))
        res = []
        for c in checks:
            r = subprocess.run(["python3", "run.py", "check", c, "--tier", os.environ.get("TIER", "quick")], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_REPLAYS=d))
            out = r.stdout.splitlines()
            why = next((l for l in out if l.startswith("VIOLATION")), "")
            res.append(f"{c}: rc={r.returncode} " + (("CAUGHT " + out[out.index(why) - 1][:250]) if why else (r.stderr[-300:] if r.returncode else "MISSED")))
        return k, " ; ".join(res)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for k, r in ex.map(one, range(len(muts))):
        print(f"#{k} [{muts[k][1][:50]!r} -> {(muts[k] + [''])[2][:50]!r}] {r}", flush=True)
