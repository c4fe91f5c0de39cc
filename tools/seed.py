"""Keep a planted change:  seed.py NAME  (reads tools/seeds/NAME.json + NAME.cpp, writes seeded/NAME/ and tries it)

NAME.json: {property, needs, what_it_breaks, edits: [[file under include/, old, new], ...], flags: extra g++ flags}
With --try the change is applied to /repo, the tests and the demo run, then the property's check; /repo is restored."""
import difflib, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as it should
set -u
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'find "$dir" -delete' EXIT
g++ -std=c++20 -O1 -w -I include -I "$here/stub" "$here/demo.cpp" -o "$dir/demo" %s || exit 99
cp "$dir/demo" "$dir/run" && cd "$dir" && timeout 120 ./demo
'''


def make(name):
    m = json.load(open(f"{V}/tools/seeds/{name}.json"))
    out = f"{V}/seeded/{name}"
    os.makedirs(out, exist_ok=True)
    diff, texts = "", {}
    for f, old, new in m["edits"]:
        p = "include/" + f
        orig = open("/repo/" + p).read()
        s = texts.get(p, orig)
        assert s.count(old) == 1, (name, p, s.count(old), old)
        texts[p] = s.replace(old, new)
    for p, s in texts.items():
        diff += "".join(difflib.unified_diff(open("/repo/" + p).read().splitlines(True), s.splitlines(True), "a/" + p, "b/" + p))
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO % m.get("flags", "-pthread"))
    os.chmod(out + "/demo.sh", 0o755)
    shutil.copy(f"{V}/tools/seeds/{name}.cpp", out + "/demo.cpp")
    if m.get("stub"):
        shutil.copytree(f"{V}/harness/stub", out + "/stub", dirs_exist_ok=True)
    json.dump({k: m[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
    return m


def attempt(name, m):
    d = f"{V}/seeded/{name}"
    run = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    a = run(f"bash {d}/demo.sh", cwd="/repo")
    assert run(f"git -C /repo apply {d}/patch.diff").returncode == 0, "apply"
    try:
        t = run("bash /opt/vp/test.sh /tmp/seed_out.json")
        o = json.load(open("/tmp/seed_out.json"))
        b = run(f"bash {d}/demo.sh", cwd="/repo")
        c = run(f"timeout 880 python3 {V}/run.py check {m['property']} --tier quick", env=dict(os.environ, VERIF_REPLAYS="/tmp"))
        lines = c.stdout.splitlines()
        v = [i for i, l in enumerate(lines) if l.startswith("VIOLATION")]
        print(name, m["property"], "| tests", len(o["passed"]), o["failed"], "| demo", a.returncode, b.returncode, b.stdout[-200:].strip(),
              (a.stdout + a.stderr)[-800:] if a.returncode else "",
              "| check", c.returncode, lines[v[0] - 1][:200] if v else "MISSED " + c.stderr[-300:], flush=True)
    finally:
        run("git -C /repo checkout -- .")


for n in [x for x in sys.argv[1:] if not x.startswith("-")]:
    m = make(n)
    if "--try" in sys.argv:
        attempt(n, m)
if "--try" in sys.argv:
    subprocess.run("bash /opt/vp/build.sh", shell=True, capture_output=True)
