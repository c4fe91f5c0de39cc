"""Shared machinery of the checks: run TLC on a specification, turn what it explored into
behaviours, replay them into the real code through a harness, compare, and report.

Every check is a Python module checks/<id>.py with a function  run(ctx).  See DESIGN.md.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBS = {
    "core": ["-pthread"],
    "image": ["-lfftw3f", "-lfftw3", "-pthread"],
    "io": ["-lfftw3f", "-lfftw3", "-lcfitsio", "-lturbojpeg", "-lpng", "-ltiff", "-pthread"],
    "all": ["-lembree4", "-lassimp", "-lcfitsio", "-lfftw3f", "-lfftw3", "-lturbojpeg", "-lpng",
            "-ltbb", "-ltiff", "-pthread"],
}


class Violation(Exception):
    """The property is broken: `what` for the reader, `replay` is what reproduces it."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class CheckError(Exception):
    """The check itself could not give an answer."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}:{seed}")
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"vf_{prop}_")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self.level = "model_checking"
        self.known = load_known(prop)
        self.known_hit = {}

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ known findings
def load_known(prop):
    """known_findings.json: entries with kind "finding" are looked up by the check that owns the
    property; entries with kind "fixed" are a record only and never suppress anything."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e["property"] == prop and e["kind"] == "finding"]


def match_known(ctx, act, got):
    """An entry matches one specific input or call: every key of its `match` equals the step's."""
    for e in ctx.known:
        if all(act.get(k) == v for k, v in e["match"].items()):
            if "got" not in e or e["got"] == got:
                return e
    return None


# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg, mode="bfs", depth=None, num=None, workers=1, heap="4g", timeout=800,
        env=None, on_line=None, seed=None, consts=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (records, stats).
    consts: values for constants of the cfg that are taken from the code under test.

    Records are the JSON values the specification printed (see spec/README)."""
    meta = tempfile.mkdtemp(dir=ctx.dir)
    if consts:
        with open(os.path.join(VERIF, "spec", cfg)) as f:
            text = f.read()
        for k, v in consts.items():
            text, n = re.subn(rf"\b{k} = .*", f"{k} = {v}", text)
            assert n == 1, k
        cfg = os.path.join(meta, "given.cfg")
        with open(cfg, "w") as f:
            f.write(text)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           f"-Djava.io.tmpdir={meta}", "-cp", TLA_CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg]
    if mode == "sim":
        cmd += ["-simulate", f"num={num}", "-depth", str(depth),
                "-seed", str((ctx.seed if seed is None else seed) & 0x7FFFFFFF)]
    cmd += [module + ".tla"]
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, env=e)
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    recs, other = [], []
    for line in p.stdout:
        if line.startswith('"{') or line.startswith('"['):
            r = json.loads(json.loads(line))
            if on_line:
                on_line(r)
            else:
                recs.append(r)
        else:
            other.append(line)
    rc = p.wait()
    killer.cancel()
    text = "".join(other)
    stats = dict(states=0, generated=0, rc=rc)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        stats.update(generated=int(m.group(1)), states=int(m.group(2)))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        stats.update(generated=int(m.group(1)), states=int(m.group(1)))
    stats["text"] = text
    if rc != 0 and not (env or {}).get("VF_EXPECT_FAIL"):
        raise CheckError(f"TLC failed (rc {rc}) on {module}/{cfg}:\n" + "\n".join(l for l in text.splitlines() if not re.match("Parsing|Semantic|Linting", l))[:3000] + "\n...\n" + text[-3000:])
    shutil.rmtree(meta, ignore_errors=True)
    return recs, stats


class Graph:
    """The labelled transition graph TLC explored (records {f, a, t, o})."""

    def __init__(self):
        self.ids = {}
        self.out = []      # state -> list of (act, target, obs)
        self.init = None
        self.seen = {}     # state -> obs, where the specification prints them per state {s, v}

    def sid(self, s):
        k = json.dumps(s, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.out)
            self.out.append([])
        return i

    def add(self, r):
        if "s" in r:
            self.seen[self.sid(r["s"])] = r["v"]
            return
        f = self.sid(r["f"])
        if self.init is None:
            self.init = f
        t = self.sid(r["t"])
        self.out[f].append((r["a"], t, r.get("o")))

    @property
    def edges(self):
        return sum(map(len, self.out))


def build_graph(ctx, module, cfg, **kw):
    g = Graph()
    _, st = tlc(ctx, module, cfg, on_line=g.add, **kw)
    if not g.edges:
        raise CheckError(f"{module}/{cfg}: the specification allows no step")
    if g.seen:
        g.out = [[(a, t, g.seen[t]) for a, t, _ in o] for o in g.out]
    ctx.cov["states"] += len(g.out)
    ctx.cov["transitions"] += g.edges
    ctx.log(f"{module}/{cfg}: {len(g.out)} states, {g.edges} transitions")
    return g


def cover_walks(g, rng, maxlen=150, maxsteps=None):
    """Behaviours from the initial state that together take every transition."""
    todo = [list(range(len(o))) for o in g.out]
    for t in todo:
        rng.shuffle(t)
    remaining = g.edges
    # shortest path from init to each state
    par = {g.init: None}
    q = deque([g.init])
    while q:
        s = q.popleft()
        for i, (_, t, _) in enumerate(g.out[s]):
            if t not in par:
                par[t] = (s, i)
                q.append(t)
    walks, total = [], 0
    pending = deque(s for s in sorted(par, key=lambda s: rng.random()) if todo[s])

    def nearest(s, limit=400):
        seen = {s: None}
        q = deque([s])
        while q and len(seen) < limit:
            u = q.popleft()
            for i, (_, t, _) in enumerate(g.out[u]):
                if t not in seen:
                    seen[t] = (u, i)
                    if todo[t]:
                        path = []
                        while seen[t] is not None:
                            path.append(seen[t])
                            t = seen[t][0]
                        return path[::-1]
                    q.append(t)
        return None

    while remaining > 0:
        while pending and not todo[pending[0]]:
            pending.popleft()
        if not pending:
            break
        s = pending[0]
        path = []
        while par[s] is not None:
            path.append(par[s])
            s = par[s][0]
        path.reverse()
        s = pending[0]
        walk = list(path)
        for (u, i) in path:
            if i in todo[u]:
                todo[u].remove(i)
                remaining -= 1
        while len(walk) < maxlen:
            if todo[s]:
                i = todo[s].pop()
                remaining -= 1
                walk.append((s, i))
                s = g.out[s][i][1]
            else:
                p = nearest(s)
                if not p:
                    break
                for (u, i) in p:
                    walk.append((u, i))
                s = g.out[p[-1][0]][p[-1][1]][1]
        walks.append([g.out[u][i] for (u, i) in walk])
        total += len(walk)
        if maxsteps and total >= maxsteps:
            break
    return [[(a, o) for (a, _, o) in w] for w in walks], remaining


def random_walks(g, rng, num, length):
    res = []
    for _ in range(num):
        s, w = g.init, []
        for _ in range(length):
            if not g.out[s]:
                break
            a, t, o = rng.choice(g.out[s])
            w.append((a, o))
            s = t
        res.append(w)
    return res


def sim_walks(ctx, module, cfg, num, depth, **kw):
    """Behaviours TLC drew at random from a larger instance (records {lv, a, o})."""
    walks = []
    nrec = [0]

    def on(r):
        nrec[0] += 1
        if r["lv"] == 1:
            walks.append([])
        else:
            if r["lv"] == 2 and walks and walks[-1]:
                walks.append([])
            walks[-1].append((r["a"], r["o"]))

    _, st = tlc(ctx, module, cfg, mode="sim", num=num, depth=depth, on_line=on, **kw)
    walks = [w for w in walks if w]
    if len(walks) > num:
        raise CheckError(f"{module}/{cfg}: {len(walks)} behaviours for {num}: Next is not split into single steps")
    ctx.cov["states"] += nrec[0]
    ctx.cov["transitions"] += sum(map(len, walks))
    ctx.log(f"{module}/{cfg}: {len(walks)} simulated behaviours, {sum(map(len, walks))} steps")
    return walks


def guided(ctx, module, cfg, walks, jobs=6, **kw):
    """The specification's answers to given commands: walks of commands in, walks of (act, obs) out.

    The module (by convention <Spec>_G) reads the commands and takes exactly the corresponding
    steps, so TLC computes every expected result and checks the invariants on the way."""
    from concurrent.futures import ThreadPoolExecutor
    walks = [w for w in walks if w]
    jobs = max(1, min(jobs, len(walks)))
    parts = [walks[i::jobs] for i in range(jobs)]

    def one(part):
        cmds = []
        for w in part:
            cmds.append(dict(op="reset"))
            cmds += w
        f = tempfile.NamedTemporaryFile("w", dir=ctx.dir, suffix=".json", delete=False)
        json.dump(cmds, f)
        f.close()
        recs, st = tlc(ctx, module, cfg, env=dict(VF_TRACE=f.name), **kw)
        os.unlink(f.name)
        if len(recs) != len(cmds):
            raise CheckError(f"{module}: {len(recs)} answers to {len(cmds)} commands\n" + st["text"][-2000:])
        res, k = [], 0
        for w in part:
            res.append([(r["a"], r.get("o")) for r in recs[k + 1:k + 1 + len(w)]])
            k += 1 + len(w)
        return res

    with ThreadPoolExecutor(jobs) as ex:
        done = list(ex.map(one, parts))
    out = [None] * len(walks)
    for i, d in enumerate(done):
        out[i::jobs] = d
    n = sum(map(len, out))
    ctx.cov["states"] += n
    ctx.cov["transitions"] += n
    ctx.log(f"{module}/{cfg}: {len(out)} given behaviours, {n} steps evaluated")
    return out


# ------------------------------------------------------------------ harness
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def build_all(ctx, *specs):
    """Several builds at once: each spec is a dict of build()'s arguments."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda s: build(ctx, **s), specs))


def build(ctx, name, libs="core", flags=(), san=False, opt="-O0", std="c++20", out=None,
          extra_src=()):
    """Compile harness/<name>.cpp against /repo's current headers."""
    exe = os.path.join(ctx.dir, out or name)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness"),
           "-I", os.path.join(VERIF, "harness", "stub")]
    cmd = ["g++", "-std=" + std, opt, "-g0" if not san else "-g1", "-w", *inc, *flags]
    if san:
        cmd += SAN
    cmd += [os.path.join(VERIF, "harness", name + ".cpp"), *extra_src, "-o", exe, *LIBS[libs]]
    t = time.time()
    for attempt in (1, 2):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            ctx.log(f"built {name} in {time.time() - t:.1f}s")
            return exe
    raise CheckError(f"the harness {name} does not compile against the public interface:\n"
                     + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:2500])


class Died(Exception):
    def __init__(self, at, rc, err):
        self.at, self.rc, self.err = at, rc, err


def drive(ctx, exe, cmds, env=None, timeout=600, cwd=None, args=()):
    """Feed JSON commands, one a line; returns the JSON answers. Raises Died."""
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")
    if env:
        e.update(env)
    errf = tempfile.TemporaryFile()
    inf = tempfile.TemporaryFile()
    for c in cmds:
        inf.write(json.dumps(c).encode() + b"\n")
    inf.seek(0)
    wd = cwd or ctx.dir
    p = subprocess.Popen([exe, *args], stdin=inf, stdout=subprocess.PIPE, stderr=errf, env=e, cwd=wd)
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    res = []
    for line in p.stdout:
        if line.startswith(b"{"):
            res.append(json.loads(line))
    rc = p.wait()
    timed_out = not killer.is_alive()
    killer.cancel()
    if rc != 0 or len(res) != len(cmds):
        errf.seek(0, 2)
        n = errf.tell()
        errf.seek(max(0, n - 8000))
        err = errf.read().decode("utf8", "replace")
        if timed_out:
            err = f"(no answer within {timeout} s)\n" + err
        raise Died(len(res), rc, err)
    return res


def close_enough(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b and type(a) == type(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close_enough(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close_enough(x, y, tol) for x, y in zip(a, b))
    return a == b


def short(v, n=300):
    t = json.dumps(v)
    return v if len(t) <= n else t[:n] + "..."


def replay(ctx, exe, walks, reset=None, cmp=None, to_cmd=None, tol=0.0, what="", env=None,
           timeout=600, cwd=None, batch=None, tries=1):
    """Replay behaviours of the specification into the real code, step by step.

    A walk is a list of (act, obs); the command sent is `act` without its expected result `res`;
    the answer {"r":…, "o":…} has to equal {"r": act.res, "o": obs}.
    """
    reset = reset or {"op": "reset"}

    def command(a):
        c = {k: v for k, v in a.items() if k != "res"}
        return to_cmd(c) if to_cmd else c

    def expected(a, o):
        e = {}
        if "res" in a:
            e["r"] = a["res"]
        if o is not None:
            e["o"] = o
        return e

    def differs(a, o, got):
        exp = expected(a, o)
        if cmp:
            return cmp(a, exp, got)
        return None if close_enough(exp, got, tol) else f"expected {json.dumps(exp)} got {json.dumps(got)}"

    def run_walks(ws):
        """index of the failing walk and step, or None"""
        cmds, where = [], []
        for i, w in enumerate(ws):
            cmds.append(reset)
            where.append((i, -1))
            for j, (a, _) in enumerate(w):
                cmds.append(command(a))
                where.append((i, j))
        died = None
        try:
            res = drive(ctx, exe, cmds, env=env, timeout=timeout, cwd=cwd)
        except Died as d:
            died, res = d, []
            i, j = where[min(d.at, len(where) - 1)]
            return i, j, f"the program died or hung (exit {d.rc}) on this step\n{d.err[-5000:]}", None
        for (i, j), got in zip(where, res):
            if j < 0:
                continue
            a, o = ws[i][j]
            d = differs(a, o, got)
            if d:
                return i, j, d, got
        return None

    queue = [w for w in walks if w]
    steps = sum(map(len, queue))
    failed = []
    chunks = [queue] if not batch else [queue[k:k + batch] for k in range(0, len(queue), batch)]
    for ws in chunks:
        while ws:
            bad = run_walks(ws)
            if bad is None:
                break
            i, j, why, got = bad
            w = ws[i][:j + 1]
            again = None
            for _ in range(tries):          # confirm in a fresh process (several times where a schedule matters)
                again = again or run_walks([w])
            if again is None:
                # only shows after the earlier behaviours: keep the whole prefix as the replay
                prefix = [x for x in ws[:i]] + [w]
                again = run_walks(prefix)
                if again is None:
                    ctx.log("unconfirmed difference, not reported: " + why[:300])
                    ws = ws[i + 1:]
                    continue
                rep = dict(kind="prefix", reset=reset, walks=[[a for a, _ in x] for x in prefix[-20:]])
            else:
                rep = dict(kind="behaviour", reset=reset, walk=[a for a, _ in w])
            act = w[-1][0]
            k = match_known(ctx, act, got)
            if k is not None:
                ctx.known_hit.setdefault(k["id"], k)
                ws = ws[i + 1:] if not k.get("resume") else [ws[i][j + 1:]] + ws[i + 1:]
                continue
            rep.update(why=why, harness=os.path.basename(exe), part=what, step=act)
            raise Violation(f"{what}: after {len(w) - 1} steps, on {json.dumps(act)}: {why}", rep)
    ctx.cov["traces_validated_against_impl"] += len(queue)
    ctx.extra["steps_replayed"] = ctx.extra.get("steps_replayed", 0) + steps
    if queue and len(ctx.cov["samples"]) < 6:
        s = min(queue, key=lambda w: (abs(len(w) - 6), len(w)))
        ctx.cov["samples"].append(dict(what=what, steps=[short(a) for a, _ in s[:8]],
                                       end=short(s[min(len(s), 8) - 1][1])))
    ctx.log(f"{what}: {len(queue)} behaviours, {steps} steps conform")


def parallel_replay(ctx, exe, parts, env=None, **kw):
    """replay() of several sets of behaviours at once, each with a scratch folder of its own."""
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        d = os.path.join(ctx.dir, f"part{i}")
        os.makedirs(d, exist_ok=True)
        e = dict(env or {})
        if "VF_DIR" in e:
            e["VF_DIR"] = d
        replay(ctx, exe, parts[i], env=e, **kw)

    with ThreadPoolExecutor(len(parts)) as ex:
        for f in [ex.submit(one, i) for i in range(len(parts))]:
            f.result()


# ------------------------------------------------------------------ entry
def run_check(prop, tier, seed):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = __import__(prop.lower())
    ctx = Ctx(prop, tier, seed)
    violations, rc = [], 0
    try:
        try:
            mod.run(ctx)
        except Violation as v:
            out = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "evidence", "replays"))
            os.makedirs(out, exist_ok=True)
            path = os.path.join(out, f"{prop}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, what=v.what, **v.replay), f, indent=1, default=str)
            print(v.what[:3000])
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            violations.append(v.what[:1000])
            rc = 1
        for k in ctx.known_hit.values():
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        cov = dict(ctx.cov)
        cov.update(ctx.extra)
        ev = dict(property=prop, tier=tier, seed=seed, level=ctx.level, coverage=cov,
                  assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2),
                  violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, default=str)
        if rc == 0:
            ctx.log("held on everything explored")
    finally:
        ctx.close()
    return rc
