"""P28: errors of the ephemeris toolkit (spec/Toolkit.tla, spec/ToolkitConc.tla)."""
import vf

META = dict(
    technique="TLA+ spec Toolkit: a toolkit with one pending error behind error-checked wrappers, default leap seconds loaded on first need; every "
              "transition of a small instance and drawn histories (injected and left-over errors, missing files, meta-kernels, threads) are replayed "
              "into huira::spice over a stand-in for CSPICE; ToolkitConc: TLC shows over all interleavings that locked calls get their own answers",
    note="CSPICE is replaced by a stand-in following its documented error protocol. Thread schedules are those the machine produced, with the "
         "stand-in dawdling at every entry.")
WRONGS = dict(str2et=["text"], deltet=["type"], unitim=["from", "to"], timout=[], spkezr=["target", "frame"], pxform=["frame", "to"],
              sxform=["frame", "to"], conics=["mu", "periapsis"])
FILES = ["good.k", "leaps.tls", "bad.k", "nomsg.k", "meta.k", "metabad.k", "part.k", "absent.k"]
INJ = ["furnsh", "deltet", "unitim", "timout", "spkezr", "pxform", "sxform", "xf2rav", "conics"]


def call(rng, wrong=.35):
    f = rng.choice(list(WRONGS))
    how = rng.choice(WRONGS[f]) if WRONGS[f] and rng.random() < wrong else "ok"
    return dict(f=f, how=how, k=rng.randint(0, 9))


def draw(rng, m, threads):
    w = []
    if rng.random() < .5:
        w.append(dict(op="file", which="lsk", kind=rng.choice(["missing", "bad", "nomsg"])))
    for _ in range(m):
        k = rng.random()
        if k < .42:
            w.append(dict(call(rng), op="call", res=[]))
        elif k < .56:
            w.append(dict(op=rng.choice(["furnsh", "furnsh_rel"]), at=rng.choice(["top", "sub"]), name=rng.choice(FILES), form=rng.choice(["rel", "abs"]), res=[]))
        elif k < .58:
            w.append(dict(op="nofolder", res=[]))
        elif k < .62:
            w.append(dict(op="pck", res=[]))
        elif k < .74:
            w.append(dict(op="stale"))
        elif k < .84:
            w.append(dict(op="inject", fn=rng.choice(INJ), msg=rng.choice(["planted fault", ""])))
        elif k < .9:
            kinds = dict(lsk=["lsk", "lsk", "missing", "bad", "nomsg"], pck=["good", "missing", "bad", "nomsg"])
            which = rng.choice(["lsk", "lsk", "pck"])
            w.append(dict(op="file", which=which, kind=rng.choice(kinds[which])))
        elif k < .95:
            w.append(dict(op="cd", to=rng.choice(["top", "sub"])))
        elif threads:
            calls = [[call(rng, .5) if rng.random() < .85 else dict(f="furnsh_rel", at="sub", name=rng.choice(["meta.k", "good.k", "bad.k", "part.k"]), how="ok")
                      for _ in range(rng.randint(4, 12))] for _ in range(rng.randint(2, 6))]
            w += [dict(op="calm"), dict(op="threads", calls=calls, seed=rng.randrange(1 << 30), res=[])]
    return w


def wrong(e, g):
    if e == []:
        return None if g["ok"] else ("threw " + g["text"] if g["threw"] else "returned a wrong value")
    if not g["threw"]:
        return f"no exception, expected one saying {e}"
    missing = [x for x in e if x not in g["text"]]
    return f"exception says {g['text']!r}, without {missing}" if missing else None


def cmp(a, exp, got):
    o, g = exp["o"], got["o"]
    if g["cwd"] != o["cwd"]:
        return f"working directory is {g['cwd']}, was {o['cwd']}"
    if g["pend"] != o["pend"]:
        return "a toolkit error is left pending" if g["pend"] else "the toolkit error is gone"
    if g["printed"]:
        return "the toolkit printed an error message"
    if "loaded" in o:
        x, y = (sorted(o["loaded"]), sorted(g["loaded"])) if o["bag"] else (o["loaded"], g["loaded"])
        if x != y:
            return f"loaded {y}, expected {x}"
    op = a["op"]
    if op == "nofolder":
        return None if got["r"]["threw"] else "no exception for a folder that does not exist"
    if op in ("call", "furnsh", "furnsh_rel", "pck"):
        return wrong(a["res"], got["r"])
    if op == "threads":
        for t, (es, gs) in enumerate(zip(a["res"], got["r"])):
            for i, (e, g) in enumerate(zip(es, gs)):
                d = wrong(e, g)
                if d:
                    return f"thread {t}, call {i} ({a['calls'][t][i]}): {d}"
    return None


def run(ctx):
    exe = vf.build(ctx, "toolkit", libs="core", san=False, opt="-O1")
    vf.tlc(ctx, "ToolkitConc", "ToolkitConc.cfg", workers=4)
    g = vf.build_graph(ctx, "Toolkit", "Toolkit_graph.cfg", workers=1)
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=60)
    n = 2500 if ctx.thorough else 300
    cmds = [draw(ctx.rng, 25, False) for _ in range(n)] + [draw(ctx.rng, 40, True) for _ in range(n)]
    given = vf.guided(ctx, "Toolkit_G", "Toolkit_G.cfg", cmds, jobs=8)
    all = walks + given
    vf.parallel_replay(ctx, exe, [all[i::6] for i in range(6)], what="toolkit calls", cmp=cmp, tries=5)
    # without the lock, some interleaving gives a thread another's answer: the model can tell
    _, st = vf.tlc(ctx, "ToolkitConc", "ToolkitConc_open.cfg", env=dict(VF_EXPECT_FAIL="1"))
    if "OwnAnswer is violated" not in st["text"]:
        raise vf.CheckError("ToolkitConc_open is expected to fail\n" + st["text"][-1500:])
