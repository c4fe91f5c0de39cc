"""P10: a fatal crash is reported at most once, with the history (spec/LogCrash.tla)."""
import json

import vf

META = dict(
    technique="TLA+ spec LogCrash checked by TLC; its behaviours end a real process by each fatal cause, report and exit status compared",
    level="model_checking",
    note="Every combination of cause, second failure, thread, switch and scope depth the specification reaches is executed in a "
         "process of its own. Second failures are injected through the sink; simultaneous crashes of two threads are not covered.")

NAMES = ["alpha-scope", "beta-scope"]
WHAT = dict(throw_runtime="boom-runtime", noexcept="boom-noexcept", throw_range="boom-range", throw_own="boom-own")


def cmp(a, exp, got):
    if a["op"] != "die":
        return None
    r = a["res"]
    if got["end"] not in r["signals"]:
        return f"the process ended with {got['end']} (signal, 1000+exit status, -1 hang), expected signal {r['signals']}"
    n = len(got["files"])
    if not r["min"] <= n <= r["max"] or not r["min"] <= got["shown"] <= r["max"]:
        return f"{n} report files, {got['shown']} announced; expected {r['min']}..{r['max']}"
    if r["min"] == 1:
        f = got["files"][0]
        room = r["cap"] - len(f["other"])
        want = r["hist"][-room:] if room > 0 else []
        if f["msgs"] != want:
            return f"the report shows messages {f['msgs']}, expected {want}"
        text = " ".join(f["other"])
        sig = r["signals"][0]
        cause = WHAT.get(a["cause"]) or (str(sig) if "throw" not in a["cause"] and a["cause"] != "terminate" else "")
        if not f["other"] or cause not in text:
            return f"the report does not name the cause: {f['other']}"
        if a["cause"] in ("segv", "segv_raise", "abort", "abort_raise", "fpe", "fpe_raise", "ill_raise", "bus_raise"):
            for i in range(r["scopes"]):
                if NAMES[i] not in text:
                    return f"the report does not name the open scope {NAMES[i]}"
            for i in range(r["scopes"], 2):
                if NAMES[i] in text:
                    return f"the report names the closed scope {NAMES[i]}"
    return None


def run(ctx):
    exe = vf.build(ctx, "log_crash")
    g = vf.build_graph(ctx, "LogCrash", "LogCrash_thorough.cfg" if ctx.thorough else "LogCrash_quick.cfg")
    # every behaviour has to end in a death: one walk per "die" transition
    par, order = {g.init: []}, [g.init]
    walks = []
    for s in order:
        for (a, t, o) in g.out[s]:
            if a["op"] == "die":
                walks.append(par[s] + [(a, None)])
            elif t not in par:
                par[t] = par[s] + [(a, None)]
                order.append(t)
    total = len(walks)
    if not ctx.thorough:
        # every (cause, second failure, thread, switch) combination, other dimensions sampled
        ctx.rng.shuffle(walks)
        seen, keep = {}, []
        for w in walks:
            a = w[-1][0]
            k = (a["cause"], a["second"], a["thread"], a["res"]["max"])
            if seen.get(k, 0) < 20:
                seen[k] = seen.get(k, 0) + 1
                keep.append(w)
        walks = keep
    # also with detours: random walks that end in a death
    for _ in range(2000 if ctx.thorough else 600):
        s, w = g.init, []
        for _ in range(ctx.rng.randrange(3, 12)):
            a, t, o = ctx.rng.choice([e for e in g.out[s] if e[0]["op"] != "die"])
            w.append((a, None))
            s = t
        a, t, o = ctx.rng.choice([e for e in g.out[s] if e[0]["op"] == "die"])
        walks.append(w + [(a, None)])
    ctx.extra["deaths_in_graph"] = total
    ws = [walks[i::8] for i in range(8)]
    vf.parallel_replay(ctx, exe, ws, reset=dict(op="reset", cap=20), env=dict(VF_DIR=ctx.dir), cmp=cmp,
                       what="crash reports")
