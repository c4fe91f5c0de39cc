"""P08: concurrent logging (spec/LogConc.tla explains every recorded history; ThreadSanitizer)."""
import json
import os

import vf

META = dict(
    technique="TLA+ spec LogConc: histories recorded from multi-threaded runs of the real logger validated by TLC; ThreadSanitizer on the same runs",
    note="Schedules are those the machine produced (not all), with every call type mixed; each recorded history must have a "
         "linearisation in the specification, and the runs under ThreadSanitizer must be free of data races.")


def script(rng, nth, nops, ids, mix):
    th = []
    for t in range(nth):
        ops = []
        for _ in range(nops):
            x = rng.random()
            if x < mix["log"]:
                ops.append(dict(op="log", s=rng.randrange(4), k=ids.pop(0)))
            elif x < mix["log"] + mix["cap"]:
                ops.append(dict(op="cap", c=rng.choice([0, 1, 2, 3, 5, 40])))
            elif x < mix["log"] + mix["cap"] + mix["level"]:
                ops.append(dict(op="level", l=rng.randrange(4)))
            elif x < mix["log"] + mix["cap"] + mix["level"] + mix["sink"]:
                ops.append(dict(op="sink", c=rng.randrange(4)))
            else:
                ops.append(dict(op="dump"))
        th.append(ops)
    return th


MIXES = [dict(log=1.0, cap=0, level=0, sink=0), dict(log=.7, cap=.2, level=0, sink=0),
         dict(log=.7, cap=0, level=.1, sink=.15), dict(log=.6, cap=.1, level=.1, sink=.1)]


def rounds(ctx, n, nth, nops):
    out = []
    for i in range(n):
        mix = MIXES[i % len(MIXES)]
        ids = list(range(1 + i * 200, 1 + i * 200 + 200))   # no id twice in one process
        big = mix["log"] == 1.0
        out.append(dict(op="run", cap=200 if big else ctx.rng.choice([2, 4, 30]),
                        lvl=0 if big else ctx.rng.randrange(3), sink=ctx.rng.randrange(4),
                        threads=script(ctx.rng, nth, nops * 4 if big else nops, ids, mix)))
    return out


def to_trace(cmd, got):
    ops, by = [], {}
    for t, (cs, rs) in enumerate(zip(cmd["threads"], got["threads"])):
        for c, r in zip(cs, rs):
            o = dict(op=c["op"], i=r["i"], r=r["r"], s=c.get("s", 0), k=c.get("k", 0), c=c.get("c", 0),
                     l=c.get("l", 0), res=r.get("res", []), snk=[], pre=[])
            if c["op"] == "log":
                by[c["k"]] = o
            ops.append(o)
    for snk, sev, k in got["delivered"]:
        if k not in by or by[k]["s"] != sev:
            return None, f"the sink received a message nobody logged (sink {snk}, severity {sev}, id {k})"
        by[k]["snk"].append(snk)
    end = max([o["r"] for o in ops]) + 1
    ops.append(dict(op="dump", i=end, r=end + 1, s=0, k=0, c=0, l=0, res=got["final"], snk=[], pre=[]))
    pos = {id(o): n + 1 for n, o in enumerate(ops)}
    for o in ops:
        if o["op"] == "dump":
            prev = None
            for e in o["res"]:
                if e["k"] in by and by[e["k"]]["s"] == e["s"]:
                    if prev is not None and pos[id(prev)] not in by[e["k"]]["pre"]:
                        by[e["k"]]["pre"].append(pos[id(prev)])
                    prev = by[e["k"]]
                elif not any(h == e for h in got["hist"]):
                    return None, f"a dump shows a message nobody logged: {e}"
    return dict(cap=cmd["cap"] or 1, lvl=cmd["lvl"], sink=cmd["sink"], hist=got["hist"], ops=ops,
                levels=any(o["op"] == "level" for o in ops), sinks=any(o["op"] == "sink" for o in ops)), None


def validate(ctx, cmds, answers, what):
    traces = []
    for c, g in zip(cmds, answers):
        tr, bad = to_trace(c, g)
        if bad:
            raise vf.Violation(f"{what}: {bad}", dict(kind="history", cmd=c, recorded=g))
        traces.append(tr)
    path = os.path.join(ctx.dir, "traces.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    ok = set()
    _, st = vf.tlc(ctx, "LogConc", "LogConc.cfg", env=dict(VF_TRACES=path), workers=4,
                   on_line=lambda r: ok.add(r["ok"]))
    ctx.cov["states"] += st["states"]
    ctx.cov["transitions"] += st["generated"]
    for n, tr in enumerate(traces, 1):
        if n not in ok:
            raise vf.Violation(f"{what}: a recorded concurrent history has no explanation in the specification",
                               dict(kind="history", trace=tr, cmd=cmds[n - 1], recorded=answers[n - 1]))
    ctx.cov["traces_validated_against_impl"] += len(traces)
    ctx.log(f"{what}: {len(traces)} recorded histories explained ({st['states']} states)")
    return traces


def run_real(ctx, exe, cmds, what, env):
    for attempt in (1, 2):
        try:
            return vf.drive(ctx, exe, cmds, env=env, timeout=300)
        except vf.Died as d:
            if attempt == 2 or "ThreadSanitizer" in d.err:
                i = d.err.find("WARNING: ThreadSanitizer")
                raise vf.Violation(f"{what}: the program failed (exit {d.rc}): " + d.err[max(i, 0):][:1500],
                                   dict(kind="schedule", cmds=cmds[:d.at + 1][-3:], stderr=d.err))


def run(ctx):
    env = dict(VF_DIR=ctx.dir, TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    tsan, fast = vf.build_all(
        ctx, dict(name="log_conc", flags=["-fsanitize=thread"], opt="-O1", out="log_conc_tsan"),
        dict(name="log_conc", opt="-O1"))
    k = 8 if ctx.thorough else 1
    cmds = rounds(ctx, 120 * k, 3, 5)
    validate(ctx, cmds, run_real(ctx, tsan, cmds, "under ThreadSanitizer", env), "under ThreadSanitizer")
    for part in range(2 * k):
        cmds = rounds(ctx, 200, ctx.rng.choice([2, 3, 4]), 5)
        trs = validate(ctx, cmds, run_real(ctx, fast, cmds, "optimised", env), "optimised")
    ctx.cov["samples"] += [vf.short([dict(op=o["op"], k=o["k"], start=o["i"], end=o["r"]) for o in trs[3]["ops"]], 900)]
    # the binding is not vacuous: a corrupted recording has to be refused
    import copy
    for tr in trs:
        d = next((o for o in tr["ops"] if o["op"] == "dump" and len(o["res"]) >= 2), None)
        if d:
            bad = copy.deepcopy(tr)
            dd = next(o for o in bad["ops"] if o["op"] == "dump" and len(o["res"]) >= 2)
            dd["res"].pop(0 if len(dd["res"]) < tr["cap"] else -1)
            break
    path = os.path.join(ctx.dir, "bad.json")
    with open(path, "w") as f:
        json.dump([bad], f)
    ok = set()
    vf.tlc(ctx, "LogConc", "LogConc.cfg", env=dict(VF_TRACES=path), on_line=lambda r: ok.add(r["ok"]))
    if ok:
        raise vf.CheckError("a corrupted trace was accepted")
    ctx.extra["corrupted_trace_refused"] = 1
    ctx.assumptions.append("schedules are sampled by running on 8 cores; TLC decides whether each recorded history is allowed")
