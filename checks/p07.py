"""P07: the log history is exactly the newest accepted messages (spec/LogHistory.tla)."""
import vf

META = dict(
    technique="TLA+ spec LogHistory checked by TLC; every explored transition replayed into the real logger",
    note="Exhaustive on the specification for capacities up to 3 (thorough 4), all severities and thresholds; "
         "larger capacities (including the shipped 1000) by TLC simulation. Trusts the dump format parser.")


def run(ctx):
    exe = vf.build(ctx, "log_history")
    env = dict(VF_DIR=ctx.dir)
    g = vf.build_graph(ctx, "LogHistory", "LogHistory_thorough.cfg" if ctx.thorough else "LogHistory_quick.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=120)
    assert left == 0
    ctx.extra["transition_coverage"] = "every transition of the explored graph is replayed"
    reset = dict(op="reset", cap=3)
    walks += vf.random_walks(g, ctx.rng, 600 if ctx.thorough else 60, 120)
    vf.replay(ctx, exe, walks, reset=reset, env=env, what="log history, small capacities")
    # the shipped default capacity, with wrap-around by bursts
    sim = vf.sim_walks(ctx, "LogHistory", "LogHistory_default.cfg", num=60 if ctx.thorough else 8, depth=14)
    vf.replay(ctx, exe, sim, env=env, what="log history, default capacity")
    sim = vf.sim_walks(ctx, "LogHistory", "LogHistory_mid.cfg", num=600 if ctx.thorough else 60, depth=80)
    vf.replay(ctx, exe, sim, env=env, reset=dict(op="reset", cap=5), what="log history, mixed capacities")
    ctx.assumptions.append("messages are non-empty single lines (empty ones are not shown in a dump by design)")
