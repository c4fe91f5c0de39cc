"""P09: threshold, sinks and console channels (spec/LogRoute.tla)."""
import vf

META = dict(
    technique="TLA+ spec LogRoute checked by TLC; every transition of its graph replayed into the real logger",
    note="The abstract state space (thresholds x sinks x console verbosity) is complete; hidden state of the code is probed by "
         "additional random walks over it. Console output is captured from the C++ streams.")


def run(ctx):
    exe = vf.build(ctx, "log_route")
    g = vf.build_graph(ctx, "LogRoute", "LogRoute.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=80)
    assert left == 0
    walks += vf.random_walks(g, ctx.rng, 2000 if ctx.thorough else 200, 100)
    vf.replay(ctx, exe, walks, env=dict(VF_DIR=ctx.dir), what="message routing")
