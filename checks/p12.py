"""P12: frame-buffer channels (spec/FrameChannels.tla)."""
import vf

META = dict(
    technique="TLA+ spec FrameChannels checked by TLC; its complete graph for the three related channels and simulated behaviours "
              "over all nine are replayed into FrameBuffer for two spectral types and several resolutions",
    note="Enabling the sensor response also enables the received power it is computed from; that is part of the specification.")


def run(ctx):
    exe = vf.build(ctx, "frame_channels", libs="all")
    g = vf.build_graph(ctx, "FrameChannels", "FrameChannels_pairs.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=100)
    assert left == 0
    vf.replay(ctx, exe, walks, reset=dict(op="reset", keep=["power", "response", "direct"]), what="related channels")
    walks = vf.sim_walks(ctx, "FrameChannels", "FrameChannels_all.cfg", num=2500 if ctx.thorough else 250, depth=120)
    vf.replay(ctx, exe, walks, what="all channels")
