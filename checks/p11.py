"""P11: nesting of participating media (spec/MediumNest.tla)."""
import vf

META = dict(
    technique="TLA+ spec MediumNest checked by TLC; its complete graph for 4 (thorough: 5) bodies and simulated behaviours with 11 bodies "
              "(beyond the supported depth) are replayed into MediumStack",
    note="Depth is the one the code offers (8). Entering more bodies than that is ignored, as the code documents.")


def run(ctx):
    exe = vf.build(ctx, "medium_nest")
    cap = vf.drive(ctx, exe, [{"op": "cap"}])[0]["r"]
    cs = dict(Cap=cap)
    g = vf.build_graph(ctx, "MediumNest", "MediumNest_thorough.cfg" if ctx.thorough else "MediumNest_quick.cfg", consts=cs)
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=200)
    assert left == 0
    vf.replay(ctx, exe, walks, what="media of few bodies")
    walks = vf.sim_walks(ctx, "MediumNest", "MediumNest_deep.cfg", num=4000 if ctx.thorough else 300, depth=150, consts=cs)
    vf.replay(ctx, exe, walks, what="media of eleven bodies")
