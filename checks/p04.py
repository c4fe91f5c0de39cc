"""P04: ephemeris-driven nodes below ephemeris-driven parents; the last accepted setting is in effect (spec/NodeState.tla)."""
import vf
from nodestate import play

META = dict(
    technique="TLA+ spec NodeState (every setter of a node, the settings a tree admits, and the pose they give) checked by TLC (Hangs, RootStays, Both, "
              "Ephemeris, Alone); its complete graphs and simulated behaviours are replayed into real scene trees, comparing modes, static settings "
              "and evaluated poses of every node after every step",
    note="Complete for trees of up to three nodes with position/rotation/ephemeris settings, and for one node with every setter including callbacks; trees "
         "of six nodes by TLC simulation. The ephemeris is a stand-in for CSPICE with simple exact motions.")


def run(ctx):
    exe = vf.build(ctx, "nodestate", libs="all", opt="-O1")
    cap = None if ctx.thorough else 60000
    for cfg, what in (("NodeState_modes.cfg", "modes of three nodes, complete"), ("NodeState_one.cfg", "every setter of one node")):
        g = vf.build_graph(ctx, "NodeState", cfg)
        w, left = vf.cover_walks(g, ctx.rng, maxlen=400, maxsteps=cap)
        play(ctx, exe, w, what, False)
        ctx.extra["transitions_not_replayed " + cfg] = left
    num = 1000 if ctx.thorough else 80
    play(ctx, exe, vf.sim_walks(ctx, "NodeState", "NodeState_sim.cfg", num=num, depth=100), "trees of six nodes", True)
