"""P02: handles are usable exactly while their object is in the scene (spec/SceneTree.tla)."""
import vf
from scenetree import graph, play

META = dict(
    technique="TLA+ spec SceneTree (objects, placements, owners and lifetimes in two scenes) checked by TLC; its complete graph and simulated "
              "behaviours are replayed into real scenes, and every member of every handle ever issued is used after every step (AddressSanitizer)",
    note="Complete for two scenes with up to five objects, including dead, foreign and misplaced handles and the end of a scene; larger trees by "
         "TLC simulation. Every other object is kept alive by a shared pointer, so both kinds of dead handle (freed and merely removed) occur.")


def run(ctx):
    exe = vf.build(ctx, "scenetree", libs="all", opt="-O1", san=True)
    assert graph(ctx, exe, "SceneTree_two.cfg", "two scenes, complete") == 0
    num = 600 if ctx.thorough else 60
    play(ctx, exe, vf.sim_walks(ctx, "SceneTree", "SceneTree_sim2.cfg", num=num, depth=90), "two scenes, simulated")
    play(ctx, exe, vf.sim_walks(ctx, "SceneTree", "SceneTree_camera.cfg", num=num // 15, depth=30), "cameras")
