"""P03: deleting removes an object and its dependents, nothing else (spec/SceneTree.tla)."""
import vf
from scenetree import graph, play

META = dict(
    technique="TLA+ spec SceneTree checked by TLC (OnlyDependents, NoDangling, Tree); its complete graph and simulated behaviours are replayed into "
              "a real scene, comparing the whole tree and every asset after every step (AddressSanitizer)",
    note="Complete for one scene with up to six objects (geometries, primitives, lights, frames, placements); models loaded from files and trees of "
         "up to 24 objects by TLC simulation.")


def run(ctx):
    exe = vf.build(ctx, "scenetree", libs="all", opt="-O1", san=True)
    left = graph(ctx, exe, "SceneTree_one.cfg", "one scene, complete", cap=None if ctx.thorough else 30000)
    ctx.extra["transitions_not_replayed"] = left
    num = 800 if ctx.thorough else 80
    play(ctx, exe, vf.sim_walks(ctx, "SceneTree", "SceneTree_sim.cfg", num=num, depth=120), "one scene, simulated")
    play(ctx, exe, vf.sim_walks(ctx, "SceneTree", "SceneTree_sim2.cfg", num=num // 2, depth=90), "two scenes, simulated")
