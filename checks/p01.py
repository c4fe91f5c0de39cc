"""P01: names in a scene (spec/Names.tla)."""
import os

import vf

META = dict(
    technique="TLA+ spec Names (one name table per kind of scene object) checked by TLC; its complete graph and simulated behaviours are "
              "replayed into Scene with every kind of named object, every name of interest looked up and the printed lists compared after every step",
    note="Complete for one kind with four objects; other kinds, many objects and models loaded from files by TLC simulation. The kinds that "
         "cannot be looked up or deleted (BSDFs, materials, textures, volumes) are judged by the names their handles report.")


def run(ctx):
    exe = vf.build(ctx, "names", libs="all", opt="-O1")

    def play(walks, kinds, silent, what):
        def cmp(a, e, g):
            if e["r"] != g["r"]:
                return f"expected {e['r']!r} got {g['r']!r}"
            for part in ("list", "who"):
                for k, w in e["o"][part].items():
                    got = g["o"][part][k]
                    if sorted(w) != (sorted(got) if not got or got[0] != "printed" else got):
                        return f"{part} of {k}: expected {sorted(w)} got {got}"
            return None
        look = [n for n, _ in walks[0][0][1]["who"][kinds[0]]]
        n = 4 if len(walks) >= 8 else 1
        vf.parallel_replay(ctx, exe, [walks[i::n] for i in range(n)], env=dict(VF_DIR=ctx.dir), cmp=cmp, what=what,
                           reset=dict(op="reset", kinds=kinds), to_cmd=lambda a: dict(a, kinds=kinds, silent=silent, look=look))

    g = vf.build_graph(ctx, "Names", "Names_graph.cfg")
    w, left = vf.cover_walks(g, ctx.rng, maxlen=300)
    assert left == 0
    play(w, ["light"], [], "names of one kind")
    num = 800 if ctx.thorough else 80
    silent = ["bsdf", "material", "spectral", "mono", "vec3", "density", "phase", "medium"]
    play(vf.sim_walks(ctx, "Names", "Names_sim.cfg", num=num, depth=90), ["light", "geometry", "primitive", "unresolved"], silent, "all kinds at once")
    play(vf.sim_walks(ctx, "Names", "Names_sim1.cfg", num=num, depth=120), ["light", "unresolved"], [], "many objects")
    play(vf.sim_walks(ctx, "Names", "Names_crowd.cfg", num=num // 2, depth=70), ["light", "unresolved"], [], "crowds of one name")
    play(vf.sim_walks(ctx, "Names", "Names_model.cfg", num=num, depth=60), ["model", "light"], [], "models")
    play(vf.sim_walks(ctx, "Names", "Names_camera.cfg", num=num // 8, depth=50), ["camera"], [], "cameras")
