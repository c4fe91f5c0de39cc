"""P30: data, log and output locations (spec/Paths.tla)."""
import os
import shutil

import vf

META = dict(
    technique="TLA+ spec Paths (data folder override, log folder of the environment, working folder, a small disk) checked by TLC; its "
              "complete graphs and simulated behaviours are replayed into Paths, make_path, get_log_file_path and Logger::dump_to_file on "
              "a scratch folder whose whole content is compared after every step",
    note="Run as root, so refused permissions do not occur; blocked places (a folder where a file should go, a file where a folder should be) do.")


def cmp(a, e, g):
    w, o = e["o"], g["o"]
    w = dict(w, tree=sorted([list(p), k] for p, k in w["tree"]))
    o = dict(o, tree=sorted(o["tree"]))
    if a["op"] == "make" and a["res"] == "error" and g["r"] == "error":
        pass
    elif e["r"] != g["r"]:
        return f"expected {e['r']} got {g['r']}"
    for k in w:
        if w[k] != o[k]:
            return f"{k}: expected {w[k]} got {o[k]}"
    return None


def run(ctx):
    exe = vf.build(ctx, "paths", libs="all")

    def replay(walks, what):
        n = 6
        from concurrent.futures import ThreadPoolExecutor

        def one(k):
            d = os.path.join(ctx.dir, f"disk_{k}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + "/x/y")
            p = d + "/x/y/paths"
            shutil.copy(exe, p)
            vf.replay(ctx, p, walks[k::n], cmp=cmp, env=dict(VF_DIR=d), cwd=d, what=what)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, range(n)))

    for cfg, what in (("Paths_tree.cfg", "folders"), ("Paths_env.cfg", "places")):
        g = vf.build_graph(ctx, "Paths", cfg)
        w, left = vf.cover_walks(g, ctx.rng, maxlen=100)
        assert left == 0
        replay(w, what)
    replay(vf.sim_walks(ctx, "Paths", "Paths_sim.cfg", num=1500 if ctx.thorough else 150, depth=120), "everything")
