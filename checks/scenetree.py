"""Shared by P02 and P03: replaying SceneTree behaviours (spec/SceneTree.tla)."""
import vf


def cmp(a, e, g):
    if e["r"] != g["r"]:
        return f"expected {e['r']!r} got {g['r']!r}"
    for i, (w, x) in enumerate(zip(e["o"], g["o"]), 1):
        if w != x:
            return f"object {i}: expected {w} got {x}"
    return None if len(e["o"]) == len(g["o"]) else f"{len(g['o'])} objects for {len(e['o'])}"


def play(ctx, exe, walks, what, n=8):
    n = min(n, len(walks))
    vf.parallel_replay(ctx, exe, [walks[i::n] for i in range(n)], env=dict(VF_DIR=ctx.dir), cmp=cmp, what=what, reset=dict(op="reset"))


def graph(ctx, exe, cfg, what, cap=None):
    g = vf.build_graph(ctx, "SceneTree", cfg)
    w, left = vf.cover_walks(g, ctx.rng, maxlen=400, maxsteps=cap)
    play(ctx, exe, w, what)
    return left
