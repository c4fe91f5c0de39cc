"""P29: material settings (spec/Materials.tla)."""
import math

import vf

META = dict(
    technique="TLA+ spec Materials (a picture and a factor per optical channel) checked by TLC for independence of the channels and fresh "
              "resets; the complete graph of each channel and simulated behaviours over all seven are replayed into materials of a scene",
    note="What a channel evaluates to is looked at in two places of the pictures. A channel the way of scattering does not look at is left out.")
CH = ["albedo", "alpha", "metallic", "roughness", "normal", "transmission", "emissive"]


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def cmp(a, e, g):
    if g.get("r") != e["r"]:
        return f"expected {e['r']} got {g.get('r')}"
    o = e["o"]
    for k, side in enumerate("ab"):
        got = g["o"][side]
        want = {c: o["seen"][c][k] for c in CH}
        n = unit(want["normal"]) if want["normal"] else [0, 0, 1]
        want["normal"] = n
        for c in CH:
            if want[c] and any(y is None or abs(x - y) > 1e-5 * max(1, abs(x)) for x, y in zip(want[c], got[c])):
                return f"{c} of pixel {k}: expected {want[c]} got {got[c]}"
        t, b = got["t"], got["b"]
        if None in t + b:
            return f"pixel {k}: tangent {t}, bitangent {b}"
        dot = lambda p, q: sum(x * y for x, y in zip(p, q))
        if any(abs(x) > 1e-5 for x in (dot(t, t) - 1, dot(b, b) - 1, dot(t, b), dot(t, n), dot(b, n))):
            return f"pixel {k}: normal {n}, tangent {t}, bitangent {b} are not a frame"
        if dot([n[1] * t[2] - n[2] * t[1], n[2] * t[0] - n[0] * t[2], n[0] * t[1] - n[1] * t[0]], b) < 0:
            return f"pixel {k}: left-handed frame"
    if not o["opaque"] and not g["o"]["has_alpha"]:
        return "the material lets light through but says it has no alpha"
    return None


def run(ctx):
    exe = vf.build(ctx, "materials", libs="all", san=True, opt="-O1")
    ch = [f'{{"{c}"}}' for c in CH]
    if ctx.thorough:
        ch += ctx.rng.sample([f'{{"{a}", "{b}"}}' for i, a in enumerate(CH) for b in CH[:i]], 4)
    walks = []
    for c in ch:
        g = vf.build_graph(ctx, "Materials", "Materials_quick.cfg", consts=dict(Chan=c))
        w, left = vf.cover_walks(g, ctx.rng, maxlen=100)
        assert left == 0
        walks += w
    vf.replay(ctx, exe, walks, cmp=cmp, what="one channel at a time" if not ctx.thorough else "one and two channels")
    walks = vf.sim_walks(ctx, "Materials", "Materials_sim.cfg", num=900 if ctx.thorough else 120, depth=100)
    vf.replay(ctx, exe, walks, cmp=cmp, what="all channels")
