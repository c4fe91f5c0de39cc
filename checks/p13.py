"""P13: a camera follows its final settings (spec/Camera.tla)."""
import camera
import vf

META = dict(
    technique="TLA+ spec Camera: the final settings of a camera after any history of accepted and refused configuration calls; drawn histories are evaluated "
              "by TLC and replayed into a camera of a scene, which is then compared in everything it can be asked (projection, rays, field of view, solid "
              "angles, blur kernels, defocus) with a new camera given those settings at once",
    note="The new camera is the oracle for what the settings mean; P14 checks projection, rays and lenses against exact values.")


def draw(rng, m, blur):
    w = [camera.sensor(rng), camera.focal(rng), dict(op="aperture", d=509, res=0)]
    for _ in range(m):
        k = rng.random()
        if k < .5:
            w.append(camera.shape(rng))
        elif k < .78:
            w.append(camera.optics(rng, blur))
        elif k < .88:
            w.append(camera.refused(rng))
        else:
            w.append(dict(op="see", res=0))
    w.append(dict(op="see", res=0))
    return w


def cmp(a, exp, got):
    if "threw" in got:
        return f"{a['op']} threw: {got['threw']}"
    r = got["r"]
    if a["op"] == "see":
        if r["n"] != r["fresh"] or not r["worst"] <= 2e-3:
            return f"differs from a new camera with the same settings: {r}"
        return None
    return None if r == exp["r"] else f"expected {exp['r']}, got {r}"


def run(ctx):
    exe = vf.build(ctx, "camera", libs="all", opt="-O1")
    n = 10 if ctx.thorough else 1
    walks = [draw(ctx.rng, 22, False) for _ in range(200 * n)] + [draw(ctx.rng, 8, True) for _ in range(24 * n)]
    walks = vf.guided(ctx, "Camera_G", "Camera_G.cfg", walks, jobs=4)
    walks = [[(dict(a, s=a["res"]) if a["op"] == "see" else a, o) for a, o in w] for w in walks]
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="settings", cmp=cmp)
