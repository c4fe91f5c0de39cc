"""P14: projection and ray casting (spec/Camera.tla)."""
import math

import camera
import vf

META = dict(
    technique="TLA+ spec Camera: pinhole projection and the three lens models in exact rational arithmetic, evaluated by TLC for drawn cameras, points and "
              "pixels after histories of settings, replayed into project_point, try_project_point, in_fov and cast_ray",
    note="Rays under a lens come from a table between pixel corners: they may be off by the interpolation error (bounded by 0.03 pixels here).")


def draw(rng, m):
    w = [camera.sensor(rng), camera.focal(rng)]
    res = (w[0]["w"], w[0]["h"])
    for _ in range(m):
        k = rng.random()
        if k < .25:
            c = camera.shape(rng)
            if "w" in c:
                res = (c["w"], c["h"])
            w.append(c)
        elif k < .3:
            w.append(camera.refused(rng))
        elif k < .6:
            a, b = rng.choice(camera.CORNERS)
            w.append(dict(op="project", a=a, b=b, r=math.isqrt(a * a + b * b), t=rng.choice([1, 2, 100, 1000000]), res=0))
        else:
            x, y = (rng.choice([0, 1, 8 * n - 1, rng.randint(0, 8 * n - 1), rng.randint(0, 8 * n - 1)]) for n in res)
            w.append(dict(op="cast", x=x, y=y, res=0))
    return w


def cmp(a, exp, got):
    if "threw" in got:
        return f"{a['op']} threw: {got['threw']}"
    if "r" not in got or "r" not in exp:
        return f"{a} {exp} {got}"
    r, e = got["r"], exp["r"]
    if a["op"] not in ("project", "cast"):
        return None if r == e else f"expected {e}, got {r}"
    fx, fy = e["fx"][0] / e["fx"][1], e["fy"][0] / e["fy"][1]
    cx, cy = e["cx"] / 2, e["cy"] / 2
    free = e["lens"] == "none"
    if not free:
        # a lens model stays invertible only in the middle of its range
        far = math.hypot(max(cx, e["w"] - cx) / fx, max(cy, e["h"] - cy) / fy)
        if far > .65:
            if a["op"] == "cast":
                return None
            r["in"] = True
    if a["op"] == "project":
        m = e["m"]
        if e["lens"] == "owen":
            x, y = m[0] / m[1] + m[2] / (8 * 16 * 64 * 64), m[3] / m[4] + m[5] / (8 * 16 * 64 * 64)
        else:
            x, y = m[0] / m[1] + m[2] / (8 * 64 * 64 * 16), m[3] / m[4] + m[5] / (8 * 64 * 64 * 16)
        want = (fx * x + cx, fy * y + cy)
        tol = 1e-4 + 3e-6 * max(fx, fy)
        if not all(abs(p - q) <= tol for p, q in zip(want, r["p"])) or r["h"] != r["p"]:
            return f"projected to {r['p']} ({r['h']} by the handle), expected {want}"
        if not r["behind"]:
            return "a point behind the camera projects"
        if (r["tried"] is not None) != r["in"] and (free or far <= .65) or (r["tried"] is not None and r["tried"] != r["p"]):
            return f"try_project_point {r['tried']}, in the field of view {r['in']}, project_point {r['p']}"
        inside = .01 < want[0] < e["w"] - .01 and .01 < want[1] < e["h"] - .01
        outside = not (-.01 < want[0] < e["w"] + .01 and -.01 < want[1] < e["h"] + .01)
        if inside and not r["in"]:
            return f"shows at {want}, but is not in the field of view"
        if outside and free and r["in"]:
            return f"shows at {want} outside the sensor, but is in the field of view"
        return None
    want = (a["x"] / 8, a["y"] / 8)
    tol = 1e-4 + 3e-6 * max(fx, fy) if free else .03
    if not all(q is not None and abs(p - q) <= tol for b in r["back"] for p, q in zip(want, b)):
        return f"the ray of {want} projects to {r['back']}"
    if abs(sum(x * x for x in r["d"]) - 1) > 1e-5 or any(r["o"]):
        return f"ray {r['d']} from {r['o']}"
    if (r["d"][2] < 0) != e["flip"]:
        return f"ray {r['d']} points backwards"
    if free:
        d = ((want[0] - cx) / fx, (want[1] - cy) / fy, 1)
        n = math.sqrt(sum(x * x for x in d))
        s = -1 if e["flip"] else 1
        d = (d[0] / n, s * d[1] / n, s * d[2] / n)
        if not all(abs(p - q) <= 1e-5 for p, q in zip(d, r["d"])):
            return f"ray {r['d']}, expected {d}"
    if want[0] > .1 and want[1] > .1 and not r["in"]:
        return f"the ray of {want} is not in the field of view"
    return None


def run(ctx):
    exe = vf.build(ctx, "camera", libs="all", opt="-O1")
    walks = [draw(ctx.rng, 60) for _ in range(4000 if ctx.thorough else 400)]
    walks = vf.guided(ctx, "Camera_G", "Camera_G.cfg", walks, jobs=6)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="projection", cmp=cmp)
