"""P32: what rays meet (spec/Surfaces.tla)."""
import math
import vf

META = dict(
    technique="TLA+ spec Surfaces: ray crossings with turned, unevenly scaled and mirrored triangles and ellipsoids in exact integer arithmetic, incidence checked by TLC "
              "on every crossing; drawn meshes (degenerate and unsound ones too), placements, frozen views and rays replayed into huira",
    note="Rays exactly through an edge may hit or miss; float32 tolerance 2e-4; placements do not change during the exposure.")


def vec(rng, k):
    return [rng.randint(-k, k) for _ in range(3)]


def vertex(rng):
    n = rng.random()
    return dict(at=vec(rng, 3), n=[0, 0, 0] if n < .15 else vec(rng, 2), uv=[rng.randint(-2, 5), rng.randint(-2, 5)], hue=rng.randint(0, 3))


def mesh(rng):
    n = rng.choice([0, 1, 3, 4, 5, 8])
    k = rng.choice([0, 1, 2, 4, 6])
    idx = [rng.randrange(n) for _ in range(3 * k)] if n else []
    f = rng.random()
    if f < .08 and idx:
        idx[rng.randrange(len(idx))] = n + rng.choice([0, 0, 1, 100000])
    elif f < .18:
        idx += [rng.randrange(n) for _ in range(rng.randint(1, 2))] if n else []
    f = rng.random()
    tan = []
    if f < .4 and n:
        tan = [[0, 0, 0] if rng.random() < .2 else vec(rng, 2) for _ in range(n if f < .34 else n + rng.choice([-1, 1]))]
    return dict(op="mesh", v=[vertex(rng) for _ in range(n)], idx=idx, tan=tan, plain=rng.random() < .5, res=0)


def where(rng):
    s = rng.choice([1, 1, 2])
    sc = [s, s, s] if rng.random() < .4 else [rng.choice([1, 1, 2, 2, -1]) for _ in range(3)]
    return dict(s=sc, r=[rng.randrange(4) for _ in range(3)], p=vec(rng, 5))


def aim(rng, targets):
    """a ray, mostly towards something"""
    o, d = vec(rng, 9), vec(rng, 3)
    if targets and rng.random() < .92:
        to = [a + b for a, b in zip(rng.choice(targets), vec(rng, 2))]
        k = rng.choice([0, 1, 2, 3, 4])
        o = [a - k * b for a, b in zip(to, d)]
    if d == [0, 0, 0]:
        d = [0, 0, 1]
    return dict(op="ray", o=o, d=d, time=rng.choice([0, 2, 4]), res=0)


def draw(rng, m):
    w, targets, made, put = [], [], 0, 0
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .3:
            w.append(dict(op="round", radii=[rng.choice([1, 2, 3])] * 3 if rng.random() < .3 else [rng.randint(1, 3) for _ in range(3)]))
            made += 1
        else:
            w.append(mesh(rng))
            made += 1
    for _ in range(rng.randint(1, 5)):
        a = where(rng)
        w.append(dict(op="place", g=rng.randint(1, made), **a))
        targets.append(a["p"])
        put += 1
    w.append(dict(op="look", n=rng.choice([1, 1, 2])))
    while len(w) < m:
        k = rng.random()
        if k < .04:
            a = where(rng)
            w.append(dict(op="move", b=rng.randint(1, put), **a))
            targets.append(a["p"])
        elif k < .07:
            a = where(rng)
            w.append(dict(op="place", g=rng.randint(1, made), **a))
            targets.append(a["p"])
            put += 1
        elif k < .12:
            w.append(dict(op="look", n=rng.choice([1, 1, 2])))
        else:
            w.append(aim(rng, targets))
    return w


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def unit(a):
    n = math.sqrt(dot(a, a))
    return [x / n for x in a]


def off(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def candidates(res, o, d):
    """(t, sure, crossing), nearest first"""
    c = []
    for h in res:
        if h["kind"] == "flat":
            c.append((h["t"][0] / h["t"][1], h["sure"], h, None))
        else:
            disc = h["B"] ** 2 - h["A"] * h["C"]
            fuzzy = abs(disc) < 1e-4 * (h["B"] ** 2 + abs(h["A"] * h["C"]))
            if disc < 0 and not fuzzy:
                continue
            q = math.sqrt(max(disc, 0))
            for t in ((-h["B"] - q) / h["A"], (-h["B"] + q) / h["A"]):
                if t > -1e-4:
                    x = [a + t * b for a, b in zip(h["o"], h["d"])]
                    c.append((t, not fuzzy and t > 1e-4, dict(h, fuzzy=fuzzy), x))
    return sorted(c, key=lambda e: e[0])


def agrees(h, x, t, a, got):
    if x is not None and h["fuzzy"] and abs(got["t"] - t) < .05 * (1 + t):
        return None  # grazing
    at = [o + t * d for o, d in zip(a["o"], a["d"])]
    if not abs(got["t"] - t) <= 2e-4 * (1 + t):
        return "t"
    if off(got["at"], at) > 2e-3 * (1 if x is None else 2):
        return f"position {got['at']}, expected {at}"
    if x is None:
        if got["tri"] != h["tri"]:
            return f"triangle {got['tri']}, expected {h['tri']}"
        den = h["t"][1]
        if off(got["uv"], [v / den for v in h["uv"]]) > 1e-3:
            return f"texture position {got['uv']}, expected {[v / den for v in h['uv']]}"
        if off(got["hue"], [h["hue"] / den, 2 * h["hue"] / den, 1]) > 1e-3:
            return f"colour {got['hue']}, expected {h['hue'] / den}"
        geo, shade, either = unit(h["geo"]), unit(h["shade"]), h["either"]
        # where the interpolated normal nearly vanishes or lies in the surface its side is open
        weak = h["open"] or math.sqrt(dot(h["shade"], h["shade"])) < 1e-3 * den
        side = abs(dot(geo, shade)) < 1e-3
    else:
        u = [p / m ** 2 for p, m in zip(x, h["m"])]
        geo = unit([sum(u[k] * h[ax][i] for k, ax in enumerate("xyz")) for i in range(3)])
        if abs(dot(geo, unit(a["d"]))) < 1e-2:
            return None
        if dot(geo, a["d"]) > 0:
            geo = [-v for v in geo]
        shade, either, weak, side = geo, False, False, False
        p = unit([v / m * (1 if s > 0 else -1) for v, m, s in zip(x, h["m"], h["s"])])
        v = math.acos(max(-1, min(1, p[2]))) / math.pi
        uu = (math.atan2(p[1], p[0]) + math.pi) / (2 * math.pi)
        du = abs(got["uv"][0] - uu)
        if abs(got["uv"][1] - v) > 2e-3 or (math.hypot(p[0], p[1]) > .05 and min(du, 1 - du) > 5e-3):
            return f"texture position {got['uv']}, expected {[uu, v]}"
    if off(got["geo"], geo) > 3e-3:
        return f"normal {got['geo']}, expected {geo}"
    if not weak:
        ok = off(got["shade"], shade) <= 3e-3 or ((either or side) and off(got["shade"], [-v for v in shade]) <= 3e-3)
        if not ok:
            return f"shading normal {got['shade']}, expected {shade}"
        if x is None and dot(h["along"], h["along"]) > 0:
            al = unit(h["along"])
            al = [p - dot(al, shade) * q for p, q in zip(al, shade)]
            if math.sqrt(dot(al, al)) > .05 and off(got["tan"], unit(al)) > 2e-2:
                return f"tangent {got['tan']}, expected {unit(al)}"
    return None


def cmp(a, exp, got):
    if "odd" in got:
        return got["odd"]
    if a["op"] == "mesh":
        r = a["res"]
        if got["ok"] != r["ok"]:
            return "the mesh was " + ("accepted" if got["ok"] else "refused")
        if r["ok"] and any(got[k] != r[k] for k in ("triangles", "vertices", "tangents")):
            return f"the mesh has {got}, expected {r}"
        return None
    if a["op"] != "ray":
        return None
    if got["hit"]:
        for k in ("at", "geo", "shade", "tan", "bit", "uv", "hue", "wo"):
            if any(isinstance(v, str) for v in got[k]):
                return f"{k} is not finite"
        for k in ("geo", "shade", "tan", "bit"):
            if abs(dot(got[k], got[k]) - 1) > 1e-3:
                return f"{k} is not of unit length: {got[k]}"
        for p, q in (("shade", "tan"), ("shade", "bit"), ("tan", "bit")):
            if abs(dot(got[p], got[q])) > 2e-3:
                return f"{p} and {q} are not perpendicular"
        if dot(got["geo"], a["d"]) > 1e-3 or dot(got["shade"], got["geo"]) < -1e-4:
            return "a normal faces away"
        if off(got["wo"], [-v for v in a["d"]]) > 1e-5:
            return "the direction back is wrong"
    if any(h["kind"] == "wild" for h in a["res"]):
        return None
    c = candidates(a["res"], a["o"], a["d"])
    first = next((e[0] for e in c if e[1]), None)
    if not got["hit"]:
        return None if first is None else f"nothing is hit, expected a crossing at {first}"
    allowed = [e for e in c if first is None or e[0] <= first + 3e-4 * (1 + first)]
    bad = [agrees(h, x, t, a, got) for t, _, h, x in allowed]
    if not bad:
        return f"a crossing at {got['t']}, expected nothing"
    if None in bad:
        return None
    near = [b for b in bad if b != "t"]
    return near[0] if near else f"a crossing at {got['t']}, expected {[e[0] for e in allowed]}"


def run(ctx):
    exe = vf.build(ctx, "surfaces", libs="all", san=False, opt="-O1")
    n = 6000 if ctx.thorough else 700
    walks = vf.guided(ctx, "Surfaces_G", "Surfaces_G.cfg", [draw(ctx.rng, 40) for _ in range(n)], jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="rays", cmp=cmp)
