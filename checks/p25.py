"""P25: view volumes and clipping (spec/ViewClip.tla)."""
import math

import vf

META = dict(
    technique="TLA+ spec ViewClip gives, in exact integer arithmetic, which points, which part of a triangle and which parts of an arc lie "
              "inside a view volume; evaluated by TLC on drawn volumes and shapes and compared with Frustum and TrajectoryArc",
    note="Planes, corners and samples have integer coordinates; degenerate, touching, far and nearly straight cases are drawn on purpose. "
         "Parts thinner than rounding (1e-3 of a triangle's area, 1e-6 of a direction) are not decided.")


def vec(rng, m):
    while True:
        v = [rng.randint(-m, m) for _ in range(3)]
        if any(v):
            return v


def volume(rng):
    r = rng.random()
    if r < .35:      # a camera: boresight and four sides
        a, b, c, d = (rng.randint(1, 4) for _ in range(4))
        k = rng.randint(1, 4)
        ps = [[0, 0, 1], [k, 0, a], [-k, 0, b], [0, k, c], [0, -k, d]]
        if rng.random() < .3:
            ps = [[p[0], -p[1], -p[2]] for p in ps]
        return ps
    return [vec(rng, 3) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))]


def triangle(rng, ps):
    t = [vec(rng, rng.choice([2, 4, 6])) for _ in range(3)]
    r = rng.random()
    if r < .1:
        t[1] = t[0]
    elif r < .2 and ps:     # a corner or an edge on a plane
        n = rng.choice(ps)
        m = vec(rng, 2)
        t[0] = [n[1] * m[2] - n[2] * m[1], n[2] * m[0] - n[0] * m[2], n[0] * m[1] - n[1] * m[0]]
        if rng.random() < .5:
            t[1] = [2 * x for x in t[0]]
    return t


def arc(rng):
    n = rng.randint(1, 5)
    if rng.random() < .6:
        return [vec(rng, 6) for _ in range(n)], 1
    base = 1000 if n == 5 else rng.choice([1000, 2000]) if n == 4 else rng.choice([3000, 20000, 60000])
    b = vec(rng, 1) if rng.random() < .5 else [0, 0, 1]
    step = vec(rng, rng.choice([1, 3, 40]))
    off = vec(rng, rng.choice([2, 20, 60]))
    wob = rng.choice([0, 0, 1, 5])
    return [[b[i] * base + off[i] + step[i] * k + (rng.randint(-wob, wob)) for i in range(3)] for k in range(n)], base


def draw(rng, n):
    w = []
    for _ in range(n):
        ps = volume(rng)
        w.append(dict(op="volume", planes=ps))
        for _ in range(rng.randint(4, 12)):
            k = rng.random()
            if k < .35:
                p = vec(rng, rng.choice([1, 3, 9])) if rng.random() < .95 else [0, 0, 0]
                w.append(dict(op="point", p=p))
            elif k < .7:
                w.append(dict(op="triangle", tri=triangle(rng, ps)))
            else:
                a, unit = arc(rng)
                if unit > 1 and rng.random() < .6:   # aim a plane at it
                    mid = a[len(a) // 2]
                    q = [n for n in ([0, 1, 0], [1, 0, 0], [0, -1, 0], [-1, 0, 0], [1, 1, 0], [1, -1, 0], [0, 1, -1], [-1, 0, 1])
                         if abs(sum(x * y for x, y in zip(n, mid))) <= 400]
                    if q:
                        w.append(dict(op="volume", planes=rng.sample(q, min(len(q), rng.randint(1, 2)))))
                w.append(dict(op="arc", arc=a, unit=unit))
    return w


def area(p):
    """Signed area in the (u, v) plane, the whole triangle having area 1."""
    return sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p)))


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 1e-12:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def in_tri(p, t, tol):
    a = area(t)
    for i in range(3):
        if area([p, t[i], t[(i + 1) % 3]]) < -tol:
            return False
    return a > 0


def cmp_triangle(e, g, tri):
    if not isinstance(g, dict) or "tris" not in g:
        return f"got {str(g)[:300]}"
    corners = [tuple(x / sum(w) for x in w)[:2] for w in map(tuple, e["corners"])]
    tris = [[tuple(v[:2]) for v in t] for t in g["tris"]]
    if not corners:
        return None if not tris else f"wholly outside, but {len(tris)} triangles are left"
    if e["whole"]:
        return None if g["same"] else f"wholly inside, but it became {g['tris']}"
    if e["flat"]:
        e = dict(e, inside=[])
    h = hull(corners)
    want = area(h) if len(h) > 2 else 0
    got = sum(area(t) for t in tris)
    if any(area(t) < -1e-4 for t in tris):
        return f"a part is turned over: {tris}"
    if not e["flat"] and abs(want - got) > 1e-3:
        return f"kept part of the area: expected {want} got {got}"
    if len({tuple(round(x, 9) for x in c) for c in corners}) > 2 and want > 1e-3 and not e["flat"]:
        for c in h:
            if not any(math.dist(c, v) < 2e-3 for t in tris for v in t):
                return f"corner {c} of the kept part is missing in {tris}"
    for w in e["inside"]:
        p = (w[0] / 12, w[1] / 12)
        k = sum(in_tri(p, t, 1e-4) for t in tris)
        if k < 1:
            return f"point {w} is inside but in no part"
        if k > 1 and sum(in_tri(p, t, -1e-4) for t in tris) > 1:
            return f"point {w} is covered twice"
    for w in e["outside"]:
        if any(in_tri((w[0] / 12, w[1] / 12), t, -1e-3) for t in tris):
            return f"point {w} is outside but kept"
    return None


def cmp_arc(e, g, a, planes):
    if not isinstance(g, dict):
        return f"got {g}"
    unit, scale, vals, iv = a["unit"], e["scale"], e["values"], g["intervals"]
    size = max(max(map(abs, p)) for p in a["arc"]) / unit
    tol = 2e-6 * size * 4
    last = -1
    for lo, hi, vlo, vhi in iv:
        if not (0 <= lo < hi <= 1 and lo > last):
            return f"intervals are not in order: {iv}"
        last = hi
        for t, v in ((lo, vlo), (hi, vhi)):
            if 0 < t < 1 and abs(v) > 1e-4 * size and planes:
                return f"the interval ends at {t}, off every plane ({v})"
    for k in range(49):
        t = k / 48
        for x, y in zip(vals[k], g["values"][k]):
            if abs(x / scale / unit - y) > 1e-5 * size * 3:
                return f"the arc at {t}: expected {x / scale / unit} got {y}"
        m = min(vals[k], default=1)
        v = m / scale / unit
        if planes and abs(v) < tol:
            continue
        shown = any(lo - 1e-6 <= t <= hi + 1e-6 for lo, hi, *_ in iv)
        if shown != (m > 0):
            return f"at {t} the arc is {'inside' if m > 0 else 'outside'} ({v}), reported visible in {[(x[0], x[1]) for x in iv]}"
    return None


def make_cmp():
    planes = [None]

    def cmp(a, exp, got):
        if a["op"] == "triangle":
            return cmp_triangle(exp["r"], got["r"], a["tri"])
        if a["op"] == "arc":
            return cmp_arc(exp["r"], got["r"], a, True)
        return None if exp == got else f"expected {exp} got {got}"
    return cmp


def run(ctx):
    exe = vf.build(ctx, "view_clip", libs="all", san=True, opt="-O1")
    cmds = [draw(ctx.rng, 12) for _ in range(2500 if ctx.thorough else 220)]
    walks = vf.guided(ctx, "ViewClip_G", "ViewClip_G.cfg", cmds)
    for w, c in zip(walks, cmds):        # the scale of an arc is the harness's business
        for (a, _), b in zip(w, c):
            if "unit" in b:
                a["unit"] = b["unit"]
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], cmp=make_cmp(), what="view volumes")
