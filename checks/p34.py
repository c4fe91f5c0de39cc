"""P34: what matter leaves of light that crosses it (spec/Transmission.tla)."""
import math
import vf

META = dict(
    technique="TLA+ spec Transmission: crossings of bodies along a line, the medium in force and the optical depth in integers; TLC checks that ways compose and are "
              "reversible; drawn layouts (nested, overlapping, sheets, hulls, coloured and opaque surfaces, lamps, movers) replayed into huira's frozen views",
    note="Constant media; opacity 0 or 1; float32 tolerance 1e-3 of the depth; a primitive occurs once.")


def body(rng, lo, hi):
    kind = "sheet" if lo == hi else rng.choice(["box", "box", "box", "ball", "ball", "lamp"])
    b = dict(kind=kind, lo=lo, hi=hi, y=0, z=0, r=0, mv=rng.choice([0, 0, 0, 0, 2, -2, 4]), open=rng.random() < .35,
             pass_=rng.choice([[0, 0, 0], [0, 0, 0], [1, 1, 1], [0, 1, 2], [-1, 0, 0], [0, -1, 1], [-1, -1, -1]]), ext=[], abs=[0, 0, 0])
    if b["open"] and rng.random() < .5:
        b["pass_"] = [-1, -1, -1]
    b["pass"] = b.pop("pass_")
    if kind in ("box", "ball") and rng.random() < .75:
        b["ext"] = rng.choice([[1, 1, 1], [2, 0, 1], [0, 3, 1], [5, 2, 0], [0, 0, 0], [8, 8, 8]])
        b["abs"] = [rng.randint(0, v) for v in b["ext"]]
    if kind == "ball":
        h = (hi - lo) // 2
        b["y"], b["r"] = rng.choice([(0, h)] + [(o * h // a, c * h // a) for a, o, c in ((3, 4, 5), (4, 3, 5), (12, 5, 13)) if h % a == 0])
        b["y"] *= rng.choice([-1, 1])
    return b


def faces(b, q):
    return [] if b["kind"] == "lamp" else sorted({b["lo"] + b["mv"] * q, b["hi"] + b["mv"] * q})


def layout(rng):
    while True:
        bs = []
        style = rng.random()
        n = rng.randint(1, 7)
        if style < .35:
            lo, hi = -60, 60
            for _ in range(n):
                lo, hi = lo + 2 * rng.randint(1, 5), hi - 2 * rng.randint(1, 5)
                if hi - lo >= 4:
                    bs.append((lo, hi))
        else:
            for _ in range(n):
                lo = 2 * rng.randint(-28, 24)
                bs.append((lo, lo if rng.random() < .15 else lo + 4 * rng.choice([1, 2, 3, 6, 6, 12])))
        rng.shuffle(bs)
        bs = [body(rng, *b) for b in bs]
        # what is behind a sheet within a medium is left open
        sheets = [b["lo"] + b["mv"] * q for b in bs for q in range(5) if b["kind"] == "sheet"]
        if any(b["kind"] in ("box", "ball") and min(faces(b, 0)[0], faces(b, 4)[0]) <= x <= max(faces(b, 0)[1], faces(b, 4)[1]) for b in bs for x in sheets):
            continue
        if all(len(f) == len(set(f)) for f in ([x for b in bs for x in faces(b, q)] for q in range(5))):
            return bs


def draw(rng, m):
    w = []
    while len(w) < m:
        bs = layout(rng)
        w += [dict(op="put", b=b) for b in bs]
        n = rng.choice([2, 2, 3]) if any(b["mv"] for b in bs) else rng.choice([1, 2])
        w.append(dict(op="freeze", n=n, geo=rng.random() < .5))
        for _ in range(rng.randint(6, 14)):
            q = rng.randint(0, 4) if n > 1 else 2
            x = 2 * rng.randint(-33, 33) + 1
            inside = [i + 1 for i, b in enumerate(bs) if b["kind"] in ("box", "ball") and b["lo"] + b["mv"] * q < x < b["hi"] + b["mv"] * q]
            inside.sort(key=lambda i: bs[i - 1]["lo"] + bs[i - 1]["mv"] * q)
            true = True
            if rng.random() < .15 and not any(b["kind"] == "sheet" for b in bs):
                inside, true = rng.sample([i + 1 for i, b in enumerate(bs) if b["kind"] != "sheet"], rng.randint(0, min(3, sum(b["kind"] != "sheet" for b in bs)))), False
            d = rng.choice([-1, 1])
            w.append(dict(op="ask", x=x, y=0, z=0, dir=d, len=2 * rng.randint(1, 33) if rng.random() < .8 else 2 * (40 + rng.randint(0, 20)), q=q, true=true, res=0,
                          **{"in": inside}))
        break
    return w


def cmp(a, exp, got):
    if a["op"] != "ask":
        return None
    for k, (e, g) in enumerate(zip(a["res"], got["left"])):
        if isinstance(g, str):
            return f"{g} is left of colour {k + 1}"
        v = 2.0 ** -e[0] * math.exp(-e[1] / 80) if e else 0.0
        if abs(g - v) > 1e-3 * v + 1e-7:
            return f"{g:.6g} of colour {k + 1} is left, expected {v:.6g}"
    return None


def run(ctx):
    exe = vf.build(ctx, "transmission", libs="all", san=False, opt="-O1")
    n = 12000 if ctx.thorough else 2000
    walks = vf.guided(ctx, "Transmission_G", "Transmission_G.cfg", [draw(ctx.rng, 10) for _ in range(n)], jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="light through matter", cmp=cmp)
