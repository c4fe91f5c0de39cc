"""P27: spectra reduced to wavelength bins (spec/SpectralBins.tla)."""
import math
from fractions import Fraction as F

import vf

META = dict(
    technique="TLA+ spec SpectralBins gives, in exact fractions, what sampled curves, totals, bands, colours and element-wise arithmetic "
              "are in a layout of wavelength bins; TLC evaluates drawn cases and checks refinement and additivity on them; compared with "
              "SpectralBins and SpectralQuantity",
    note="Eleven layouts (uniform, pairs, edges, out of order, with gaps); sample positions aligned with, between and beyond the bin edges. "
         "A bin only partly covered by samples is only held to lie between ignoring and extending the outermost samples.")
BAD, INF = -1999999999, -1999999998
LAYOUTS = ["rgb", "visible8", "swir8", "edges", "one", "gaps", "teal", "fine", "down", "far", "rim"]
SIZE = dict(rgb=3, visible8=8, swir8=8, edges=3, one=1, gaps=3, teal=2, fine=16, down=2, far=2, rim=1)
RANGE = dict(rgb=(380, 750), visible8=(380, 750), swir8=(900, 2500), edges=(400, 701), one=(500, 600), gaps=(400, 1000), teal=(400, 590),
             fine=(300, 1100), down=(200, 800), far=(1000, 2000), rim=(720, 1000))
EDGES = [200, 380, 400, 450, 500, 590, 600, 640, 700, 701, 720, 750, 800, 900, 1000, 1100, 1500, 2000, 2500]


def samples(rng, name):
    lo, hi = RANGE[name]
    r = rng.random()
    if r < .25:
        k = rng.randint(1, 3)
    elif r < .8:
        k = rng.randint(2, 9)
    else:
        k = rng.randint(10, 60)
    a, b = 4 * lo, 4 * hi
    way = rng.random()
    if way < .3:      # over everything
        w = {a - rng.randint(0, 40), b + rng.randint(0, 40)}
    elif way < .4:    # a single gap spans the bins
        w = {a - rng.randint(0, 400), b + rng.randint(0, 400), a - rng.randint(401, 500)}
        k = len(w)
    else:
        w = set()
    while len(w) < k:
        q = rng.random()
        w.add(4 * rng.choice(EDGES) + rng.choice([0, 0, 0, -1, 1, 4, -4]) if q < .4 else rng.randint(a - 300, b + 300))
    w = sorted(x for x in w if x > 0) or [a]
    v = [rng.choice([0, rng.randint(0, 20), rng.randint(-20, 20), 10]) for _ in w]
    if rng.random() < .04:
        if rng.random() < .4:
            v = v[:-1]
        elif rng.random() < .5 and len(w) > 1:
            i = rng.randrange(1, len(w))
            w[i] = rng.choice([w[i - 1], w[i - 1] - 1, BAD])
        else:
            w, v = [], []
    return dict(op="data", w=w, v=v)


def numbers(rng, n, special=0.):
    return [rng.choice([BAD, INF]) if rng.random() < special else rng.choice([0, 1, 8, 9, -1, rng.randint(0, 8), rng.randint(-30, 30), rng.randint(0, 60)])
            for _ in range(n)]


def draw(rng, m):
    w = []
    for _ in range(m):
        name = rng.choice(LAYOUTS)
        n = SIZE[name]
        w.append(dict(op="layout", name=name))
        if rng.random() < .3:
            w.append(dict(op="edges"))
        for _ in range(10):
            k = rng.random()
            if k < .4:
                w.append(samples(rng, name))
            elif k < .46:
                w.append(dict(op="total", t=rng.choice([0, 1, 7, 100, rng.randint(-1000, 1000)])))
            elif k < .56:
                a = numbers(rng, n, .04)
                if rng.random() < .4:
                    a = [rng.randint(0, 8) for _ in a]
                    if rng.random() < .5:
                        a[rng.randrange(n)] = rng.choice([9, -1, 8, 0, BAD, INF])
                w.append(dict(op="summary", a=a))
            elif k < .68:
                x = sorted(4 * rng.choice(EDGES) if rng.random() < .4 else rng.randint(600, 10400) for _ in range(2))
                w.append(dict(op="band", a=numbers(rng, n), lo=x[0], hi=x[1]))
            elif k < .82:
                shape = rng.choice(["aa", "aa", "as", "as", "sa", "neg", "pos", "sqrt"])
                a = numbers(rng, n)
                w.append(dict(op="arith", f=rng.choice("+-*/"), shape=shape, eq=shape in ("aa", "as") and rng.random() < .5,
                              a=[abs(x) for x in a] if shape == "sqrt" else a, b=numbers(rng, n)))
            elif k < .86:
                a = numbers(rng, n)
                b = list(a)
                if rng.random() < .6:
                    b[rng.randrange(n)] += rng.choice([0, 1])
                w.append(dict(op="same", a=a, b=b))
            elif k < .9:
                w.append(dict(op="list", a=numbers(rng, rng.randint(1, 4))))
            elif k < .96:
                w.append(dict(op="colour", c=[rng.randint(0, 60) for _ in range(3)]))
            elif k < .99:
                w.append(dict(op="scaled", a=numbers(rng, n), **{"from": rng.choice([-3, 0, 3, 6, 9]), "to": rng.choice([-3, 0, 3, 6, 9])}))
            else:
                w.append(dict(op="exists", i=rng.randint(1, 9)))
    return w


def near(want, got, size, tol=2e-6):
    return not isinstance(got, str) and abs(float(want) - got) <= tol * (float(size) + 1e-9)


def frac(f):
    return F(f["n"], f["d"]) if f["d"] else None


def cmp(a, exp, got):
    op, e, g = a["op"], exp.get("r"), got.get("r")
    bad = f"expected {e} got {g}"
    if isinstance(g, dict) and "error" in g:
        return None if op == "data" and e == [] else f"error {g['error']}, expected {e}"
    if op in ("layout", "same", "exists"):
        return None if e == g else bad
    if op == "data":
        if e == []:
            return f"accepted {a['w']}, {a['v']}"
        top = max(map(abs, a["v"]))
        for i, (x, y) in enumerate(zip(e, g)):
            w = x["width"]
            s = sum((F(t["n"], t["d"]) for t in x["terms"]), F(0)) / w
            size = sum((abs(F(t["n"], t["d"])) for t in x["terms"]), F(0)) / w + top
            ends = [F(x["left"], w), F(x["right"], w)]
            lo, hi = s + sum(min(0, v) for v in ends), s + sum(max(0, v) for v in ends)
            if not x["touched"]:
                lo = hi = F(0)
            if isinstance(y, str) or not float(lo) - 3e-6 * float(size) <= y <= float(hi) + 3e-6 * float(size):
                return f"bin {i}: expected {float(lo)}{'' if lo == hi else ' to ' + str(float(hi))} got {y}"
            if not x["touched"] and y != 0:
                return f"bin {i} is nowhere near the samples but is {y}"
        return None
    if op == "total":
        t = a["t"]
        return None if all(near(frac(x), y, abs(t)) for x, y in zip(e, g["bins"])) and near(t, g["total"], abs(t), 1e-5) else bad
    if op == "summary":
        if (g["valid"], g["ratio"]) != (e["valid"], e["ratio"]):
            return bad
        s = e["sums"]
        if s:
            size = sum(map(abs, a["a"])) + 1
            h = g["sums"]
            ok = near(s[0], h[0], size) and h[1] == s[1] and h[2] == s[2] and near(s[3], h[3], size * 6400) and near(math.sqrt(s[4]), h[4], size)
            return None if ok else bad
        return None
    if op == "band":
        return None if near(e, g, sum(map(abs, a["a"])) * 6400, 3e-6) else bad
    if op in ("arith", "colour"):
        for x, y in zip(e, g):
            v = frac(x)
            if v is None:
                want = "nan" if x["n"] == 0 else None
                if y not in (["nan"] if want else ["inf", "-inf"]):
                    return bad
                continue
            if op == "arith" and a["shape"] == "sqrt":
                v = math.sqrt(v)
            if not (near(v, y, abs(v), 3e-6) if op == "arith" else near(v, y, max(a["c"]), 1e-5)):
                return bad
        return None if len(e) == len(g) else bad
    if op == "list":
        return None if [float(x) for x in e] == g else bad
    if op == "scaled":
        for x, y, b in zip(a["a"], g["value"], g["base"]):
            v, s = x * 10.0 ** e["up"], x * 10.0 ** e["base"]
            if not near(v, y, abs(v)) or not near(s, b, abs(s)):
                return bad
        t = g["text"]
        if not t.startswith("SpectralQuantity[W](") or len(t[20:-1].split(",")) != len(a["a"]):
            return f"written {t}"
        for x, y in zip(a["a"], t[20:-1].split(",")):
            s = x * 10.0 ** e["base"]
            if not near(s, float(y), abs(s) + 1):
                return f"written {t}"
        return None
    if op == "edges":
        for b, c, y in zip(e["bins"], e["centre2"], g):
            if not (near(b[0], y[0], b[0], 1e-12) and near(b[1], y[1], b[1], 1e-12) and near(c, y[2], c, 1e-12)
                    and near(6.62607015e-34 * 299792458 * 1e25, y[3] * 1e25, 2)):
                return bad
        return None
    return bad


def run(ctx):
    exe = vf.build(ctx, "spectral_bins", libs="core", san=True, opt="-O1")
    cmds = [draw(ctx.rng, 10) for _ in range(2400 if ctx.thorough else 240)]
    walks = vf.guided(ctx, "SpectralBins_G", "SpectralBins_G.cfg", cmds, jobs=8)
    vf.replay(ctx, exe, walks, cmp=cmp, what="spectral bins")
