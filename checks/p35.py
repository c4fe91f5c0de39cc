"""P35: how bright lamps and unresolved bodies are (spec/Brightness.tla)."""
import math
import threading
import vf

META = dict(
    technique="TLA+ spec Brightness: brightness of lamps and unresolved bodies as exact fractions of their spectra (power, size, distance, lighting geometry), refusals; TLC checks "
              "independence of the origin, lamp = point of its power, angle laws; drawn scenes replayed into huira's lights, unresolved objects and views, in RGB and Visible8",
    note="The function of the phase angle (Lambert sphere, IAU H-G) and Planck's law are evaluated outside TLC; sampling of lamps is judged by 512 samples; float32 tolerance 2e-3.")


def spectrum(rng, bad=False, tot=None):
    tot = rng.random() < .5 if tot is None else tot
    v = [rng.choice([0, 1, 4, 10, 40, 399]) for _ in range(1 if tot else rng.choice([1, 2, 3, 8]))]
    if bad:
        v[rng.randrange(min(3, len(v)))] = -rng.choice([1, 4, 90])
    return dict(tot=tot, v=v)


def place(rng, taken, m=18):
    while True:
        p = [rng.randint(-m, m) for _ in range(3)] if rng.random() < .7 else [0, 0, rng.randint(-m, m)]
        if tuple(p) not in taken:
            taken.add(tuple(p))
            return p


def draw(rng, m):
    w = []
    while len(w) < m:
        w = []
        u = rng.choice([1, 1, 0.02, 1000, 149597870700.0 / 4])
        taken, lamps, things = set(), [], []
        w.append(dict(op="begin", u=repr(u), fine=rng.random() < .4))
        for _ in range(rng.randint(1, 3)):
            how = rng.choice(["power", "power", "rad", "heat"])
            s = spectrum(rng, how == "power" and rng.random() < .15, None if how == "power" else False)
            if how == "heat":
                s["v"] = [rng.choice([1500, 3000, 5778, 9000])]
            elif how == "power" and not s["tot"]:
                s["v"] = [abs(x) for x in s["v"]]
            l = dict(r=rng.choice([1, 1, 2, 3, 6]), how=how, s=s, at=place(rng, taken))
            w.append(dict(op="lamp", l=l, ok=0))
            if not (how == "power" and s["tot"] and s["v"][0] < 0):
                lamps.append(l)
        for _ in range(rng.randint(0, 4)):
            k = rng.choice(["fixed", "emit", "emit", "ball", "ball", "rock"])
            if k == "rock" and u < 1e6:
                continue
            bad = rng.random() < .12
            o = dict(kind=k, at=place(rng, taken), s=spectrum(rng, bad and k in ("fixed", "emit")), lamp=0, r=rng.choice([1, 2, 5, 10]), alb=rng.randint(0, 4), one=rng.random() < .5,
                     h=rng.choice([-267, 0, 34, 180]), g=rng.choice([0, 15, 40, 100]))
            if k in ("ball", "rock"):
                if not lamps:
                    continue
                o["lamp"] = rng.randint(1, len(lamps))
                if bad:
                    o.update(rng.choice([dict(lamp=0), dict(alb=5), dict(alb=-1)] + ([dict(r=0), dict(r=-3)] if k == "ball" else [])))
                else:
                    # a body on the surface of its lamp is neither inside nor outside
                    l = lamps[o["lamp"] - 1]
                    if sum((a - b) ** 2 for a, b in zip(l["at"], o["at"])) == l["r"] ** 2:
                        continue
            elif bad and all(x >= 0 for x in o["s"]["v"]):
                continue
            w.append(dict(op="thing", o=o, ok=0))
            if not bad:
                things.append(o)
        for _ in range(rng.randint(1, 3)):
            set_ = [i for i, o in enumerate(things) if o["kind"] in ("fixed", "emit")]
            if set_ and rng.random() < .5:
                w.append(dict(op="set", i=rng.choice(set_) + 1, s=spectrum(rng, rng.random() < .4), ok=0))
            eye = place(rng, set(taken))
            w.append(dict(op="see", eye=eye, spin=rng.randint(0, 3), geo=rng.random() < .3, res=0))
        for _ in range(rng.randint(1, 3) if lamps else 0):
            i = rng.randrange(len(lamps))
            l = lamps[i]
            while True:
                far = rng.choice([4, 4, 20, 20, 300, 12000])
                p = [a + rng.randint(-far, far) for a in l["at"]] if rng.random() < .8 else [l["at"][0], l["at"][1], l["at"][2] + rng.randint(-far, far)]
                d2 = sum((a - b) ** 2 for a, b in zip(l["at"], p))
                if d2 and d2 != l["r"] ** 2:
                    break
            w.append(dict(op="ask", i=i + 1, at=p, lamp=l["at"], r=l["r"], seed=rng.randint(1, 10 ** 6), res=0))
    return w


class State(threading.local):
    pass


state = State()
AU = 149597870700.0


def planck(t, lo, hi, n=400):
    h, c, k = 6.62607015e-34, 299792458.0, 1.380649e-23
    b = lambda x: 2 * h * c * c / x ** 5 / math.expm1(h * c / (x * k * t))
    return sum((b(lo + (hi - lo) * (i + .5) / n)) for i in range(n)) * (hi - lo) / n


heat = {}


def bands(s, how=None):
    if how == "heat":
        key = (s["v"][0], len(state.bins))
        if key not in heat:
            heat[key] = [planck(s["v"][0], *b) for b in state.bins]
        return heat[key]
    wide = [b[1] - b[0] for b in state.bins]
    if s["tot"]:
        return [s["v"][0] / 4 * x / sum(wide) for x in wide]
    return [s["v"][i % len(s["v"])] / 4 for i in range(len(wide))]


def value(e, how=None):
    return [x * e["num"] / (e["den"][0] * e["den"][1]) * math.pi ** e["pi"] * state.u ** e["u"] for x in bands(e["s"], how)]


def angle(e):
    c = e["dot"] / math.sqrt(e["aa"] * e["bb"])
    return math.acos(max(-1.0, min(1.0, c)))


def differs(what, exp, got, tol=2e-3, floor=None):
    top = max(exp)
    for k, (v, g) in enumerate(zip(exp, got)):
        if not isinstance(g, (int, float)) or abs(g - v) > tol * v + (1e-6 * top if floor is None else floor[k]):
            return f"{what} is {g} in band {k}, expected {v:.7g}"
    return None


def cmp(a, exp, got):
    op = a["op"]
    if op == "begin":
        state.u, state.bins, state.star, state.lamps, state.things = float(a["u"]), got["bins"], got["star"], [], []
        return None
    if op in ("lamp", "thing", "set"):
        if a["ok"] != got["ok"]:
            return "refused" if a["ok"] else "accepted"
        if a["ok"] and op == "lamp":
            state.lamps.append(a["l"])
        if a["ok"] and op == "thing":
            state.things.append(a["o"])
        return None
    if op == "see":
        for o, e, g in zip(state.things, a["res"], got["res"]):
            what = f"{o['kind']} at {o['at']}"
            if e["law"] == "hg":
                t, G = math.tan(angle(e) / 2), o["g"] / 100
                p = (1 - G) * math.exp(-3.33 * t ** .63) + G * math.exp(-1.87 * t ** 1.22)
                f = 10 ** (-.04 * o["h"]) / (e["aa"] * e["bb"] * (state.u / AU) ** 4) * o["alb"] / 4
                full, v = [x * f for x in state.star], [x * f * p for x in state.star]
                bad = differs(what, v, g, floor=[1e-5 * x for x in full])
            else:
                v = value(e, state.lamps[o["lamp"] - 1]["how"] if o["lamp"] else None)
                floor = None
                if e["law"] == "lambert":
                    floor, t = [1e-5 * x + 1e-37 for x in v], angle(e)
                    v = [x * (math.sin(t) + (math.pi - t) * math.cos(t)) / math.pi for x in v]
                bad = differs(what, v, g, floor=floor)
            if bad:
                return bad
        return None
    if any(got[k] is None for k in ("ahead", "behind", "none")) or (not got["none"] and any(got[k] is None for k in ("least", "most", "unit", "widest", "mean", "drift", "off", "over", "past", "probe"))):
        return "what the lamp samples is not finite"
    r, how = a["res"], state.lamps[a["i"] - 1]["how"]
    bad = differs("what the lamp brings", value(r["lit"], how), got["lit"]) or differs("its surface", value(r["face"], how), got["face"])
    if bad:
        return bad
    if r["d2"] < r["r"] ** 2:
        return None if got["none"] == got["n"] and got["ahead"] == 0 and got["behind"] == 0 else "a place inside the lamp is lit"
    if got["none"]:
        return f"{got['none']} of {got['n']} samples of a lamp in sight are missing"
    s2 = r["r"] ** 2 / r["d2"]
    narrow = s2 / (1 + math.sqrt(1 - s2))
    pdf = 1 / (2 * math.pi * narrow)
    slack = 2e-3 + 4e-7 / math.sqrt(s2)
    for k in ("least", "most"):
        if abs(got[k] - pdf) > 2e-3 * pdf:
            return f"samples have the density {got[k]:.6g}, expected {pdf:.6g}"
    if got["unit"] > 1e-5 or not got["same"]:
        return "a sample has no unit direction" if got["unit"] > 1e-5 else "a sample has another radiance than the lamp"
    if got["widest"] > 1 + 4 * slack:
        return f"a sample passes by the lamp ({got['widest']:.5g} times its width)"
    if abs(got["mean"] - .5) > .09 or got["drift"] > .16 or got["widest"] < .95:
        return f"samples are not spread evenly over the lamp: mean {got['mean']:.3f}, drift {got['drift']:.3f}, widest {got['widest']:.3f}"
    if got["off"] > 2e-3 * math.sqrt(s2) + 2e-6:
        return f"a sample ends {got['off']:.3g} of the distance off the surface of the lamp"
    if got["over"] > 2e-2 * math.sqrt(s2) + 2e-6:
        return "a sample ends on the far side of the lamp"
    if got["behind"] != 0 or got["past"] != 0:
        return "the lamp has a density in directions that miss it"
    if s2 > 1e-4 and (abs(got["ahead"] - pdf) > 2e-3 * pdf or got["probe"] > 2e-3):
        return f"the density towards the lamp is {got['ahead']:.6g}, expected {pdf:.6g}"
    return None


def run(ctx):
    exe = vf.build(ctx, "brightness", libs="all", san=False, opt="-O1")
    n = 10000 if ctx.thorough else 1600
    walks = vf.guided(ctx, "Brightness_G", "Brightness_G.cfg", [draw(ctx.rng, 3) for _ in range(n)], jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="brightness", cmp=cmp)
