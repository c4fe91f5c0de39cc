"""P15: sensor read-out (spec/Sensor.tla)."""
import vf

META = dict(
    technique="TLA+ spec Sensor: photons through efficiency, well, amplifier and converter in integer arithmetic (an interval of eight sigma with noise), "
              "monotonicity and range checked by TLC in every reached setting; drawn histories of settings (refused ones too), buffers and read-outs "
              "of three- and eight-channel sensors replayed into huira",
    note="Noise is only bounded (eight standard deviations around its mean), its distribution is not tested.")
WRONG = dict(qe=["-1", "much", "nan", "inf"], fwc=["-1", "zero", "nan", "inf"], read=["-1", "nan", "inf"], dark=["-1", "nan", "inf"], bias=["-1", "nan", "inf", "-inf"],
             bits=["-1", "zero", "much"], gain=["-1", "zero", "nan", "inf"], unity=["nan", "inf", "-inf"], db=["nan", "inf", "-inf", "much", "-much"])
HUGE = 16777216


def value(rng, what, s, unity):
    n = 8 if s == 3 else 3
    if what == "qe":
        return [rng.randint(0, 4) for _ in range(n)]
    if what == "noise":
        return rng.random() < .6
    if what == "fwc":
        return rng.choice([1, 20, 1000, 20000, 100000, 10000000])
    if what == "read":
        return rng.choice([0, 0, 1, 10, 300])
    if what == "dark":
        return rng.choice([0, 0, 1, 50, 10000])
    if what == "bias":
        return rng.choice([0, 1, 10, 100, 5000])
    if what == "bits":
        return rng.choice([1, 2, 8, 8, 12, 12, 14, 16])
    if what == "gain":
        return rng.choice([1, 4, 10, 20, 40, 40, 50, 80, 400, 1000, 4000])
    if what == "unity":
        return rng.randint(-3, 3)
    return unity - rng.choice([-1, 0, 1, 2])


def px(rng, b, bright):
    def one():
        k = rng.random()
        if k < .2:
            return 0
        if k < .27:
            return HUGE
        return rng.choice([1, 2, 7, rng.randint(1, 200), rng.randint(1, 200000), bright])
    return [one() for _ in range(8 if b == 3 else 3)]


def draw(rng, m):
    w = []
    unity = {1: 0, 2: 0, 3: 0}
    calm = rng.random() < .5
    for b in (1, 2, 3):
        if rng.random() < .8:
            w.append(dict(op="make", b=b, s=3 if b == 3 else rng.randint(1, 2), w=rng.randint(1, 5), h=rng.randint(1, 4)))
        if rng.random() < .8:
            w.append(dict(op="enable", b=b, what="response", on=True))
    while len(w) < m:
        s = rng.randint(1, 3)
        b = 3 if s == 3 else rng.randint(1, 2)
        k = rng.random()
        bright = rng.choice([4000, 20000, 160000])
        if k < .38:
            what = rng.choice(list(WRONG) + ["noise"])
            if what == "noise" and calm:
                continue
            wrong = rng.choice(WRONG[what]) if what in WRONG and rng.random() < .3 else ""
            v = value(rng, what, s, unity[s])
            if what == "unity" and not wrong:
                unity[s] = v
            even = what == "qe" and rng.random() < .4
            if even:
                v = [v[0]] * len(v)
            w.append(dict(op="set", s=s, what=what, v=v, wrong=wrong, even=even, res=wrong != ""))
        elif k < .43:
            v = {f: value(rng, f, s, 0) for f in WRONG if f != "db"}
            v["noise"] = rng.random() < .5 and not calm
            v["db"] = 0
            unity[s] = v["unity"]
            w.append(dict(op="replace", s=s, v=v, res=False))
        elif k < .47:
            w.append(dict(op="make", b=b, s=s, w=rng.randint(1, 5), h=rng.randint(1, 4)))
        elif k < .55:
            w.append(dict(op="enable", b=b, what=rng.choice(["power", "response", "response"]), on=rng.random() < .75))
        elif k < .57:
            w.append(dict(op="clear", b=b))
        elif k < .7:
            w.append(dict(op="light", b=b, px=[px(rng, b, bright) for _ in range(rng.randint(1, 7))]))
        elif k < .76:
            w.append(dict(op="spot", b=b, i=rng.randint(0, 30), px=px(rng, b, bright)))
        else:
            w.append(dict(op="readout", s=s, b=b, t=rng.choice([0, 1, 3, 8, 8, 16, 80])))
    return w


def near(x, y):
    return abs(x - y) <= 2e-6 * max(abs(x), abs(y))


def cmp(a, exp, got):
    e, g = exp["o"], got["o"]
    if a["op"] in ("set", "replace"):
        if got["threw"] != a["res"]:
            return "the setting was refused" if got["threw"] else "a setting outside its physical range was accepted"
        for k, v in e["cfg"].items():
            if k == "db":
                continue
            if not (v == g[k] if isinstance(v, bool) else all(near(x, y) for x, y in zip(v, g[k])) if isinstance(v, list) else near(v, g[k])):
                return f"{k} is {g[k]}, expected {v}"
        if e["db"] and abs(e["db"][0] - g["db"]) > 1e-5:
            return f"gain is {20 * g['db']} dB, expected {20 * e['db'][0]}"
        return None
    if len(g["power"]) != len(e["power"]) or len(g["resp"]) != len(e["resp"]):
        return f"sizes {len(g['power'])}, {len(g['resp'])}, expected {len(e['power'])}, {len(e['resp'])}"
    for i, (x, y) in enumerate(zip(e["power"], g["power"])):
        if not all(near(p, q) for p, q in zip(x, y)):
            return f"received power of pixel {i} is {y}, expected {x}"
    for i, (x, y) in enumerate(zip(e["resp"], g["resp"])):
        for k, (lohi, v) in enumerate(zip(x, y)):
            if isinstance(v, str):
                return f"response of pixel {i} channel {k} is {v}"
            lo, hi = (n / d for n, d in lohi)
            if not lo * (1 - 1e-5) - 1e-9 <= v <= hi * (1 + 1e-5) + 1e-9 or v > 1:
                return f"response of pixel {i} channel {k} is {v}, expected {lo}" + (f" to {hi}" if hi != lo else "")
    if g["bits"] != e["bits"]:
        return f"bit depth of the response is {g['bits']}, expected {e['bits']}"
    return None


def run(ctx):
    exe = vf.build(ctx, "sensor", libs="all", san=False, opt="-O1")
    n = 4000 if ctx.thorough else 500
    walks = vf.guided(ctx, "Sensor_G", "Sensor_G.cfg", [draw(ctx.rng, 40) for _ in range(n)], jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="sensor settings and read-outs", cmp=cmp)
