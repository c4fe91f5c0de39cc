"""P19: pictures written to PNG, TIFF and FITS and read again (spec/PictureFiles.tla)."""
import math
import vf

META = dict(
    technique="TLA+ spec PictureFiles (slots holding pictures, files holding what their format keeps of them) evaluated by TLC, which checks that files keep "
              "values in range and that writing what was read changes nothing; drawn histories of making, writing and reading replayed into the real writers and readers under sanitizers",
    note="Small pictures (up to 7 x 6); values one or two fifths of a level away from levels, beyond the range and not finite. 32-bit levels to 1e-6. "
         "Compression, JPEG and files written by other programs are not part of this check.")

SATS = [255, 1000, 1023, 4095, 16383, 60000, 65535, 1048575]
TEXT = ["object", "telescop", "instrume", "observer", "date_obs", "origin", "filter", "bunit", "ctype1", "ctype2"]
NUM = ["crpix1", "crpix2", "crval1", "crval2", "cdelt1", "cdelt2", "datamin", "datamax"]
WORDS = ["M 31", "O'Neil", "2024-02-29T23:59:59.5", "RA---TAN", "W/m2/sr/nm", "a", "two  blanks", "x" * 60, "'quoted'", "1.5", "T", "/ slash"]
TOKENS = ["0", "1", "-1.5", "512.5", "1e-9", "-2.7777777777777778e-4", "123456789.123456", "359.99999999", "1e20", "0.1"]


def value(rng, m, odd):
    k = rng.random()
    if k < odd:
        return rng.choice([[0, 0], [1, 0], [-1, 0], [3, 1], [-1, 2], [0, 0], [100, 1]])
    k = rng.choice([0, 1, m - 1, m, rng.randint(0, m), rng.randint(0, m), rng.randint(0, m), m // 2, m + rng.randint(1, 5), -1])
    off = rng.choice([-1, 1]) if m == 1048575 else rng.choice([-2, -1, 1, 2])
    return [5 * k + off, 5 * m] if rng.random() < .8 else [k, m]


def metadata(rng):
    full = rng.choice([0, 0, .2, .6, 1])
    t = lambda p, f, e: f() if rng.random() < p else e
    word = lambda: rng.choice(WORDS)
    custom, names = [], ["GAIN", "MY_KEY", "A", "X-1", "EIGHTLET", "FLAG", "NAXIS9Z", "COMMENTS"]
    rng.shuffle(names)
    for k in names[:rng.randint(0, 4) if full else 0]:
        kind = rng.choice("sdib")
        v = dict(s=word, d=lambda: rng.choice(TOKENS), i=lambda: str(rng.choice([0, -1, 7, 2147483647, -2147483648])), b=lambda: rng.choice("TF"))[kind]()
        custom.append(dict(k=k, t=kind, v=v, c=rng.choice(["", "note", "[s] unit"]) if len(v) < 20 else ""))
    free = lambda: [rng.choice(["one", "a longer remark, with = and / in it", "  indented", "z" * 72, "it's"]) for _ in range(rng.randint(1, 3))]
    return dict(text={k: t(full * .7, word, "") for k in TEXT},
                num={k: t(full * (.6 if k[0] == "c" else .2), lambda: [rng.choice(TOKENS)], []) for k in NUM},
                exptime=t(full, lambda: rng.choice(["0.1", "3600", "1e-6", "33.3333"]), ""),
                equinox=t(full, lambda: rng.choice(["1950", "2000", "2015.5"]), "2000"), radesys=t(full, lambda: rng.choice(["FK5", "ICRS", "FK4"]), "ICRS"),
                sat=t(.3, lambda: rng.choice(SATS + [-1]), 0), comments=t(full * .6, free, []), history=t(full * .6, free, []), custom=custom)


def picture(rng, s):
    ch = rng.choice([1, 1, 3])
    w, h = rng.choice([(rng.randint(1, 7), rng.randint(1, 6))] * 9 + [(0, 0)])
    m = rng.choice(SATS)
    odd = rng.choice([0, 0, .1, .5])
    aw, ah = rng.choice([(0, 0), (0, 0), (w, h), (w, h), (w + 1, h), (w, h + 1), (h, w), (max(1, w + rng.randint(-1, 2)), max(1, h + rng.randint(-1, 2)))]) if w else (0, 0)
    return dict(op="make", s=s, ch=ch, p=dict(
        w=w, h=h, px=[[value(rng, m, odd) for _ in range(ch)] for _ in range(w * h)], alpha=[value(rng, m, odd) for _ in range(aw * ah)], aw=aw, ah=ah,
        space=rng.choice(["sRGB", "Linear", "Gamma", "Unknown"]), gamma=rng.choice([1, 1, 3, 4, 5]), depth=rng.choice([8, 8, 16, 16, 16, 12, 0]),
        bits=rng.choice([0, 0, 8, 10, 12, 14, 16, 20, 32]), tol=0, meta=metadata(rng)))


def draw(rng, n):
    w, ch, size = [], {}, {}
    have = {}
    while len(w) < n:
        s = rng.randint(1, 3)
        op = rng.choices(["make", "turn", "write", "read"], [3, 1, 6, 6])[0]
        if op == "make" or s not in ch:
            c = picture(rng, s)
            if c["p"]["space"] == "Gamma" and c["p"]["gamma"] == 1:
                c["p"]["gamma"] = 3
            ch[s], size[s] = c["ch"], c["p"]["w"]
        elif op == "turn":
            c = dict(op=op, s=s, depth=rng.choice([8, 16, 16, 9]), bits=rng.choice([0, 0, 8, 12, 16]))
        elif op == "write":
            f = rng.choice([1, 2, 3, 4, 5, 5, 6, 6] if ch[s] == 1 else [1, 2, 3, 4])
            c = dict(op=op, s=s, f=f, bp=rng.choice([8, 16, 16, 32, -32, -64] * 3 + [0, 64]) if f > 4 else 0)
            have[f] = 1
        else:
            f = rng.choice(list(have) * 5 + [1, 2, 3, 4, 5, 6])
            c = dict(op=op, f=f, s=s, ch=1 if f > 4 else rng.choice([1, 3]), alpha=rng.random() < .8, via=rng.choice(["own", "any"]))
            if f in have:
                ch[s] = c["ch"]
        w.append(c)
    return w


def off(e, g, tol):
    if e == [2, 0]:
        return False
    if e[1] == 0:
        return g != {0: "nan", 1: "inf", -1: "-inf"}[e[0]]
    if isinstance(g, str):
        return True
    v = e[0] / e[1]
    return abs(g - v) > 2e-7 * max(1, abs(v)) + (1.01 / tol if tol else 0) + (1e-6 if e == [0, 1] or e == [1, 1] else 0)


def same(x, y):
    return y is not None and abs(x - y) <= 1e-14 * abs(x)


def metadata_off(e, g, tol):
    for k in TEXT:
        if e["text"][k] != g["text"][k]:
            return f"{k} is {g['text'][k]!r}, expected {e['text'][k]!r}"
    sat = None if e["sat"] == 0 else 4294967295 if e["sat"] == -1 else e["sat"]
    if sat != g["sat"]:
        return f"saturation level is {g['sat']}, expected {sat}"
    for k in NUM:
        x, y = e["num"][k], g["num"][k]
        if not x:
            good = y is None
        elif len(x) == 1:
            good = True if x[0] == "any" else same(float(x[0]), y)
        else:
            v = x[0][0] / x[0][1]
            good = y is not None and abs(v - y) <= 2e-7 * max(1, abs(v)) + ((1.01 * max(1, sat or 1) / tol + 1) if tol else 0)
        if not good:
            return f"{k} is {y}, expected {x}"
    if not math.isclose(float(e["exptime"] or 0), g["exptime"], rel_tol=1e-6) or not same(float(e["equinox"]), g["equinox"]) or e["radesys"] != g["radesys"]:
        return f"exposure time, equinox or frame: {g['exptime']}, {g['equinox']}, {g['radesys']}"
    for k in ("comments", "history"):
        if e[k] != g[k]:
            return f"{k}: {g[k]}, expected {e[k]}"
    if [(c["k"], c["t"], c["c"]) for c in e["custom"]] != [(c["k"], c["t"], c["c"]) for c in g["custom"]]:
        return f"further keywords: {g['custom']}, expected {e['custom']}"
    for c, d in zip(e["custom"], g["custom"]):
        if not (same(float(c["v"]), d["v"]) if c["t"] == "d" else d["v"] == (int(c["v"]) if c["t"] == "i" else c["v"] == "T" if c["t"] == "b" else c["v"])):
            return f"keyword {c['k']} is {d['v']}, expected {c['v']}"
    return None


def cmp(a, exp, got):
    e, g = exp["o"]["p"], got["p"]
    if exp["o"]["res"] != got["res"]:
        return f"{a['op']} was {'done' if got['res'] else 'refused'}, expected the opposite"
    if (e["w"], e["h"]) != (g["w"], g["h"]):
        return f"size is {g['w']} x {g['h']}, expected {e['w']} x {e['h']}"
    if (e["aw"], e["ah"]) != (g["aw"], g["ah"]):
        return f"alpha is {g['aw']} x {g['ah']}, expected {e['aw']} x {e['ah']}"
    for i, (p, q) in enumerate(zip(e["px"], g["px"])):
        if len(p) != len(q) or any(off(x, y, e["tol"]) for x, y in zip(p, q)):
            return f"pixel ({i % e['w']}, {i // e['w']}) is {q}, expected {[x[0] / x[1] if x[1] else x for x in p]} ({p})"
    for i, (x, y) in enumerate(zip(e["alpha"], g["alpha"])):
        if off(x, y, e["tol"]):
            return f"alpha {i} is {y}, expected {x}"
    for k in ("space", "depth", "bits"):
        if e[k] != g[k]:
            return f"{k} is {g[k]}, expected {e[k]}"
    if abs(e["gamma"] - g["gamma"]) > 1e-3:
        return f"gamma is {g['gamma']}, expected {e['gamma']}"
    return metadata_off(e["meta"], g["meta"], e["tol"])


def run(ctx):
    exe = vf.build(ctx, "picturefiles", libs="all", san=True, opt="-O1")
    n = 1800 if ctx.thorough else 300
    walks = vf.guided(ctx, "PictureFiles_G", "PictureFiles_G.cfg", [draw(ctx.rng, 40) for _ in range(n)], jobs=8)
    kinds = {}
    for w in walks:
        for a, o in w:
            k = (a["op"], "png tiff fits".split()[(a["f"] - 1) // 2] if "f" in a else "", o["res"])
            kinds[k] = kinds.get(k, 0) + 1
    ctx.log(", ".join(f"{' '.join(map(str, k))}: {v}" for k, v in sorted(kinds.items())))
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], env=dict(VF_DIR="", ASAN_OPTIONS="detect_leaks=0"), what="pictures written and read", cmp=cmp)
