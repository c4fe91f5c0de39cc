"""P21: Tycho-2 source records (spec/TychoRecords.tla)."""
import itertools
import math

import vf

META = dict(
    technique="TLA+ spec TychoRecords (published columns, usable lines, per-line stars) evaluated by TLC on drawn files and on all ordered "
              "pairs and triples of record shapes; the same files are read by read_tycho2_dat/read_tycho2_suppl under address/UB sanitizers",
    note="Every column nobody reads is filled with digits. Lines are cut at field boundaries only. The photometric calibration is compared "
         "with the library's own calibration of the same magnitudes (and magnitude and temperature with their formulas).")
BLANK, JUNK = -1999999999, -1999999998
MAS = math.pi / (180 * 3600 * 1000)


def shape(rng, kind="any"):
    """A random record of the given shape."""
    def mag():
        return rng.randint(1000, 14999)
    l = dict(data=True, t1=rng.randint(1, 9537), t2=rng.randint(1, 12121), t3=rng.randint(1, 3), flag=" ", cut=999,
             ra=rng.randint(0, 359999999), de=rng.randint(-89000000, 89000000), pmra=rng.randint(-9999, 9999),
             pmde=rng.randint(-9999, 9999), ora=rng.randint(0, 359999999), ode=rng.randint(-89000000, 89000000),
             era=rng.randint(0, 213), ede=rng.randint(0, 213))
    l["bt"] = mag()
    l["vt"] = l["bt"] - rng.randint(-300, 1500)
    l["vt"] = max(500, l["vt"])
    e = lambda: rng.choice([BLANK, BLANK, JUNK])
    if kind == "any":
        kind = rng.choice(SHAPES)
    if kind == "text":
        return dict(data=False, text=rng.choice(["", "# comment", "TYC1 TYC2 3", " ", "-1", "|||", "x" * 300]), cut=999)
    if kind == "no_bt":
        l["bt"] = e()
    elif kind == "no_vt":
        l["vt"] = e()
    elif kind == "no_mag":
        l["bt"], l["vt"] = e(), e()
    elif kind == "no_motion":
        l["pmra"], l["pmde"] = e(), e()
    elif kind == "no_pmra":
        l["pmra"] = e()
    elif kind == "no_pmde":
        l["pmde"] = e()
    elif kind == "no_pos":
        l[rng.choice(["ra", "de"])] = e()
    elif kind == "x":
        l["flag"], l["ra"], l["de"], l["pmra"], l["pmde"] = "X", BLANK, BLANK, BLANK, BLANK
    elif kind == "x_motion":
        l["flag"] = "X"
    elif kind == "x_no_pos":
        l["flag"] = "X"
        l[rng.choice(["ora", "ode", "era", "ede"])] = e()
    elif kind == "no_id":
        l[rng.choice(["t2", "t3"])] = e()
    elif kind == "cut":
        l["cut"] = rng.choice([4, 10, 12, 13, 14, 27, 40, 48, 56, 89, 102, 116, 129, 164, 177, 182, 187, 200])
        l["flag"] = rng.choice(" PX")
    elif kind == "p":
        l["flag"] = rng.choice("PH")
    elif kind == "big_id":
        l["t1"], l["t2"], l["t3"] = rng.choice([0, 9537, 8192, 9999]), rng.choice([0, 65535, 12121, 32768]), rng.choice([0, 9, 8])
    return l


SHAPES = ["full", "no_bt", "no_vt", "no_mag", "no_motion", "no_pmra", "no_pmde", "no_pos", "x", "x_motion", "x_no_pos", "no_id",
          "cut", "p", "text", "big_id"]


def reads(rng):
    last = rng.random() < .5
    return [dict(op="read", which=w, ending=rng.choice(["lf", "lf", "crlf"]), last=last) for w in ("main", "suppl")]


def star(s, calib):
    t1, t2, t3 = s["id"]
    ye = 1e-4
    de = s["de"] * 1e-6 * math.pi / 180 + s["pmde"] / 10 * MAS * s["yde"] / 100
    ra = s["ra"] * 1e-6 * math.pi / 180 + s["pmra"] / 10 * MAS * s["yra"] / 100 / math.cos(de)
    bv = s["bv"] / 1e5
    temp = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62))
    return dict(id=(t1 << 20) | (t2 << 4) | t3, ra=(ra, abs(s["pmra"]) / 10 * MAS * ye / math.cos(de) + 1e-12),
                de=(de, abs(s["pmde"]) / 10 * MAS * ye + 1e-12), pmra=(s["pmra"] / 10, 1e-4), pmde=(s["pmde"] / 10, 1e-4),
                mag=(s["v"] / 1e5, 2e-6 * max(1, abs(s["v"] / 1e5))), temp=(temp, temp * 1e-6),
                omega=(calib[s["bt"], s["vt"]], calib[s["bt"], s["vt"]] * 1e-9))


def make_cmp(calib):
    def cmp(a, exp, got):
        if a["op"] != "read":
            return None if exp == got else f"expected {exp} got {got}"
        r = got["r"]
        if not isinstance(r, list) or len(r) != len(exp["r"]):
            return f"expected {len(exp['r'])} stars, got {len(r) if isinstance(r, list) else r}"
        for i, (e, g) in enumerate(zip(exp["r"], r)):
            want = star(e, calib)
            for k, v in want.items():
                ok = g[k] == v if k == "id" else not isinstance(g[k], str) and abs(g[k] - v[0]) <= v[1]
                if not ok:
                    return f"star {i + 1}, {k}: expected {v if k == 'id' else v[0]} got {g[k]}"
        return None
    return cmp


def run(ctx):
    exe = vf.build(ctx, "tycho_records", libs="all", san=True, opt="-O1")
    rng, cmds = ctx.rng, []
    for k in (1, 2, 3) if ctx.thorough else (1, 2):
        for ks in itertools.product(SHAPES, repeat=k):
            cmds.append([dict(op="line", l=shape(rng, s)) for s in ks] + reads(rng))
    for _ in range(3000 if ctx.thorough else 300):
        w = [dict(op="missing", which=rng.choice(["main", "suppl"]))] if rng.random() < .05 else []
        for _ in range(rng.randint(0, 6)):
            w += [dict(op="line", l=shape(rng)) for _ in range(rng.randint(0, 6))] + reads(rng)
        cmds.append(w)
    walks = vf.guided(ctx, "TychoRecords_G", "TychoRecords_G.cfg", cmds)
    pairs = sorted({(s["bt"], s["vt"]) for w in walks for a, _ in w if a["op"] == "read" for s in a["res"]}, key=str)
    got = vf.drive(ctx, exe, [dict(op="calibrate", bt=b, vt=v) for b, v in pairs])
    calib = {p: g["r"][2] for p, g in zip(pairs, got)}
    # the calibration itself: five magnitudes are a factor of one hundred in light
    for b, v in [(BLANK, 3000), (4000, BLANK), (5200, 5000)]:
        up = (BLANK if b == BLANK else b + 5000, BLANK if v == BLANK else v + 5000)
        g = vf.drive(ctx, exe, [dict(op="calibrate", bt=x, vt=y) for x, y in ((b, v), up)])
        if not abs(g[0]["r"][2] / g[1]["r"][2] - 100) < 1e-3:
            raise vf.Violation(f"the light of stars {(b, v)} and {up} differs by {g[0]['r'][2] / g[1]['r'][2]}, not 100",
                               dict(kind="calibration", pairs=[(b, v), up]))
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], cmp=make_cmp(calib), what="source records")
