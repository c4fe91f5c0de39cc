"""P31: orbits and star motion (spec/Orbits.tla, spec/StarField.tla)."""
import vf

META = dict(
    technique="TLA+ spec Orbits: Kepler orbits at rational moments (eccentric anomaly in quarter turns), orientation callbacks and riders, checked by "
              "TLC against vis-viva and the area law; drawn histories of settings and evaluation times in any order replayed into nodes of the scene",
    note="CSPICE's conics is replaced by a stand-in that takes, as documented, the distance at periapsis.")


def draw_orbits(rng, m):
    w = []
    node = {i: dict(par=0, orbit=False) for i in range(1, 5)}

    def below(i):
        return [j for j in node if node[j]["par"] == i]

    def carrier(i):
        return 0 if i == 0 else i if node[i]["orbit"] else carrier(node[i]["par"])

    def above(i):
        return 0 if i == 0 else carrier(node[i]["par"])

    def carries(i):
        return any(node[j]["orbit"] or carries(j) for j in below(i))
    for _ in range(m):
        k = rng.random()
        i = rng.randint(1, 4)
        if k < .4 and not below(i):
            par = rng.choice([0, 0] + [j for j in node if j < i])
            if k < .22 and carrier(par) == 0:
                node[i] = dict(par=par, orbit=True)
                w.append(dict(op="orbit", i=i, par=par, size=rng.randint(1, 4), ecc=rng.choice([0, 3, 4]), inc=rng.choice([0, 0, 1, 2, 3]), raan=rng.randint(0, 3),
                              argp=rng.randint(0, 3), face=rng.choice(["none", "up", "down"]), body=rng.randint(0, 2),
                              epoch=rng.choice([0, 750000000, -325000000, 1000]), e0=rng.choice([0, 10, 25, -10, 60])))
            else:
                node[i] = dict(par=par, orbit=False)
                w.append(dict(op="rest", i=i, par=par, p=[5 * rng.randint(-4, 4) for _ in range(3)], ax=rng.randint(1, 3), turn=rng.randint(0, 3)))
        else:
            w.append(dict(op="see", i=i, q=rng.randint(0, 3), by=carrier(i), rev=rng.choice([0, 0, 1, -1, 5, rng.randint(-30, 30)]), when=rng.choice([0, 100, 700000000]), res=0))
    return w


def cmp(a, exp, got):
    if "threw" in got:
        return f"{a['op']} threw: {got['threw']}"
    if a["op"] != "see":
        return None
    e, g = exp["r"], got["r"]
    tol = 2e-5   # of 1000 km: the clock's resolution times the fastest orbit
    if e["by"] != a["by"]:
        return "the specification has another carrier"
    if not all(abs(x / 5 - y) <= tol for x, y in zip(e["p"], g["p"])):
        return f"at {g['p']} (1000 km), expected {[x / 5 for x in e['p']]}"
    for i in range(3):
        if not all(abs(e["m"][r][i] / 5 - g["cols"][i][r]) <= 2e-5 for r in range(3)):
            return f"orientation {g['cols']}, expected the columns of {e['m']} / 5"
    if e["v"]["d"]:
        want = [x * g["n"] / e["v"]["d"] for x in e["v"]["n"]]
        top = max(map(abs, want))
        if not all(abs(x - y) <= 1e-4 * top for x, y in zip(want, g["v"])):
            return f"velocity {g['v']}, expected {want}"
    return None


def run(ctx):
    exe = vf.build(ctx, "orbits", libs="all", opt="-O1")
    walks = [draw_orbits(ctx.rng, 40) for _ in range(8000 if ctx.thorough else 600)]
    walks = vf.guided(ctx, "Orbits_G", "Orbits_G.cfg", walks, jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="orbits", cmp=cmp)
