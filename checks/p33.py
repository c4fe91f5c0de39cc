"""P33: apparent positions (spec/Apparent.tla)."""
import math

import vf

META = dict(
    technique="TLA+ spec Apparent: light time and relativistic aberration in exact numbers (light-second lattice, Pythagorean speeds); TLC checks that "
              "directions stay unit, turn towards the motion and can be undone, and evaluates drawn bodies and observers, compared with "
              "Node::get_apparent_transform in its three modes",
    note="Bodies up to a sixth of the speed of light with uniform motion and spin, in a moving frame; observers up to 0.98 of it along an axis.")
RAYS = [(1, 0, 0), (3, 4, 0), (1, 2, 2), (2, 3, 6), (4, 4, 7), (1, 4, 8), (2, 6, 9), (6, 6, 7), (3, 4, 12), (2, 5, 14), (0, 0, 0)]
SPEEDS = [(0, 1, 1), (3, 5, 4), (4, 5, 3), (5, 13, 12), (12, 13, 5), (20, 29, 21), (400, 40001, 39999), (40, 401, 399), (4000, 4000001, 3999999), (99, 4901, 4900)]


def ray(rng, far=20):
    e = list(rng.choice(RAYS[:-1] if rng.random() < .97 else RAYS[-1:]))
    rng.shuffle(e)
    s = rng.choice([1, 1, 2, 3, rng.randint(1, far)])
    return [rng.choice([-1, 1]) * x * s for x in e]


def draw(rng, m):
    w = []
    for _ in range(m):
        k = rng.random()
        if k < .35:
            e = ray(rng)
            d = math.isqrt(sum(x * x for x in e))
            slow = rng.choice([0, 1, 10, 50])
            w.append(dict(op="body", e=e, k=d, v=[rng.randint(-slow, slow) for _ in e], u=[rng.randint(-slow, slow) if rng.random() < .5 else 0 for _ in e],
                          spin=rng.choice([[0, 0, 0], [1, 0, 0], [0, -1, 0], [0, 0, 2], [0, 0, 1]]), at=rng.choice([0, 1, d, d + 3, rng.randint(-40, 40)]),
                          share=rng.choice([0, 0, 1, 5])))
        elif k < .6:
            f, g, h = rng.choice(SPEEDS)
            w.append(dict(op="observer", o=[rng.choice([0, 0, rng.randint(-9, 9)]) for _ in range(3)], ax=rng.randint(1, 3), f=rng.choice([-1, 1]) * f, g=g, h=h))
        elif k < .9:
            w.append(dict(op="look", mode=rng.choice(["true", "geometric", "aberrated", "aberrated"]), epoch=rng.choice([0, 0, 1000, 5.25e8, -3e8]), res=0))
        else:
            w.append(dict(op="ray", e=ray(rng, 3), res=0))
    return w


def cmp(a, exp, got):
    if a["op"] == "ray":
        e = exp["r"]
        if not any(a["e"]):
            return None
        return None if all(abs(n / e["d"] - y) < 1e-12 for n, y in zip(e["n"], got["r"])) else f"direction {got['r']}, expected {e['n']} / {e['d']}"
    if a["op"] != "look":
        return None
    e, g = exp["r"], got["r"]
    p = [x / 1000 + e["far"] * n / e["dir"]["d"] for x, n in zip(e["at"], e["dir"]["n"])]
    # the clock resolves 1e-7 s; the light time is found by iteration
    tol = 3e-8 + 1e-9 * max(map(abs, p + [1]))
    if not all(abs(x - y) <= tol for x, y in zip(p, g["p"])):
        return f"seen at {g['p']} light-seconds, expected {p}"
    t = 1e-5 if abs(a["epoch"]) > 1e4 else 1e-6
    for i in range(3):
        if not all(abs(e["m"][r][i] - g["cols"][i][r]) <= t for r in range(3)):
            return f"orientation {g['cols']}, expected {e['m']} (rows)"
    return None


def run(ctx):
    exe = vf.build(ctx, "apparent", libs="all", opt="-O1")
    walks = [draw(ctx.rng, 40) for _ in range(8000 if ctx.thorough else 600)]
    walks = vf.guided(ctx, "Apparent_G", "Apparent_G.cfg", walks, jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="apparent positions", cmp=cmp)
