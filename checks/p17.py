"""P17: convolution (spec/Convolve.tla)."""
import vf

META = dict(
    technique="TLA+ spec Convolve: TLC checks the laws of the definition on all small pictures and evaluates drawn behaviours over "
              "image and kernel sizes on both sides of the algorithm switch; each is replayed into Image<T>::convolve",
    note="Images up to 9 x 9, kernels up to 13 x 11; integer-valued data, compared up to float rounding.")


def draw(rng, thorough):
    w = []
    big = 9 if thorough else 7
    for _ in range(6):
        W, H = rng.choice([(rng.randint(1, big), rng.randint(1, big)), (rng.randint(1, 4), rng.randint(1, 4)), (1, rng.randint(1, 9))])
        dense = rng.random() < .6
        w.append(dict(op="image", w=W, h=H, bits=rng.choice([0, 8, 12]),
                      px=[rng.randint(-3, 9) if dense or rng.random() < .2 else 0 for _ in range(W * H)]))
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .05:
                w.append(dict(op="self"))
                break
            K, L = rng.choice([(rng.randint(1, 5), rng.randint(1, 5)), (rng.randint(4, 9), rng.randint(4, 8)),
                               (rng.randint(1, 13), 2), (1, rng.randint(1, 11)), (27, 1), (1, 1), (5, 5), (26, 1), (13, 2), (6, 6)])
            kind = rng.random()
            px = [rng.randint(-2, 3) for _ in range(K * L)]
            if kind < .2:
                px = [0] * (K * L)
                px[rng.randrange(K * L)] = 1
            elif kind < .3:
                px = [1] * (K * L)
            w.append(dict(op="convolve", w=K, h=L, px=px))
    return w


def cmp(a, exp, got):
    e = exp["o"]
    for name in ("o", "vec3", "rgb"):
        g = got.get(name)
        if g is None and name != "o":
            continue
        if not isinstance(g, dict):
            return f"{name}: {g}"
        for k in ("w", "h", "bits"):
            if g[k] != e[k]:
                return f"{name}: {k} expected {e[k]} got {g[k]}"
        scale = max([1] + [abs(v) for v in e["px"]])
        if a["op"] == "convolve":
            scale = max(scale, 9 * sum(map(abs, a["px"])))
        for i, (v, c) in enumerate(zip(e["px"], g["px"])):
            if any(not abs(x - v) <= 2e-5 * scale for x in c):
                return f"{name}: pixel {i} expected {v} got {c}"
    if got.get("integer_refused") is False:
        return "an integer image was convolved or changed"
    return None


def run(ctx):
    exe = vf.build(ctx, "convolve", libs="image", san=True, opt="-O1")
    cmds = [draw(ctx.rng, ctx.thorough) for _ in range(600 if ctx.thorough else 80)]
    walks = vf.guided(ctx, "Convolve_G", "Convolve_G.cfg", cmds)
    vf.replay(ctx, exe, walks, cmp=cmp, what="convolution")
