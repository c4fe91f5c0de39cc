"""P16: image access and resampling (spec/ImageAccess.tla)."""
import vf

META = dict(
    technique="TLA+ spec ImageAccess checked by TLC; all transitions of a small instance and drawn behaviours over many image sizes, "
              "evaluated by TLC, are replayed into Image<T> for five pixel types under address/UB sanitizers",
    note="Resampling positions are multiples of 1/8 pixel, plus very large and non-finite ones. Nearest-neighbour ties are only "
         "decided where the coordinate is exact in float.")


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def make_cmp():
    def cmp(a, exp, got):
        if "other" in got:
            return f"pixel types disagree: {got}"
        if exp.get("o") != got.get("o"):
            return f"expected images {exp.get('o')} got {got.get('o')}"
        if a["op"] == "sample":
            m = exp["o"][a["k"] - 1]
            n, b = exp["r"]
            gn, gb = got["r"] if isinstance(got["r"], list) else (None, None)
            if gn is None or abs(gb - b / 64) > 1e-3 * max(1, b / 64):
                return f"bilinear: expected {b / 64} got {got['r']}"
            exact = all(w <= 1 or pow2(w - 1) for w in (m["w"], m["h"]))
            tie = any(w > 1 and not pow2(w - 1) and p % 8 == 4 for w, p in ((m["w"], a["p"]), (m["h"], a["q"])))
            if not tie and gn != n:
                return f"nearest: expected {n} got {gn}"
            un, ub = got["u8"]
            if not tie and un != n or not (ub == b // 64 or not exact and abs(ub - b / 64) <= 1):
                return f"integer pixels: expected {(n, b // 64)} got {got['u8']}"
            return None
        if a["op"] == "sample_wild":
            m = exp["o"][a["k"] - 1]
            for v in (*got["r"], *got["u8"]) if isinstance(got["r"], list) else (None,):
                if v not in (exp["r"] if exp["r"] != "inside" else m["px"]):
                    return f"expected {exp['r']} got {got['r']}"
            return None
        return None if exp.get("r") == got.get("r") else f"expected {exp} got {got}"
    return cmp


SIZES = [(1, 1), (5, 4), (4, 3), (3, 3), (9, 2), (1, 6), (7, 1), (2, 5), (3, 6), (0, 0), (17, 3), (6, 6)]
MODES = ["clamp", "repeat", "mirror"]
WILD = ["big", "-big", "inf", "-inf", "nan"]
POS = ["nan_x", "nan_y", "inf_x", "-inf_y", "huge_x", "-huge_y", "min_int", "max_int"]


def draw(rng):
    """Commands of one behaviour, around the sizes the two images currently have."""
    size, w = [(0, 0), (0, 0)], []
    for _ in range(160):
        k = rng.randint(1, 2)
        W, H = size[k - 1]
        op = rng.choices(["new", "copy", "clear", "fill", "write", "read", "write_index", "write_pos", "write_wild",
                          "sample", "sample_wild"], [3, 2, .5, 1, 12, 6, 3, 4, 1, 20, 3])[0]
        if not w or (W == 0 and rng.random() < .5):
            op = "new"
        c = dict(op=op, k=k)
        if op == "new":
            size[k - 1] = rng.choice(SIZES)
            c.update(w=size[k - 1][0], h=size[k - 1][1], v=rng.choice([0, rng.randint(0, 50)]))
        elif op == "copy":
            size[k - 1] = size[2 - k]
            c.update(how=rng.choice(["construct", "assign", "swap"]))
        elif op == "clear":
            size[k - 1] = (0, 0)
        elif op == "fill":
            c.update(v=rng.choice([0, rng.randint(0, 50)]))
        elif op in ("write", "read"):
            o = 3 if rng.random() < .2 else 0
            c.update(x=rng.randint(-o, max(0, W - 1 + o)), y=rng.randint(-o, max(0, H - 1 + o)))
            if op == "write":
                c.update(v=rng.randint(0, 50))
        elif op == "write_index":
            c.update(i=rng.randint(-1, W * H + 1), v=rng.randint(0, 50))
        elif op == "write_pos":
            c.update(px=rng.randint(-20, 8 * W + 12), py=rng.randint(-20, 8 * H + 12), v=rng.randint(0, 50))
        elif op == "write_wild":
            c.update(what=rng.choice(POS))
        elif op == "sample":
            def pos(n):
                p = rng.randint(-20 * n - 30, 30 * n + 30)
                return 8 * (p // 8) if rng.random() < .3 else p
            c.update(p=pos(W), q=pos(H), mode=rng.choice(MODES))
        elif op == "sample_wild":
            c.update(s=rng.choice(WILD), t=rng.choice(WILD), mode=rng.choice(MODES))
        w.append(c)
    return w


def run(ctx):
    exe = vf.build(ctx, "image_access", libs="image", san=True, opt="-O1")
    g = vf.build_graph(ctx, "ImageAccess", "ImageAccess_quick.cfg")
    walks, left = vf.cover_walks(g, ctx.rng, maxlen=400)
    assert left == 0
    vf.replay(ctx, exe, walks, cmp=make_cmp(), what="access to small images")
    cmds = [draw(ctx.rng) for _ in range(1500 if ctx.thorough else 160)]
    walks = vf.guided(ctx, "ImageAccess_G", "ImageAccess_G.cfg", cmds)
    vf.replay(ctx, exe, walks, cmp=make_cmp(), what="access and resampling")
    # sizes whose pixel count does not fit in 32 bits
    plain = vf.build(ctx, "image_access", libs="image", out="image_access_plain")
    for w, h in [(65536, 65536)] + ([(46341, 46341), (1 << 20, 4097)] if ctx.thorough else []):
        r = vf.drive(ctx, plain, [dict(op="huge", w=w, h=h)])[0]["r"]
        if r != "ok":
            raise vf.Violation(f"an image of {w} x {h} pixels: {r}", dict(kind="huge", w=w, h=h, got=r))

