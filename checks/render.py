"""Drawn histories of scenes, views, buffers and renders for P23 and P24 (spec/Render.tla)."""
import vf

SIZES = [(70, 18), (18, 70), (17, 16), (66, 66), (5, 3), (32, 32), (16, 48), (1, 1)]
SMALL = [(17, 16), (5, 3), (32, 32), (16, 48), (18, 35)]
OUTS = ["depth", "albedo", "ids", "camera normals", "world normals", "direct", "indirect", "power", "response"]
FAR = [700, 900, 1300, 2000]
DEPTH = [500, 800, 1100, 1500]


def place(rng, n, edge):
    """A position along one side of n pixels: near tile borders, near the image's, anywhere."""
    k = rng.random()
    if k < .35:
        p = 16 * rng.randint(0, n // 16) + rng.choice([-2, -1, 0, 1])
    elif k < .6:
        p = rng.choice([0, 0, 1, n - 1, n - 1, n - 2])
    else:
        p = rng.randrange(n)
    if rng.random() < edge:
        p = rng.choice([-9, -2, -1, n, n + 1, n + 8])
    return 32 * p + 2 * rng.randrange(16) + 1


def source(rng, w, h, kind=None, dim=0):
    kind = kind or rng.choice(["object", "star"])
    x, y = place(rng, w, .06), place(rng, h, .06)
    return dict(op="source", kind=kind, x=x, y=y, tox=x, toy=y, far=0 if kind == "star" else rng.choice(FAR), b=rng.choice([1, 1, 2, 5, 50, 1000]), dim=dim)


def mover(rng, w, h):
    x, y = place(rng, w, 0), place(rng, h, 0)
    tox, toy = x, y
    if w >= 30 and (h < 30 or rng.random() < .5):
        x, tox = 32 * rng.randint(-15, w // 2 - 15) + 7, 32 * rng.randint(w // 2 + 15, w + 15) + 9
        if rng.random() < .5:
            x, tox = tox, x
    else:
        y, toy = 32 * rng.randint(-15, h // 2 - 15) + 7, 32 * rng.randint(h // 2 + 15, h + 15) + 9
        if rng.random() < .5:
            y, toy = toy, y
    return dict(op="source", kind="mover", x=x, y=y, tox=tox, toy=toy, far=rng.choice(FAR), b=rng.choice([1, 20]), dim=0)


def quad(rng, w, h):
    def side(n):
        a = rng.choice([-3, 0, rng.randrange(n), 16 * rng.randint(0, n // 16)])
        return a, a + rng.choice([1, 2, 7, 16, n])
    x0, x1 = side(w)
    y0, y1 = side(h)
    return dict(op="quad", x0=x0, x1=x1, y0=y0, y1=y1, d=rng.choice(DEPTH))


def outs(rng, need=()):
    o = {x for x in OUTS if rng.random() < .6} | set(need)
    if "response" in o:
        o.add("power")
    return sorted(o)


def tail(rng, w, state, m, need, sizes):
    """looks, buffers, junk and renders"""
    ww, hh = state["size"]
    while len(w) < m:
        k = rng.random()
        if k < .15:
            w.append(dict(op="look", v=rng.randint(1, 3), n=rng.randint(2, 4) if state["mover"] else rng.choice([1, 1, 2])))
        elif k < .27:
            s = (ww, hh) if rng.random() < .8 else rng.choice(sizes)
            w.append(dict(op="buffer", b=rng.randint(1, 3), w=s[0], h=s[1], outs=outs(rng, need)))
        elif k < .37:
            w.append(dict(op="smear", b=rng.randint(1, 3), seed=rng.randint(1, 999)))
        elif k < .45:
            w.append(dict(op="drop", k=rng.randint(1, 6)))
        elif k < .5 and not state["mover"]:
            w.append(source(rng, ww, hh, dim=state["dim"]))
        elif k < .53:
            w.append(quad(rng, ww, hh))
        else:
            w.append(render(rng, w, rng.randint(1, 3), rng.randint(1, 3), state))


def render(rng, w, v, b, state):
    return dict(op="render", v=v, b=b, threads=rng.choice([1, 1, 2, 3, 8, 8]), spp=rng.choice(state["spp"]), bounces=rng.choice(state["bounces"]),
                painter=rng.randint(0, 1), id=len(w) + 1, want=0)


def begin(rng, sizes, blur, sky, lamp, spp):
    w, h = rng.choice(sizes)
    return ([dict(op="start", w=w, h=h, blur=blur, turn=rng.randint(0, 3), sky=sky, lamp=lamp)],
            dict(size=(w, h), spp=spp, bounces=[rng.randint(1, 3), rng.randint(1, 3)], mover=False, dim=0))


def sources_first(rng, w, st):
    for b in (1, 2):
        w.append(dict(op="buffer", b=b, w=st["size"][0], h=st["size"][1], outs=outs(rng, ["power"])))


def same_pixels(rng, m):
    """P23: outputs, threads, leftovers, refusals"""
    w, st = begin(rng, SIZES if rng.random() < .5 else SMALL, rng.choice([0, 0, 1, 4]), rng.choice([0, 3, 100]), rng.random() < .6, [3, 4])
    ww, hh = st["size"]
    for _ in range(rng.randint(0, 3)):
        w.append(source(rng, ww, hh))
    for _ in range(rng.randint(0, 4)):
        w.append(quad(rng, ww, hh))
    for b in (1, 2, 3):
        w.append(dict(op="buffer", b=b, w=ww, h=hh, outs=outs(rng)))
    w.append(dict(op="look", v=1, n=rng.choice([1, 1, 2])))
    for _ in range(rng.randint(2, 5)):
        b = rng.randint(1, 3)
        w.append(dict(op="smear", b=b, seed=rng.randint(1, 999)))
        w.append(render(rng, w, 1, b, st))
    tail(rng, w, st, m, [], SIZES)
    return w


def points(rng, m):
    """P24: sources across borders, hidden ones, moving ones, glare"""
    blur = rng.choice([0, 1, 1, 2, 3, 4])
    w, st = begin(rng, SIZES, blur, rng.choice([0, 0, 1]), False, [3])
    ww, hh = st["size"]
    if blur == 0 and max(ww, hh) >= 32 and rng.random() < .7:
        w.append(mover(rng, ww, hh))
        st["mover"] = True
    for _ in range(rng.randint(0, 2)):
        w.append(quad(rng, ww, hh))
    if not st["mover"] and not w[0]["sky"]:
        st["dim"] = rng.choice([0, 0, 6, 9, 10, 11, 12, 13, 15])
    for _ in range(rng.randint(1, 6)):
        w.append(source(rng, ww, hh, dim=st["dim"]))
    glare = rng.random() < .25
    if glare:
        w.append(dict(op="glare", k=rng.randint(1, 7)))
    need = ["power"] + (["direct", "indirect"] if glare else [])
    for b in (1, 2):
        w.append(dict(op="buffer", b=b, w=ww, h=hh, outs=outs(rng, need)))
    w.append(dict(op="look", v=1, n=rng.randint(2, 4) if st["mover"] else 1))
    w.append(render(rng, w, 1, 1, st))
    w.append(render(rng, w, 1, 2, st))
    tail(rng, w, st, m, need, SIZES)
    return w


def cmp(a, exp, got):
    if a["op"] != "render":
        return None
    r = got["r"]
    want = a["want"]
    if r == "skipped":
        return None
    if want["refused"]:
        return None if r == "refused" else r
    return None if r == "ok" else r


def check(ctx, draw, n, m):
    exe = vf.build(ctx, "render", libs="all", san=False, opt="-O1", flags=["-DNDEBUG"])
    walks = vf.guided(ctx, "Render_G", "Render_G.cfg", [draw(ctx.rng, m) for _ in range(n)], jobs=8)
    vf.parallel_replay(ctx, exe, [walks[i::6] for i in range(6)], what="renders", cmp=cmp)
