"""Shared by P13 and P14: histories of camera settings (spec/Camera.tla)."""
RES = [(8, 6), (7, 5), (16, 12), (33, 20), (24, 40), (64, 48)]
CORNERS = [(0, 0), (1, 0), (0, 2), (-3, 0), (0, -4), (3, 4), (-3, 4), (4, -3), (-4, -3), (0, 1), (2, 0)]


def sensor(rng, bad=False):
    w, h = rng.choice(RES)
    px = rng.choice([5, 10, 20, 40])
    py = px if rng.random() < .7 else rng.choice([5, 10, 20, 40])
    c = dict(op=rng.choice(["sensor", "size"]), w=w, h=h, px=px, py=py, cx=-1, cy=-1, bad=False, res=0)
    if rng.random() < .5:
        c.update(cx=rng.randint(0, 2 * w), cy=rng.randint(0, 2 * h))
    if bad:
        k = rng.randint(0, 3)
        if k == 0:
            c["bad"] = True
            c["cx"] = c["cy"] = 3
        elif k == 1:
            c["px"] = c["py"] = -5
        elif k == 2:
            c.update(op="sensor", py=0)
        else:
            c.update(op="sensor", w=-3)
    return c


def matrix(rng, bad=False):
    w, h = rng.choice(RES)
    f = rng.choice([1000, 2000, 4000])
    c = dict(op="matrix", fx=rng.choice([50, 100, 200]), fy=0, cx=rng.randint(0, 2 * w), cy=rng.randint(0, 2 * h), w=w, h=h, f=f, bad=False, res=0)
    c["fy"] = c["fx"] if rng.random() < .6 else rng.choice([50, 100, 200])
    if bad:
        rng.choice([lambda: c.update(bad=True), lambda: c.update(fx=0), lambda: c.update(fy=-50), lambda: c.update(f=-1000), lambda: c.update(h=-1)])()
    return c


def focal(rng, bad=False):
    if bad:
        return dict(op="focal", f=rng.choice([0, -1000, 1000]), bad=True, res=0) if rng.random() < .5 else dict(op="focal", f=rng.choice([0, -2000]), bad=False, res=0)
    return dict(op="focal", f=rng.choice([500, 1000, 2000, 4000]), bad=False, res=0)


def lens(rng):
    kind = rng.choice(["brown", "opencv", "owen"])
    n = dict(brown=5, opencv=12, owen=6)[kind]
    if kind == "brown":
        k = [rng.randint(-2, 2), rng.randint(-1, 1), rng.randint(-1, 1)] + [rng.choice([0, 0, 1, -1]) for _ in range(2)]
    elif kind == "opencv":
        k = [rng.randint(-2, 2), rng.randint(-1, 1), 0, rng.randint(-1, 1), rng.choice([0, 1]), 0] + [rng.choice([0, 0, 1, -1]) for _ in range(6)]
    else:
        k = [rng.randint(-1, 1), rng.randint(-2, 2), rng.choice([0, 1]), rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-1, 1)]
    assert len(k) == n
    return dict(op="lens", kind=kind, k=k, res=0)


def shape(rng):
    k = rng.random()
    if k < .3:
        return sensor(rng)
    if k < .45:
        return matrix(rng)
    if k < .65:
        return focal(rng)
    if k < .8:
        return lens(rng)
    if k < .88:
        return dict(op="unlens", res=0)
    return dict(op="flip", on=rng.random() < .6, res=0)


def refused(rng):
    return rng.choice([sensor, matrix, focal])(rng, bad=True) if rng.random() < .8 else dict(op="focus", mm=0, bad=rng.random() < .5, res=0)


def optics(rng, blur):
    k = rng.random()
    if blur and k < .3:
        return rng.choice([dict(op="blur", r=2, b=2, res=0), dict(op="blur", r=1, b=3, res=0), dict(op="ownblur", r=2, b=1, f=2000, d=400, res=0), dict(op="unblur", res=0)])
    if k < .5:
        return dict(op="stop", n=rng.choice([7, 11, 13]), res=0)
    if k < .65:
        return dict(op="aperture", d=rng.choice([137, 271, 509, 811]), res=0)
    if k < .85:
        return dict(op="focus", mm=rng.choice([10, 20, 100]) if rng.random() < .9 else 1000000, bad=False, res=0)
    return dict(op="diopters", n=rng.choice([0, 0, 5, 30, 100]), res=0)
